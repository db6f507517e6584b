#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the analyser (no-op when fresh) and decides one property from /repo's current source.
cd "$(dirname "$0")" || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
(cd engine && flock .build.lock cargo build --offline --release -q >.build.log 2>&1) || { cat engine/.build.log >&2; exit 2; }
mkdir -p evidence
exec ./engine/target/release/fsa --property "$1" --repo /repo --out /verif/evidence --known /verif/known-findings.txt --tier "$tier"
