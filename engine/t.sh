#!/bin/bash
# compact view: keys + short witness
cd /verif/engine && cargo build --offline --release >/tmp/tb.log 2>&1 || { grep -E "^error" -A6 /tmp/tb.log | cut -c1-160 | head -${EL:-30}; exit 1; }
./target/release/fsa --property ${1:-all} --repo ${2:-/repo} --out /tmp/ev --known ${3:-/verif/known-findings.txt} | grep -E "^(OK|VIOL|KNOWN|    )" | cut -c1-${W:-330}
