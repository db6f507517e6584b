#!/bin/bash
# mkseed.sh ID PROP: turn the current edits of /repo into a planted bug (needs/breaks on stdin as two lines)
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
read -r needs; read -r breaks
python3 - "$d/meta.json" "$2" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
