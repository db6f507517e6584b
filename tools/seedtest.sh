#!/bin/bash
# seedtest.sh ID [all]: confirm a planted bug (demo passes unpatched, patch builds, stable tests pass, demo fails) and run its check.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
cp -a $d /tmp/seed-$id
trap 'git -C /repo checkout -q -- .; rm -rf -- /tmp/seed-$id' EXIT
bash /tmp/seed-$id/demo.sh >/tmp/seed-out0 2>&1 && echo "demo clean: ok" || { echo "DEMO FAILS UNPATCHED"; tail -5 /tmp/seed-out0; }
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed-build 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/seed-build; exit 1; }
bash /opt/vp/test.sh /tmp/seed-t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seed-t.json'))
p=set(t['passed'])
print("tests:", "ok" if b<=p else "MISSING %s"%list(b-p)[:4])
P
bash /tmp/seed-$id/demo.sh >/tmp/seed-out1 2>&1 && { echo "DEMO PASSES WITH PATCH"; } || { echo "demo patched: fails:"; tail -3 /tmp/seed-out1; }
if [ "$2" = all ]; then W=200 /verif/engine/t.sh all | grep -A1 -E "^VIOL" | head -20; else W=300 /verif/engine/t.sh $prop | grep -v "^OK" | head -6; fi
