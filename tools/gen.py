#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single source of both)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import props
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "static analysis: " + p["technique"],
            "level": "other",
            "level_note": p["note"],
        })
m = {
    "version": 1,
    "setup_cmd": "cd engine && cargo build --offline --release -q",
    "hooks": {"guard": "none", "enable": "no hooks: the analyser reads the source as it is", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not applicable")

# ---- DESIGN.md from its template, the properties, the findings file and the planted bugs
import glob
t = open(os.path.join(here, "DESIGN.tmpl.md")).read()
na_txt = "\n".join(f"* {p['id']} ({p['title']}): {p['na']}." for p in props.PROPS if p.get("na"))
fx = []
for l in open(os.path.join(root, "known-findings.txt")):
    if l.startswith("fixed:"):
        w = l.strip().split(" ", 3)
        fx.append(f"* {w[1].split('=')[1]} `{w[2]}`: {w[3]}")
sd = []
for d in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    j = json.load(open(d))
    sd.append(f"| {os.path.basename(os.path.dirname(d))} | {j['property']} | {j['what_it_breaks']} (needs {j['needs']}) |")
t = t.replace("%NA%", na_txt).replace("%FIX%", "\n" + "\n".join(fx)).replace("%SEEDS%", "\n".join(sd))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
