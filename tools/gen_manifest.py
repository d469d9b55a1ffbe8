#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the harness knows."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
have = subprocess.run([f"{root}/target/release/bcverif", "--list"], capture_output=True, text=True, check=True).stdout.split()
notes = json.load(open(f"{root}/tools/notes.json")) if os.path.exists(f"{root}/tools/notes.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} --tier quick",
            "thorough_cmd": f"./check.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing with shrinking: " + n["oracle"],
            "level": "exploration",
            "level_note": "Seeded random search: " + n["gen"] + ". Bounds: " + n["bound"] + (". Left out: " + n["leftout"] if n["leftout"] else "") + ".",
        })
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "cd harness && CARGO_TARGET_DIR=../target cargo build --release --offline", "checks": checks, "not_applicable": na}
old = json.load(open(f"{root}/MANIFEST.json"))
for k in old:
    if k not in m:
        m[k] = old[k]
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")

# the per-property part of DESIGN.md
d = open(f"{root}/DESIGN.md").read()
a, b = "<!-- properties: generated by tools/gen_manifest.py -->\n", "<!-- end of properties -->"
if a in d:
    out = ""
    for p in props:
        n = notes[p["id"]]
        out += f"* **{p['id']} {p['title']}.** *Oracle*: {n['oracle']}. *Generated*: {n['gen']}. *Bounds*: {n['bound']}. *Beyond the tests*: {n['beyond']}." + (f" *Left out*: {n['leftout']}." if n["leftout"] else "") + "\n"
    h, rest = d.split(a)
    open(f"{root}/DESIGN.md", "w").write(h + a + out + b + rest.split(b)[1])
