#!/usr/bin/env python3
"""Writes DESIGN.md from the properties, the checks' docstrings, the manifest, the findings and the notes below."""
import ast, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl") if l.strip()]
man = {c["property"]: c for c in json.load(open(f"{R}/MANIFEST.json"))["checks"]}
kf = json.load(open(f"{R}/known_findings.json"))

# what the existing tests cannot see / what is deliberately not claimed or was a false alarm
WHY = json.load(open(f"{R}/tools/design_notes.json"))
HEAD = open(f"{R}/tools/design_head.md").read()
TAIL = open(f"{R}/tools/design_tail.md").read()
out = [HEAD, "## Properties\n"]
for p in props:
    i = p["id"]; c = man.get(i)
    doc = ast.get_docstring(ast.parse(open(f"{R}/checks/{i}.py").read())) if os.path.exists(f"{R}/checks/{i}.py") else ""
    w = WHY.get(i, {})
    out.append(f"### {i} {p['title']}\n")
    out.append(doc.split("\n", 1)[1].strip() + "\n")
    if c:
        out.append(f"*Deciding method*: {c['technique']} (level: {c['level']}). {c.get('level_note','')}\n")
    if "why" in w: out.append(f"*Why tests cannot settle it*: {w['why']}\n")
    if "not" in w: out.append(f"*Corrected or not claimed*: {w['not']}\n")
out.append("## Genuine defects\n")
out.append("Repaired (one `fix:` commit each in /repo; the checks report them again if they return):\n")
for f in kf["fixed"]: out.append("* " + f[len("fixed: property="):])
out.append("\nRecorded (the check prints a KNOWN-FINDING line, only for the listed key):\n")
for k in kf["known"]: out.append(f"* {k['property']} `{k['key']}`: {k['what']}")
out.append("\n## Planted bugs\n")
out.append("`tools/mkseed.py` writes one, `tools/seedcheck.sh` confirms build, tests and demonstration, `tools/catch.sh` runs the check.\n")
out.append("| id | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    m = json.load(open(d)); n = d.split("/")[-2]
    out.append(f"| {n} | {m['property']} | {m['needs'].strip()} | {WHY.get('caught',{}).get(n, m['property']+' quick')} |")
out.append("\n" + TAIL)
open(f"{R}/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
