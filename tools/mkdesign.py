#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.in, tools/design_props.txt, tools/design_alarms.txt,
tools/design_seeds.txt, known_findings.txt and seeded/."""
import os, json, glob
r = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(r, f)).read()
props = [json.loads(l) for l in open(os.path.join(r, "properties.jsonl"))]
notes = {}
for l in rd("tools/design_props.txt").split("\n"):
    if l[:1] == "C" and l[3:4] == ":":
        cur = l[:3]; notes[cur] = l[4:].strip()
    elif l.strip():
        notes[cur] += " " + l.strip()
man = json.load(open(os.path.join(r, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
o = ""
for p in props:
    o += "**%s %s.** %s%s\n\n" % (p["id"], p["title"], notes.get(p["id"], ""), (" *Not claimed: %s.*" % na[p["id"]]) if p["id"] in na else "")
f = "".join("* %s\n" % l[7:].strip() for l in rd("known_findings.txt").split("\n") if l.startswith("fixed:"))
k = [l for l in rd("known_findings.txt").split("\n") if l.startswith("known:")]
if k:
    f += "\nRecorded, not repaired (known findings):\n\n" + "".join("* %s\n" % l[6:].strip() for l in k)
caught = dict(l.split(None, 1) for l in rd("tools/design_seeds.txt").split("\n") if l.strip())
s = "| bug | property | needs | outcome |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(r, "seeded/*/meta.json"))):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    s += "| %s | %s | %s | %s |\n" % (n, d["property"], d["needs"], caught.get(n, "not measured"))
t = rd("tools/design.in").replace("@PROPS@", o).replace("@FINDINGS@", f).replace("@ALARMS@", rd("tools/design_alarms.txt")).replace("@SEEDS@", s)
open(os.path.join(r, "DESIGN.md"), "w").write(t)
