#!/usr/bin/env python3
"""Writes DESIGN.md from its parts, specs.py, properties.jsonl, KNOWN_FINDINGS.jsonl and the catch results."""
import json, os, re, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, V)
import specs
from design_notes import NOTES
props = sorted((json.loads(l) for l in open(V + "/properties.jsonl")), key=lambda p: p["id"])
o = open(T + "/design_head.md").read()
o += "\n## 2. The properties\n\nEntries are functions of the harness; `p0`, `p1`... are their parameters (quick / thorough values in brackets). Costs are of the quick tier on 8 cores.\n"
KM = getattr(specs, "KM", "")
for p in props:
    i = p["id"]; js = [j for j in specs.JOBS if j["prop"] == i]
    o += "\n### %s %s\n\n%s\n\n" % (i, p["title"], NOTES[i].strip())
    seen = {}
    for j in js:
        b = j["bounds"].replace(KM, "") if KM else j["bounds"]
        q = " ".join(str(x).replace(" ", "") for x in j["quick"]) if j["quick"] != [[]] else ""
        t = " ".join(str(x).replace(" ", "") for x in j["thorough"]) if j["thorough"] not in ([[]], j["quick"]) else ""
        par = " %s%s" % (q, " / " + t if t else "") if q else ""
        seen.setdefault((j["h"], b), []).append("`%s`%s" % (j["entry"], par))
    for (h, b), es in seen.items():
        o += "* `harness/%s`: %s: %s\n" % (h, ", ".join(es), b)
fixed, known = [], []
for l in open(V + "/KNOWN_FINDINGS.jsonl"):
    l = l.strip()
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixed.append("* %s `%s` %s" % m.groups())
    elif l.startswith("{"):
        d = json.loads(l); known.append("* %s `%s`: %s" % (d["property"], d["entry"].replace("\\", ""), d["what"]))
cm = {}
f = T + "/catch.json"
if os.path.exists(f): cm = json.load(open(f))
rows = ["| planted bug | property | needs | caught by |", "| --- | --- | --- | --- |"]
for i in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(cm.get(i, [])) or "-"))
o += open(T + "/design_tail.md").read() % {"fixed": "\n".join(sorted(fixed)), "known": "\n".join(known), "matrix": "\n".join(rows)}
open(V + "/DESIGN.md", "w").write(o)
