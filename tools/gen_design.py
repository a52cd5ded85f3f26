#!/usr/bin/env python3
"""Writes the tables of /verif/DESIGN.md (between the markers) from properties, checks and planted bugs."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
d = open(os.path.join(ROOT, "DESIGN.md")).read()
def put(mark, text):
    global d
    d = re.sub(rf"(<!-- {mark} -->\n).*?(<!-- end -->)", lambda m: m[1] + text + m[2], d, flags=re.S)
t = ""
for p in props:
    c = CHECKS[p["id"]]
    t += f"### {p['id']} {p['title']}\n\n"
    t += f"* Harness entries: {', '.join(c['quick'])}" + (f"; thorough also {', '.join(c['thorough'])}" if c.get("thorough") else "") + ".\n"
    t += f"* Within: {c['bounds']}.\n* Outside: {c.get('outside') or 'nothing else'}.\n\n"
put("checks", t)
f = os.path.join(ROOT, "tools/seed/results.json")
res = json.load(open(f)) if os.path.exists(f) else {}
t = "| planted bug | property | what it needs | caught |\n|---|---|---|---|\n"
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    t += f"| {s} | {m['property']} | {m['needs']} | {res.get(s, 'not run yet')} |\n"
put("seeds", t)
t = ""
for l in open(os.path.join(ROOT, "known_findings.jsonl")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        t += f"* {m[1]} ({m[2]}): {m[3]}.\n"
put("fixes", t)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
