#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from known_findings.json, seeds.py and tools/catch.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS
K = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
cf = os.path.join(HERE, "tools", "catch.json")
C = json.load(open(cf)) if os.path.exists(cf) else {}
fixes = "\n".join("| %s | %s | %s |" % (f["commit"], f["property"], f["what"].split(f["commit"], 1)[1].strip())
                  for f in K if f["status"] == "fixed")
seeds = "\n".join("| %s | %s | %s |" % (s["id"], s["needs"], C.get(s["id"], "")) for s in SEEDS
                  if os.path.isdir(os.path.join(HERE, "seeded", s["id"])))
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()


def put(tag, body):
    global t
    b, e = "<!--%s-->" % tag, "<!--/%s-->" % tag
    if "@@%s@@" % tag in t:
        t = t.replace("@@%s@@" % tag, b + "\n" + e)
    i, j = t.index(b) + len(b), t.index(e)
    t = t[:i] + "\n" + body + "\n" + t[j:]


# a comment line inside a table would end it: tables are emitted whole
put("FIXES", "| commit | property | what failed |\n|---|---|---|\n" + fixes)
put("SEEDS", "| planted bug | needs | quick check |\n|---|---|---|\n" + seeds)
open(p, "w").write(t)
