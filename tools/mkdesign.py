"""Rewrites the seeded-bug table of DESIGN.md from seeded/*/meta.json and a runseeds log.
usage: mkdesign.py RUNSEEDS_LOG"""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in open(sys.argv[1]):
    m = re.match(r"(c\d\d-\S+)\s+(C\d\d) exit (\d)\s+([\d.]+)s\s*(NO-INPUT)?\s*(.*?)\s*<-- own", line)
    if m:
        res[m[1]] = (m[3], m[6], m[5])
rows = ["| change | property | needs | outcome of its own check |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    n = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = res.get(n)
    out = "not run" if r is None else ("missed" if r[0] == "0" else
                                       ("refuted obligation, no input: " if r[2] else "") + r[1][:80].replace("|", "/"))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {out} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
