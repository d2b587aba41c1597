#!/usr/bin/env python3
"""Writes the table of section 6 of DESIGN.md from the evidence of the last run
(all checks, quick tier) and from seeded/."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for s in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, s)))
    by.setdefault(m["property"], []).append(s)
rows = ["| check | cases (quick) | distinct, non-trivial | planted bugs |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob(root + "/evidence/*.json")):
    e = json.load(open(f)); c = e["coverage"]
    rows.append("| %s | %d | %d | %s |" % (e["property"], c["evaluations"], c["distinct_nontrivial"], ", ".join(by.get(e["property"], []))))
p = root + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"(<!-- table -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), t, flags=re.S)
open(p, "w").write(t)
