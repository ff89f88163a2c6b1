"""Writes the table of planted changes at the end of DESIGN.md. Argument: file with the output lines of seedrun.py."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+(C\d+) rc=(\d) (\w+)", l)
        if m:
            res[m[1]] = m[4]
by = {}
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    by.setdefault(m["property"], []).append(i + ("" if res.get(i) == "CAUGHT" else " (missed)" if res.get(i) == "missed" else " (?)"))
out = ["| check | planted changes its quick tier reports |", "|---|---|"]
for p in sorted(by):
    out.append(f"| {p} | {', '.join(by[p])} |")
d = open(root + "/DESIGN.md").read()
a = d.index("<!-- table -->") + len("<!-- table -->")
open(root + "/DESIGN.md", "w").write(d[:a] + "\n" + "\n".join(out) + "\n")
