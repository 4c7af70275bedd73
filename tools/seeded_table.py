#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | file | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda p: (json.load(open(p))["property"], p)):
    d = json.load(open(m))
    pt = open(os.path.dirname(m) + "/patch.diff").read()
    files = ", ".join(dict.fromkeys(f.replace("include/indexes/", "") for f in re.findall(r"^\+\+\+ b/(\S+)", pt, re.M)))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], files, d["needs"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- seeded table -->", "<!-- end of seeded table -->"
if "@SEEDED@" in s:
    s = s.replace("@SEEDED@", b + "\n" + e)
i, j = s.index(b), s.index(e)
open(p, "w").write(s[:i] + b + "\n" + "\n".join(rows) + "\n" + s[j:])
