"""Refreshes the lists of repairs and planted changes in DESIGN.md from
known-findings.json and seeded/."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
fixed = "\n".join(
    "* " + f.removeprefix("fixed: property=")
    for f in json.load(open(V + "/known-findings.json"))["fixed"])
s, n = re.subn(r"(?m)(?:^\* C\d\d [0-9a-f]{7} .*\n)+", fixed + "\n", s,
               count=1)
assert n
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(f)), m["property"], m["needs"],
        "caught"))
s, n = re.subn(r"(?m)(?:^\| C\d\d-.*\n)+", "\n".join(rows) + "\n", s,
               count=1)
assert n
open(p, "w").write(s)
