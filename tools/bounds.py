#!/usr/bin/env python3
"""Writes BOUNDS.md: the families of every property and the number of cases in both tiers."""
import os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]


def fams(pid, tier):
    o = subprocess.run(["python3", os.path.join(V, "check.py"), pid, "--tier", tier, "--list"], stdout=subprocess.PIPE, text=True, check=True).stdout
    return [(l[:l.rindex(" ")].strip(), int(l[l.rindex(" "):])) for l in o.splitlines() if l.strip()]


out = ["# Families of cases", "", "Generated by `tools/bounds.py` from the drivers (`check.py Cxx --list`).  Every case of a family is executed; a case is an input or",
       "a history and usually holds many comparisons.  `-` : the family (in this form) is not part of that tier.", ""]
tot = {"quick": 0, "thorough": 0}
for q in props:
    a, b = fams(q["id"], "quick"), fams(q["id"], "thorough")
    da, db = dict(a), dict(b)
    names = [n for n, _ in a] + [n for n, _ in b if n not in da]
    for d, t in ((da, "quick"), (db, "thorough")):
        tot[t] += sum(d.values())
    out += ["## %s %s" % (q["id"], q["title"]), "", "| family | quick | thorough |", "|---|---:|---:|"]
    out += ["| %s | %s | %s |" % (n, da.get(n, "-"), db.get(n, "-")) for n in names]
    out += ["| **all** | %d | %d |" % (sum(da.values()), sum(db.values())), ""]
out.insert(4, "All properties together: %d cases in the quick tier, %d in the thorough one.\n" % (tot["quick"], tot["thorough"]))
open(os.path.join(V, "BOUNDS.md"), "w").write("\n".join(out))
