#!/usr/bin/env python3
"""Writes mc/src/props/borrow.txt: the families other properties can borrow, with their number of
inputs, from the evidence of quick runs of the build without onig (evidence directory as argument).
Families of the reference grammar (P03, P13 and parts of others) are left out: every borrower has
them already. So are families that exercise other interfaces than the parser."""
import json, sys, re
d = sys.argv[1]
ids = "05 06 07 08 09 12 15 16 17 18 19 20 21 22 23 24 26 27 28 29".split()
out, seen = [], set()
for i in ids:
    e = json.load(open(f"{d}/P{i}.json"))
    assert e["tier"] == "quick", i
    fams = e["coverage"].get("families") or e["coverage"]["bounds"]["families"]
    for f in fams:
        n = f["family"]
        if re.search(r"/(depth\d|flat)$|^inputs of|^P\d\d: |one bracket or end too few|in the lookup|of two parts in every|what is accepted leaves|^after every", n):
            continue
        assert f["complete"], (i, n)
        if n in seen or f["inputs"] > 2_000_000:
            continue
        seen.add(n)
        out.append(f"P{i}\t{f['inputs']}\t{n}\n")
open("/verif/mc/src/props/borrow.txt", "w").writelines(out)
