#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks (`mc list`)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
have = [x for x in subprocess.check_output([f"{V}/mc/target/release/mc", "list"], text=True).split() if x != "PX"]
GEN = ("exhaustive bounded exploration of a reference grammar, each model trace replayed on the real parser",
       "Every program the reference grammar can produce within the stated number of deviations and nesting depth is parsed by the real code and its complete tree compared; assumes the reference grammar states Ruby's rules correctly.")
ENUM = ("exhaustive bounded enumeration of inputs run on the real parser and judged by an independent reference model",
        "Every input within the stated bounds is run on the real code; assumes the reference model states Ruby's rules correctly.")
INV = ("exhaustive bounded enumeration of token sequences run on the real parser with invariants checked on each result",
       "Every sequence within the stated length over the stated lexeme alphabet is run on the real code and every part of the result checked.")
OPS = ("explicit-state exploration of operation sequences on the real code against a reference model",
       "Every operation sequence within the stated depth is run on the real code in lockstep with the model.")
T = {"P01": INV, "P02": INV, "P04": INV, "P14": INV, "P25": OPS, "P06": OPS}
for p in ("P05", "P07", "P08", "P09", "P10", "P11", "P15", "P16", "P17", "P24", "P27", "P28", "P29", "P30"):
    T[p] = ENUM
checks = []
for p in props:
    i = p["id"]
    if i in have:
        t, n = T.get(i, GEN)
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", technique="model checking: " + t, level="model_checking", level_note=n))
na = [dict(property=p["id"], reason="not built yet") for p in props if p["id"] not in have]
json.dump(dict(version=1, setup_cmd="./check.sh --build", checks=checks, not_applicable=na), open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
