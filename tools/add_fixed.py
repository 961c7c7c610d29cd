#!/usr/bin/env python3
"""add_fixed.py PROPERTY COMMIT TEXT: record a repaired defect in known_findings.jsonl."""
import json, sys
p, c, w = sys.argv[1:4]
with open('/verif/known_findings.jsonl', 'a') as f:
    f.write(json.dumps(dict(status="fixed", property=p, commit=c, what=f"fixed: property={p} {c} {w}"), ensure_ascii=False) + "\n")
