#!/usr/bin/env python3
"""dev aid: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json,glob,os
p='/verif/DESIGN.md'; s=open(p).read()
h='| change | property | breaks |\n|---|---|---|\n'
i=s.index(h)
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} |\n")
open(p,'w').write(s[:i]+h+''.join(rows))
