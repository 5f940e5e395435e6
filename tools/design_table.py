#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json,os,re
t='| planted bug | caught by | needs |\n|---|---|---|\n'
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    t+=f"| {d} | {m['property']} | {m['needs']} |\n"
p='/verif/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- table -->.*<!-- /table -->',lambda _:'<!-- table -->\n'+t+'<!-- /table -->',s,flags=re.S)
open(p,'w').write(s)
