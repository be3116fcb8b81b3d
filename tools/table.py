#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers)."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by={}
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    by.setdefault(m['property'],[]).append(d)
t='| check | planted bugs it catches (quick tier) |\n|---|---|\n'
for p in sorted(by): t+=f'| {p} | {", ".join(by[p])} |\n'
s=open(root+'/DESIGN.md').read()
s=re.sub(r'<!-- table -->.*<!-- /table -->',lambda _:'<!-- table -->\n'+t+'<!-- /table -->',s,flags=re.S)
open(root+'/DESIGN.md','w').write(s)
