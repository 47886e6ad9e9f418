#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t="| bug | property | change | needs |\n|---|---|---|---|\n"
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    t+=f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n"
d=open(V+'/DESIGN.md').read()
d=re.sub(r'<!-- seeded -->.*<!-- /seeded -->',lambda _:'<!-- seeded -->\n'+t.strip()+'\n<!-- /seeded -->',d,flags=re.S)
open(V+'/DESIGN.md','w').write(d)
