#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os
p='/verif/DESIGN.md'; s=open(p).read(); m='\n<!-- table -->\n'
s=s.split(m)[0].rstrip('\n')+'\n'
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); n=' '.join(d['needs'].split()).replace('|','/')
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {n} |")
open(p,'w').write(s+m+"\n| bug | property, caught by its check | needs |\n|---|---|---|\n"+'\n'.join(rows)+'\n')
