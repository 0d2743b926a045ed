#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, design_tail.md and the planted bugs' records."""
import json, os, glob
d='/verif/tools/'
rows=["| planted bug | property | needs |","|---|---|---|"]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    j=json.load(open(m)); rows.append("| %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),j['property'],j['needs'].replace('|','/').replace('\n',' ')))
open('/verif/DESIGN.md','w').write(open(d+'design_head.md').read()+open(d+'design_tail.md').read().replace('@@SEEDED@@','\n'.join(rows)))
