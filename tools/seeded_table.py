#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(f'{root}/tools/caught.json'))
print('| bug | needs | caught by |\n|---|---|---|')
for d in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    print(f"| {i} | {m['needs']} | {c.get(i,'?')} |")
