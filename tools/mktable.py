#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md from seeded/*/meta.json and tools/caught.txt
(lines "bug check ...", what hunt.sh has shown)."""
import json,glob,os
caught={l.split()[0]:l.split()[1:] for l in open('tools/caught.txt') if l.strip()}
rows=['| bug | property | what it breaks | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/')):
    b=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    rows.append('| %s | %s | %s | %s |'%(b,m['property'],m['what_it_breaks'],', '.join(caught.get(b,['—']))))
s=open('DESIGN.md').read()
a,z='<!-- table -->','<!-- end -->'
t=a+'\n'+'\n'.join(rows)+'\n'+z
s=s[:s.index(a)]+t+s[s.index(z)+len(z):]
open('DESIGN.md','w').write(s)
