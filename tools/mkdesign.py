#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NEW={'c07-empty-cvt':'shapes with empty tables','c08-tail':'files with bytes behind the last table','c27-lang-tag':'language tags of odd length','c28-marks':'more patterns of widths'}
rows=['| bug | caught by | what it breaks | what it needs |','|---|---|---|---|']
for f in sorted(glob.glob(R+'/seeded/*/meta.json')):
    d=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    rows.append('| %s%s | %s | %s | %s |'%(i,' *' if i in NEW else '',d['property'],d['what_it_breaks'].replace('|','/'),d['needs'].replace('|','/')))
rows+=['']+['* %s: added %s.'%x for x in sorted(NEW.items())]
p=R+'/DESIGN.md'; t=open(p).read()
t=re.sub(r'(Those marked \* were missed.*?\n\n)(.*?)(\n## Random)',lambda m:m[1]+'\n'.join(rows)+'\n'+m[3],t,flags=re.S)
open(p,'w').write(t)
