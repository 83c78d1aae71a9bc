#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 8) from seeded/*/meta.json."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(f)),m['property'],m['what_it_breaks'].replace('|','/').rstrip('.')))
t=open(root+'/DESIGN.md').read()
head='| planted bug | caught by | what it breaks |\n|---|---|---|\n'
i=t.index(head)+len(head); j=t.index('\n\n',i)
open(root+'/DESIGN.md','w').write(t[:i]+'\n'.join(rows)+t[j:])
print(len(rows))
