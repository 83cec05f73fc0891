#!/usr/bin/env python3
"""mkdesign.py: DESIGN.md from design.tmpl.md, known_findings.json, seeded/*/meta.json and seeds_caught.json"""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(V+'/tools/design.tmpl.md').read().rstrip()+'\n\n'
k=json.load(open(V+'/known_findings.json'))
t+='## 6 Repairs of TRIQS and known findings\n\nGenuine defects the checks (or reading for them) found, each shown on the real code first. `known_findings.json` has the record of each.\n\nKnown, not repaired:\n\n'
for f in k['findings']:
    if f.get('status')=='known': t+='* %s (%s): %s\n'%(f['property'],f['id'],f['what'])
t+='\nRepaired (one `fix:` commit each):\n\n'
import re
by={}
for f in k['fixed']:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',f if isinstance(f,str) else f.get('line','') or '')
    if m: by.setdefault(m.group(1),[]).append((m.group(2)[:9],m.group(3)))
for p in sorted(by):
    t+='* **%s** (%d): '%(p,len(by[p]))+'; '.join('%s (%s)'%(w.split('\n')[0][:170],h) for h,w in by[p])+'\n'
c={}
p=V+'/tools/seeds_caught.json'
if os.path.exists(p): c=json.load(open(p))
t+='\n## 7 Planted changes and what catches them\n\nWritten from the text of the property and the code; each compiles, passes the stable tests, and has a demonstration. "caught by" is the result of running the check of the property on the change.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); n=os.path.basename(d)
    t+='| %s | %s | %s | %s |\n'%(n,m['property'],m['needs'],c.get(n,''))
for s in ('mutation.md',):
    q=V+'/tools/'+s
    if os.path.exists(q): t+='\n'+open(q).read()
open(V+'/DESIGN.md','w').write(t)
