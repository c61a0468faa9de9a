#!/usr/bin/env python3
"""tools/design.py: fill the table of planted bugs in DESIGN.md and write BOUNDS.md from the evidence files"""
import json,os,glob,re,sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev={}
for f in sorted(glob.glob(ROOT+'/evidence/C*.json')):
    d=json.load(open(f)); ev[d['property']]=d
out=['# Bounds of every section, as run','','Generated from the evidence files (tier in brackets) by tools/design.py.','']
for p,d in sorted(ev.items()):
    c=d['coverage']
    out.append(f"## {p} [{d['tier']}]\n\n{c.get('rule','')}\n")
    secs={}
    for s in c.get('sections',[]):
        k=re.sub(r'-\d+$','',s['name'])
        secs.setdefault(k,[]).append(s)
    for k,ss in secs.items():
        s=ss[-1]
        out.append(f"* **{k}** ({sum(x['executions'] for x in ss)} executions{'' if all(x['exhaustive'] for x in ss) else ', NOT finished'}): {s.get('bound','')}")
    for a in d.get('assumptions',[]): out.append(f"* assumed: {a}")
    out.append('')
open(ROOT+'/BOUNDS.md','w').write('\n'.join(out))
