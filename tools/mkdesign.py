#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (properties.jsonl, props.py, evidence of the last quick run,
planted bugs), tools/design_tail.md."""
import json, os, sys, glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from props import PROPS
T=json.load(open(V+'/tools/design_props.json'))
o=[open(V+'/tools/design_head.md').read()]
seeds={}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    j=json.load(open(m)); seeds.setdefault(j['property'],[]).append((os.path.basename(os.path.dirname(m)),j['needs']))
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']; q=PROPS[i]; t=T.get(i,{})
    o.append('\n### %s %s\n'%(i,p['title']))
    o.append('*Oracle.* %s\n'%t.get('oracle','see harness/%s.c'%i.lower()))
    o.append('*Explored.* %s.\n'%q['rule'])
    o.append('*Bounds.* quick: %s. thorough: %s.\n'%(q['bounds']['quick'],q['bounds']['thorough']))
    o.append('*Beyond the tests.* %s\n'%p['why_tests_cant'])
    if t.get('note'): o.append('*Limits.* %s\n'%t['note'])
    try:
        e=json.load(open(V+'/evidence/%s.json'%i)); c=e['coverage']
        if e['tier']=='quick' and not e.get('violations'): T.setdefault(i,{})['cost']='%.1e executions, %d states, %.1e transitions, about %d s quick'%(c['evaluations'],c['states'],c['transitions'],max(1,round(e['wall_s'])))
    except OSError: pass
    if T.get(i,{}).get('cost'): o.append('*Cost.* %s.\n'%T[i]['cost'])
    o.append('*Planted bugs caught.* %s\n'%'; '.join('%s (%s)'%s for s in seeds.get(i,[])) if seeds.get(i) else '')
o.append(open(V+'/tools/design_tail.md').read())
json.dump(T,open(V+'/tools/design_props.json','w'),indent=1)
open(V+'/DESIGN.md','w').write('\n'.join(x for x in o if x))
