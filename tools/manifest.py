#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py (one entry per property)."""
import json,os,sys
sys.path.insert(0,os.path.dirname(__file__))
from table import PROPS,NOT_APPLICABLE,NOTES
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V+'/properties.jsonl','w') as f:
    for p in PROPS:
        assert len(p['title'])<=80,p['title']
        d={k:p[k] for k in('id','title','statement')}
        d['quantifier']={'over':p['over'],'text':p['qtext']}
        d['why_tests_cant']=p['why']
        d['anchors']={'files':p['files'],'mechanism':[{'name':a,'where':b} for a,b in p['mech']]}
        f.write(json.dumps(d)+'\n')
checks=[]
for p in PROPS:
    if p.get('na'): continue
    checks.append({'property':p['id'],'quick_cmd':'python3-vt kvc/check.py '+p['id'],'thorough_cmd':'VERIF_TIER=thorough python3-vt kvc/check.py '+p['id'],'evidence_file':'evidence/%s.json'%p['id'],
      'technique':'contract-based deductive verification of the LLVM IR extracted from /repo on every run (kvc verification conditions, z3/cvc5)','level':p.get('level','proof'),'level_note':p['note']})
m={'version':1,'setup_cmd':'true','hooks':{'guard':'none','enable':'no hooks are needed: the checks extract and compile the unmodified sources','source_commits':[]},'checks':checks,
   'not_applicable':[{'property':p['id'],'reason':p['na']} for p in PROPS if p.get('na')]+NOT_APPLICABLE,'notes':NOTES}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(PROPS),len(checks))
