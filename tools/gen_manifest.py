#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the list of claimed properties below and ../properties.jsonl."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
CLAIMED=json.load(open(os.path.join(here,'claimed.json')))
NA=json.load(open(os.path.join(here,'not_applicable.json')))
props=[json.loads(l) for l in open(os.path.join(here,'..','properties.jsonl'))]
m=dict(version=1,setup_cmd='./check.sh setup',checks=[],not_applicable=[],
 notes='All checks run one analyser (gsa/, Go, golang.org/x/tools/go/ssa) over the type-checked SSA form of /repo; nothing of geminio is executed and no solver is used.')
for p in props:
    i=p['id']
    if i in CLAIMED:
        c=CLAIMED[i]
        m['checks'].append(dict(property=i,quick_cmd='./check.sh '+i,thorough_cmd='./check.sh %s thorough'%i,technique=c['technique'],level='other',level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,'not decided yet: the analysis for this property is being built')))
json.dump(m,open(os.path.join(here,'..','MANIFEST.json'),'w'),indent=1)
