#!/usr/bin/env python3
# writes ../properties.jsonl from the table below
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files))
    if mech: d['anchors']['mechanisms']=[dict(name=n,where=w) for n,w in mech]
    P.append(d)
S='source/'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'props_table.py')).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
