#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (python3 tools/props.py)."""
import json, os
S='crates/multicalc/src/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":[f if f.startswith('crates/') else S+f for f in files],
       "mechanism":[{"name":n,"where":(w if w.startswith('crates/') else S+w)} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'props_table.py')).read())
EXTRA={
'C02':'jets of up to 16 parameters, lanes on and next to zero, operands in any units','C03':'functions of up to six variables and seven outputs, metrics in tiny units','C06':'tables and argument scales over many decades',
'C07':'matrices in any units','C08':'matrices in any units','C09':'problems in any units','C10':'degree up to twelve, four variables, rescaled arguments','C11':'coefficients with arguments rescaled, close pairs and wide spreads',
'C12':'every budget and any units of argument and value','C13':'larger sizes and any units','C14':'any units of time and state, the far edge of the span','C15':'any units of signal and time','C16':'any units of time and signal, every sharpness',
'C17':'any units of time, error and output','C18':'filters that have drifted through many samples','C19':'any units of mass, length and time','C20':'settings given in any order','C21':'targets with weights, started at the target; every step cap, least step, damping and threshold',
'C22':'geometry in any unit of length','C24':'states and readings each in a unit of their own, starts and parts of starts known exactly, models without a slope','C25':'every kind of refused step, starts known exactly','C26':'any units of push, field and time, references almost along up','C27':'default settings, headings around the turn, weights sixty natural logarithms apart',
'C28':'any unit of length','C29':'any unit of length','C30':'any unit of length and time','C31':'tiny scales','C32':'tiny parameters','C33':'tiny scales','C34':'classes handed down through bodies that name none, settings stated together at different levels','C36':'numbers of every decade'}
for p in P:
    if p['id'] in EXTRA: p['quantifier']['text']+='; '+EXTRA[p['id']]
for p in P:
    assert len(p['title'])<=80,p['id']
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in sorted(P,key=lambda p:p['id']): f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
