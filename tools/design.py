#!/usr/bin/env python3
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R+'/tools')
from design_notes import HEAD,N,CAUGHT
out=[HEAD,"\n## The properties\n"]
for l in open(R+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    o,r,j=N.get(i,("","",""))
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Oracle.* {o}\n\n*Enumerated.* {r} In full: {p['quantifier']['text'] if isinstance(p['quantifier'],dict) and 'text' in p['quantifier'] else json.dumps(p['quantifier'])}.\n")
    out.append(f"*Why tests cannot.* {p['why_tests_cant']}\n")
    if j: out.append(f"*Judgements.* {j}\n")
    try:
        c=json.load(open(f'{R}/evidence/{i}.json'))['coverage']; s=c['spaces']
        big=sorted(s,key=lambda x:-x['states'])[:8]
        out.append(f"*Size (quick).* {c['states']:,} states, {c['transitions']:,} calls in {len(s)} spaces; largest: "+", ".join(f"{x['name']} {x['states']:,}" for x in big)+".\n")
    except Exception: pass
out.append(open(R+'/tools/design_tail.md').read())
open(R+'/DESIGN.md','w').write("\n".join(out))
import glob
rows=["| change | property | what it breaks | what it needs to show | caught by |","|---|---|---|---|---|"]
for m in sorted(glob.glob(R+'/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append("| `%s` | %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),d['property'],d['what_it_breaks'].replace('|','/').replace('\n',' '),d['needs'].replace('|','/').replace('\n',' '),CAUGHT.get(os.path.basename(os.path.dirname(m)),d['property'])))
t=open(R+'/DESIGN.md').read().replace('SEEDTABLE',"\n".join(rows)); open(R+'/DESIGN.md','w').write(t)
