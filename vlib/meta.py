"""Regenerates properties.jsonl, MANIFEST.json and the generated part of DESIGN.md."""
import json, os, sys, glob, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'vlib'))
import driver
from props import PROPS, NA
na=dict(NA)
def hasunits(i): return bool([f for f in glob.glob(f'{V}/harness/{i}/*') if os.path.isfile(f) and not os.path.basename(f).startswith('_') and f.endswith(('.sml','.c'))])
rows=[p for p in PROPS if p['id'] in na or hasunits(p['id'])]
for p in rows: assert len(p['title'])<=80,p['title']
with open(f'{V}/properties.jsonl','w') as f:
    for p in rows: f.write(json.dumps(p)+'\n')
LEVEL='Exhaustive within the stated bounds: an SMT solver (z3) decides every branch and every assertion over symbolic inputs on the real C runtime (LLVM IR, clang) executing the real compiled bytecode; each counterexample is replayed natively. Trusted: clang, the executor and its simplifier (cross-checked against z3), the libc stubs, the harness oracle. Nothing is claimed beyond the bounds, listed in the evidence and DESIGN.md.'
checks=[]
for p in rows:
    if p['id'] in na: continue
    sc=any(f.endswith('.sml') for f in glob.glob(f'{V}/harness/{p["id"]}/*')); cb=[f for f in glob.glob(f'{V}/harness/{p["id"]}/*.c') if not os.path.basename(f).startswith('_')]
    tech=' and '.join((['symbolic execution of runtime LLVM IR and bytecode, z3'] if sc else [])+(['bounded model checking of the C sources with CBMC'] if cb else []))
    checks.append(dict(property=p['id'],quick_cmd=f'./check {p["id"]} --quick',thorough_cmd=f'./check {p["id"]} --thorough',technique=tech,level='model_checking',level_note=LEVEL))
json.dump(dict(version=1,setup_cmd='./check setup',checks=checks,not_applicable=[dict(property=i,reason=r) for i,r in NA],
  notes='See DESIGN.md. No hooks are needed in /repo.'),open(f'{V}/MANIFEST.json','w'),indent=1)
# DESIGN.md, generated part
out=[]
for p in rows:
    out.append(f"### {p['id']} {p['title']}\n")
    if p['id'] in na: out.append(f"Not applicable: {na[p['id']]}.\n"); continue
    for tier in ['quick','thorough']:
        pass
    for f in sorted(glob.glob(f'{V}/harness/{p["id"]}/*')):
        b=os.path.basename(f)
        if b.startswith('_') or not f.endswith(('.sml','.c')): continue
        s=open(f,encoding='latin1').read(); m=re.match(r'\s*(?:\(\*:|/\*:)(.*?)(?::\*\)|:\*/)',s,re.S)
        h=json.loads(m.group(1)) if m else {}
        bd=h.get('bounds','')
        if isinstance(bd,dict): bd=bd.get('quick','')
        q=h.get('params',{}).get('quick',{})
        bq=re.sub(r'@(\w+)@',lambda k:str(q.get(k.group(1),k.group(0))),bd)
        out.append(f"- `{b}`: {h.get('title','')}. Bounds (quick): {bq}." + (" Only in the thorough tier." if h.get('tier')=='thorough' else '') + (" Soft: a solver timeout is reported, not failed." if h.get('soft') else ''))
    out.append('')
D=f'{V}/DESIGN.md'
if os.path.exists(D):
    s=open(D).read(); a='<!-- generated by vlib/meta.py -->'; z='<!-- end generated -->'
    if a in s: s=s[:s.index(a)]+a+'\n\n'+'\n'.join(out)+'\n'+s[s.index(z):]; open(D,'w').write(s)
print(len(checks),'claimed',len(na),'n/a')
