#!/usr/bin/env python3
"""Rewrites everything below '## Units' in DESIGN.md from units/*/prop.json, unit.py, NOTES.md, the templates, known_findings.json, seeded/."""
import json, glob, os, re
V='/verif'
out=[]
def info(u):
    g={}
    exec(compile(open(f'{u}/unit.py').read(),u,'exec'),g)
    return g
class C:
    def __init__(s): s.v=[]; s.r=[]; s.k=[]
    def verus(s,f,**k): s.v.append(f)
    def replay(s,f,**k): s.r.append(f)
    def __getattr__(s,n):
        def f(*a,**k): s.k.append((n,a[0] if a else ''))
        return f
kf=json.load(open(f'{V}/known_findings.json'))
seeds={}
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d=json.load(open(m)); seeds.setdefault(d['property'],[]).append((os.path.basename(os.path.dirname(m)),d))
for p in sorted(glob.glob(f'{V}/units/*/prop.json')):
    u=os.path.dirname(p); d=json.load(open(p)); g=info(u); c=C()
    try: g['plan'](c)
    except Exception as e: print(u,e)
    out.append(f"### {d['id']}: {d['title']}\n\n{d['statement']}\n")
    n=0
    for f in c.v:
        t=open(f'{u}/{f}').read()
        def inc(m):
            q=f'{u}/'+m.group(1).strip()
            return open(q).read() if os.path.exists(q) else ''
        for _ in range(4): t=re.sub(r'^//@include (.*)$',inc,t,flags=re.M)
        fns=[]
        for m in re.finditer(r'^//@extract (\S+) (.+)$',t,flags=re.M):
            w=m.group(2).strip()
            if re.match(r'(struct|enum|const|type|static) ',w): continue
            if w.startswith('impl'):
                seg=t[m.end():t.find('@end',m.end())]
                ns=re.findall(r'^@fn (\w+)',seg,flags=re.M)
                w=w+(' {'+', '.join(ns)+'}' if ns else '')
            fns.append(re.sub(r"^fn ","",w))
        out.append(f"- Proved (Verus, `{f}`): "+(', '.join(f'`{x}`' for x in fns) if fns else 'lemmas over the format')+'.')
    for k,f in c.k: out.append(f'- {k}: `{f}`.')
    for f in c.r: out.append(f'- Replayed: `{f}` (the same functions, real text, compiled and run; failing inputs come from here).')
    I=g['INFO']
    if I.get('assumptions'): out.append('- Assumed, not checked: '+'; '.join(I['assumptions'])+'.')
    if os.path.exists(f'{u}/NOTES.md'): out.append('- '+open(f'{u}/NOTES.md').read().strip().replace('\n','\n- '))
    fx=[x for k in kf for x in (kf[k] if isinstance(kf[k],list) else []) if f"property={d['id']} " in str(x) or (isinstance(x,dict) and x.get('property')==d['id'])]
    for x in fx: out.append('- '+(x if isinstance(x,str) else 'open finding: '+json.dumps(x)))
    for s,m in seeds.get(d['id'],[]): out.append(f"- Planted bug `{s}` ({m['what_it_breaks']}): {m.get('caught','caught')}.")
    out.append('')
na=json.load(open(f'{V}/lib/na.json'))
if na:
    out.append('## Not applicable\n')
    for d in na: out.append(f"- **{d['id']}: {d['title']}.** {d['statement']} *Why not:* {d['reason']}")
    out.append('')
if os.path.exists(f'{V}/lib/TAIL.md'): out.append(open(f'{V}/lib/TAIL.md').read())
s=open(f'{V}/DESIGN.md').read(); i=s.index('## Units')
open(f'{V}/DESIGN.md','w').write(s[:i]+'## Units\n\n(generated by tools/design.py)\n\n'+'\n'.join(out)+'\n')
