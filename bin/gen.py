#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/*.txt (one file per property)"""
import os,glob,json,re,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def parse(f):
    d={}; k=None
    for l in open(f):
        m=re.match(r'(title|statement|over|text|why|files|mech|note|na|design): ?(.*)',l)
        if m: k=m.group(1); d.setdefault(k,[]).append(m.group(2).strip())
        elif l.strip(): d[k][-1]+=' '+l.strip()
    return d
props=[];checks=[];na=[];des=[]
for f in sorted(glob.glob(V+'/props/*.txt')):
    i=os.path.basename(f)[:-4]; d=parse(f)
    t=d['title'][0]; assert len(t)<=80,(i,len(t))
    props.append({'id':i,'title':t,'statement':d['statement'][0],'quantifier':{'over':d['over'][0].split(),'text':d['text'][0]},'why_tests_cant':d['why'][0],
      'anchors':{'files':d['files'][0].split(),'mechanism':[{'name':x.split('@')[0].strip(),'where':x.split('@')[1].strip()} for x in d['mech']]}})
    for x in d['files'][0].split(): assert os.path.exists('/repo/'+x),(i,x)
    hb=[(os.path.basename(h),[l[9:].strip() for l in open(h) if l.startswith('//BOUNDS ')],[l[9:].strip() for l in open(h) if l.startswith('//ASSUME ')]) for h in sorted(glob.glob(f'{V}/harness/{i}*.cpp'))]
    des.append(f'### {i} {t}\n\n'+d.get('design',[''])[0]+'\n\n'+''.join(f'* `harness/{n}`: bounds: {"; ".join(b)}.'+(' Assumes: '+' '.join(a) if a else '')+'\n' for n,b,a in hb)+(f'* not applicable: {d["na"][0]}\n' if 'na' in d else ''))
    if 'na' in d: na.append({'property':i,'reason':d['na'][0]}); continue
    hs=glob.glob(f'{V}/harness/{i}*.cpp')
    if not hs: na.append({'property':i,'reason':'no check built yet'}); continue
    b=[l[9:].strip() for h in sorted(hs) for l in open(h) if l.startswith('//BOUNDS ')]; a=[l[9:].strip() for h in sorted(hs) for l in open(h) if l.startswith('//ASSUME ')]
    checks.append({'property':i,'quick_cmd':f'python3 bin/check {i} --tier quick','thorough_cmd':f'python3 bin/check {i} --tier thorough','evidence_file':f'evidence/{i}.json',
      'technique':'symbolic execution of the LLVM IR of the current sources, assertions decided by z3','level':'other',
      'level_note':'Every path within the bounds is explored and every assertion decided by the solver over all input values of the path ('+'; '.join(b)+'). '+(' '.join(x.rstrip('.')+'.' for x in a)+' ' if a else '')+'Floating point is treated as exact real arithmetic with the stated tolerances; libm, FFTW, LAPACK and allocation are modelled by their contracts. '+(d['note'][0] if 'note' in d else '')})
with open(V+'/properties.jsonl','w') as o:
    for p in props: o.write(json.dumps(p)+'\n')
json.dump({'version':1,'setup_cmd':'python3 bin/setup','hooks':{'guard':'QDNG_VERIF','enable':'no hooks are needed: the checks compile the sources as they are','source_commits':[]},'checks':checks,'not_applicable':na,
  'notes':'bin/gen.py writes this file and properties.jsonl from props/ and harness/; see DESIGN.md'},open(V+'/MANIFEST.json','w'),indent=1)
D=V+'/DESIGN.md'; T=open(D).read(); a,b='<!-- generated from props/ by bin/gen.py -->\n','<!-- end -->'
open(D,'w').write(T[:T.index(a)+len(a)]+'\n'.join(des)+T[T.index(b):])
print(len(props),'properties',len(checks),'checks',len(na),'not applicable')
