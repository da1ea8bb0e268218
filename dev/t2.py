import sys,time,os,pickle
sys.path.insert(0,'/verif')
from collections import Counter
from vf import ir, build
from vf.spec import REG
from vf.verify import verify_function, Statics
import contracts.mathc, contracts.chain
w=build.workdir()
m=build.module(w); build.cleanup(w)
S=Statics(m)
names=sys.argv[1:] or [k for k,c in REG.items() if c.module!='caller']
if names[0][0]=='C': names=[k for k,c in REG.items() if names[0] in c.props and c.module!='caller']
for n in names:
    t=time.time()
    try:
        r=verify_function(m,REG[n],statics=S)
    except Exception as e:
        import traceback; 
        if len(names)<4: traceback.print_exc()
        print(n,'EXC',repr(e)[:200]); continue
    print(n, r.error or '', dict(Counter(o[2] for o in r.obls)), [f['obl'] for f in r.failed], r.undecided[:3], round(time.time()-t,2), r.meta.get('inlined') or '', flush=True)
