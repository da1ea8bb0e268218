import sys
exec(open('/tmp/t2.py').read().split("names=")[0])
import vf.verify as VV
from vf import solve as SV
n,frag=sys.argv[1],sys.argv[2]
orig=VV.solve_obl
def so(ex,o,timeout,extra=()):
    if frag in o.name:
        conds=list(o.hyps)+[VV.Not(o.goal)]
        conds+=VV.basehyps(ex,conds)
        i=len([1 for q in dumped])
        dumped.append(o.name)
        open('/tmp/q%d.smt2'%i,'w').write(SV.smt2(conds))
        open('/tmp/q%d.txt'%i,'w').write(o.name+'\n'+'\n'.join(VV.show(c,12) for c in conds))
    o.result='unsat'; return o
dumped=[]
VV.solve_obl=so
print(verify_function(m,REG[n],statics=S).error, dumped)
