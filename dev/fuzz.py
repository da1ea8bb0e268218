import sys,time,os
sys.path.insert(0,'/verif')
from vf import ir, build, replay
from vf.spec import REG
import contracts.mathc, contracts.chain
w=build.workdir()
try:
    m=build.module(w)
    wasm=build.emit_wasm(w,[n for n in build.exported(m)]+[])
    names=sys.argv[1:] or [k for k,c in REG.items() if c.module!='caller' and not c.variant]
    for n in names:
        t=time.time()
        R=replay.Runner(wasm)
        f=replay.search(R,[REG[n]],[],1,1,300)
        print(n,'ran',R.ran,'skipped',R.skipped,'%.1fs'%(time.time()-t),[x[0] for x in f[:2]],flush=True)
finally: build.cleanup(w)
