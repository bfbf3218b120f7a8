import sys,time; sys.path.insert(0,'/verif/vx')
from ir import *; from engine import *
F=Facts('/verif/.build/facts')
def go(p,**k):
    t=time.time(); e=Eval(F,**k); r=e.run(p)
    print('==',p,'steps',e.steps,'%.2fs'%(time.time()-t), 'events',len(r.events))
    if r.ret is not None:
        for x,f in alts(e,r.ret): print('  RET',fmt(x)[:400]); print('      facts',[(fmt(k)[:100],v) for k,v in f.items()][:10])
    return e,r
if __name__=='__main__':
    for p in sys.argv[1:]: go(p)
