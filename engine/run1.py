import sys, time, traceback
sys.path.insert(0,'/verif/engine')
from models2 import *
from load import Program
P=Program('/tmp/dump')
class Mon(Monitor):
    def __init__(s): s.log={}
    def on_assert(s, st, fr, kind, ops, cond, exp, loc):
        if kind.startswith('overflow'):
            return
        I=s.I
        c = LT(ops[1],ops[0]) if kind=='bounds' else (cond if exp else NOT(cond))
        if I.decide(st,c) is not True: s.log[('assert',kind,fr.body.p,loc)]=(c,)
    def on_panic(s, st, c, what, v):
        s.log[('panic',what,c.fr.body.p,c.loc)]=(v,)
def run(path, fuel=200000, verbose=False, args=None):
    mon=Mon()
    I=Interp(P,mon,Models(),{'fuel':fuel})
    b=P.bodies[path]
    st=State()
    t=time.time()
    a=[T('param',i+1) for i in range(b.argc)] if args is None else args
    err=''
    outs=[]
    try:
        outs=I.run(st,b,{},a,None,'root')
    except Stop as e:
        err='STOP '+str(e)
    except Exception as e:
        err='EXC '+traceback.format_exc()[-1500:]
    print(path,'outs',len(outs),'blocks',I.stats['blocks'],'wid',I.stats['widened'],'%.2fs'%(time.time()-t),err)
    for k,v in mon.log.items(): print('   ',k,v)
    if I.stats['unmodelled']: print('   UNMOD',I.stats['unmodelled'])
    if verbose:
        for s,rv in outs:
            print('  ->',rv)
            for f,v in s.facts.items(): print('       ',f[0],f[1:],v)
    return I,outs
if __name__=='__main__':
    v='-v' in sys.argv
    for p in sys.argv[1:]:
        if p=='-v': continue
        for q in P.bodies:
            if q.endswith(p) : run(q,verbose=v)
