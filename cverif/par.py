"""verify several functions in parallel: python par.py name.. | all"""
import sys, os, time
from multiprocessing import Pool
from verify import *
import build, cfront
sys.path.insert(0,'/verif/contracts')
import allcontracts
from contract import REG
prog=cfront.Program([build.REPO+'/'+f for f in FILES])
C=Contracts(prog)
def one(nm):
    t=time.time()
    c=C.get(nm)
    if c is None: return nm, C.problems.get(nm), [], 0
    try:
        r=verify(prog,C,nm,budget=float(os.environ.get('BUDGET','10')))
        return nm, None, [(o.id,o.status,o.time,(o.info or '')[-300:]) for o in r], time.time()-t
    except Exception:
        return nm, traceback.format_exc()[-900:], [], 0
if __name__=='__main__':
    names=sys.argv[1:]
    if names==['all']: names=list(REG)
    elif len(names)==1 and names[0].startswith('c_'):
        names=[n for n,(f,o) in REG.items() if f.__module__==names[0]]
    with Pool(8) as P:
        for nm,err,r,t in P.imap_unordered(one,names,chunksize=1):
            if err: print(nm,'ERROR',err); continue
            ok=sum(x[1]=='proved' for x in r)
            print('%-22s %3d/%3d proved %.1fs'%(nm,ok,len(r),t))
            for x in r:
                if x[1]!='proved': print('     ',x[1],x[0],'%.1f'%x[2],x[3].split('\n')[0] if x[1]!='error' else x[3])
            sys.stdout.flush()
