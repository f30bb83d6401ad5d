import sys
from verify import *
import build
sys.path.insert(0,'/verif/contracts')
import allcontracts, cfront
prog=cfront.Program([build.REPO+'/'+f for f in FILES])
C=Contracts(prog)
def show(fn, pat, alias=None, maxg=1500, hy=False):
    E,obls=generate(prog,C,fn,alias)
    for o in obls:
        if pat in o.name:
            discharge(o)
            print('==',o.id,o.status,'%.2f'%o.time)
            if o.status!='proved' and o.goal is not None:
                print('GOAL',tm.show(o.goal)[:maxg])
                if hy:
                    for h in o.hyps: print('  HYP',tm.show(h)[:400])
                if o.model is not None and o.model.model is not None:
                    m=o.model.model
                    print('MODEL',str(m)[:1500])
                if o.info: print(o.info[-800:])
if __name__=='__main__':
    show(sys.argv[1], sys.argv[2] if len(sys.argv)>2 else '', hy=len(sys.argv)>3)
