import sys, os, collections, time
sys.path.insert(0, '/verif/contracts'); sys.path.insert(0, '/verif/cverif')
import build, cfront
from verify import FILES
from contract import Contracts, REG
import allcontracts, concrete
prog = cfront.Program([build.REPO + '/' + f for f in FILES])
C = Contracts(prog)
so = build.build('/tmp/cv_build')
lib = concrete.Lib(so, prog)
names = sys.argv[1:] or list(REG)
N = int(os.environ.get('N', '200'))
for nm in names:
    c = C.get(nm)
    if c is None: print(nm, C.problems.get(nm)); continue
    cnt = collections.Counter(); t = time.time(); first = {}
    for k in range(N):
        r = concrete.sample(c, lib, 'x%d' % k)
        cnt[r[0]] += 1
        if r[0] != 'ok': first.setdefault(r[0], r[1:3] if r[0] == 'fail' else r[1])
    print(nm, dict(cnt), '%.1fs' % (time.time() - t), first)
