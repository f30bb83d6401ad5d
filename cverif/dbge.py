import sys, os, collections, time, signal
sys.path.insert(0, '/verif/contracts'); sys.path.insert(0, '/verif/cverif')
import build, cfront
from verify import FILES
import concrete, e2e, allcontracts
prog = cfront.Program([build.REPO + '/' + f for f in FILES])
so = build.build('/tmp/cv_build' + os.environ.get('TAG', ''))
lib = concrete.Lib(so, prog)
N = int(os.environ.get('N', '200')); off = int(os.environ.get('OFF', '0'))
for nm in sys.argv[1:] or list(e2e.SCEN):
    cnt = collections.Counter(); t = time.time(); first = []
    for k in range(off, off + N):
        r = e2e.run(nm, lib, '1:%s:%d' % (nm, k))
        cnt[r[0]] += 1
        if r[0] == 'fail':
            cnt[r[1]] += 1
            if len(first) < 3: first.append((k, r[1:3]))
    print(nm, dict(cnt), '%.1fs' % (time.time() - t)); 
    for f in first: print('    ', f)
    sys.stdout.flush()
