"""Executes contracts and end-to-end scenarios on the compiled code (run under the address sanitizer).
argv: repo so jobfile progressfile ; prints one JSON line per finished task / failure."""
import sys, os, json, random, collections, signal, traceback, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'contracts')]
os.environ['VERIF_REPO'] = sys.argv[1]
import cfront, concrete
from verify import FILES
from contract import Contracts
import allcontracts, e2e


def main():
    repo, so, jobfile, progress = sys.argv[1:5]
    jobs = json.load(open(jobfile))
    prog = cfront.Program([os.path.join(repo, f) for f in FILES if os.path.exists(os.path.join(repo, f))])
    C = Contracts(prog)
    lib = concrete.Lib(so, prog)
    fd = os.open(progress, os.O_RDWR | os.O_CREAT)
    out = os.fdopen(os.dup(1), 'w')
    if not os.environ.get('WORKER_VERBOSE'):
        dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1)     # the library prints
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)

    def emit(o):
        out.write(json.dumps(o) + '\n'); out.flush()
    for j in jobs:
        cnt = collections.Counter(); checks = 0; rej = collections.Counter(); examples = []
        t0 = time.time()
        fails = 0
        for k in range(j['start'], j['start'] + j['count']):
            if time.time() - t0 > j.get('maxtime', 60): break
            seed = '%s:%s:%d' % (j['seed'], j['name'], k)
            os.pwrite(fd, ('%-200s' % json.dumps([j['kind'], j['name'], seed])).encode(), 0)
            signal.setitimer(signal.ITIMER_VIRTUAL, j.get('limit', 20))
            try:
                if j['kind'] == 'fn':
                    c = C.get(j['name'])
                    r = concrete.sample(c, lib, seed)
                else:
                    r = e2e.run(j['name'], lib, seed)
            except Exception as ex:
                r = ('error', traceback.format_exc()[-1500:])
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            cnt[r[0]] += 1
            if r[0] == 'ok':
                checks += r[1]
                if len(examples) < 1: examples.append(seed)
            elif r[0] == 'fail':
                fails += 1
                emit(dict(type='fail', kind=j['kind'], name=j['name'], seed=seed, label=r[1], detail=r[2], inputs=r[3]))
                if fails >= 2: break
            elif r[0] == 'error':
                emit(dict(type='error', kind=j['kind'], name=j['name'], seed=seed, detail=r[1])); break
            else: rej[r[1]] += 1
        emit(dict(type='done', kind=j['kind'], name=j['name'], counts=dict(cnt), checks=checks, rejects=dict(rej.most_common(4)),
                  time=time.time() - t0, examples=examples))
    os.pwrite(fd, b'%-200s' % b'[]', 0)


main()
