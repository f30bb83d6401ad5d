#!/usr/bin/env python3-vt
"""Decide one property on /repo's current tree.   check.py <ID> | check.py --replay FILE

1. extract the functions from /repo (clang AST), generate the obligations of every function under contract, discharge them (z3);
2. compile the same tree with the address sanitizer, evaluate the same contracts on executions of the real code, and run the
   property's bounded stand-ins;
3. exit 0 / exit 1 with VIOLATION line; write evidence/<ID>.json.
"""
import sys, os, json, time, tempfile, shutil, subprocess, random, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'cverif'), os.path.join(HERE, 'contracts')]
import multiprocessing as mp

NCPU = int(os.environ.get('VERIF_JOBS', '8'))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
DEADLINE = float(os.environ.get('VERIF_DEADLINE', '700' if TIER == 'quick' else '3400'))
T0 = time.time()
if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))


# ------------------------------------------------------------------ proofs
# obligations that say what a function computes: a function listed under 'memory' is checked for the others (array bounds,
# justification of the loop summaries the bounds rest on, preconditions and footprints of calls)
VALUE = ('final value', 'return value', 'ensures', 'pointer ')


def value_obligation(name):
    x = name.split('/')[-1]
    return x.startswith(VALUE) or x.endswith((' is unchanged', ' is otherwise unchanged')) or 'unchanged (' in x


def prove_function(prog, C, name, sem, q, budget, deadline, memory=False):
    """runs in a forked child; sends one record per obligation"""
    import verify as V
    from mem import Unsupported
    c = C.get(name)
    try:
        for al in [None] + list(c.aliases):
            with sem:
                t = time.time()
                try:
                    E, obls = V.generate(prog, C, name, al)
                except (Unsupported, KeyError, AttributeError, TypeError, AssertionError, RecursionError, IndexError, ValueError) as e:
                    q.put(dict(f=name, id='%s/verification conditions can be generated' % name, status='unsupported', time=time.time() - t,
                               info='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
                    continue
                gen = time.time() - t
            if memory: obls = [o for o in obls if not value_obligation(o.name)]
            for o in obls:
                if al: o.name += ' [%s is %s]' % al
            q.put(dict(f=name, gen=gen, inlined=sorted(E.inlined), used=sorted(E.used), externs=sorted(E.externs), facts=E.nreq))
            # every obligation is discharged in a process of its own: the verdict does not depend on what was proved before it
            def work(o):
                try:
                    V.discharge(o, max(budget, c.budget))
                    info = o.info or ''
                    if o.status in ('unknown', 'refuted', 'error'):
                        try:
                            from terms import show
                            info += '\nhypotheses:\n' + '\n'.join('  ' + show(h)[:300] for h in o.hyps[-40:]) + '\ngoal:\n  ' + show(o.goal)[:2000]
                        except Exception: pass
                    q.put(dict(f=name, id=o.id, status=o.status, time=o.time, backend=o.backend, info=info[:6000]))
                finally:
                    q.close(); q.join_thread()
                    sem.release()
                    os._exit(0)
            running = []

            def reap():
                for x in list(running):
                    p, o, t = x
                    if p.is_alive() and time.time() > deadline.value + 60: p.kill(); p.join()
                    if not p.is_alive():
                        running.remove(x)
                        if p.exitcode != 0:
                            sem.release()
                            late = time.time() > deadline.value
                            q.put(dict(f=name, id=o.id, status='late' if late else 'error', time=time.time() - t, info='the prover process ended with %s' % p.exitcode))
            import terms
            for o in obls:
                if o.goal is terms.TRUE:
                    V.discharge(o)
                    q.put(dict(f=name, id=o.id, status=o.status, time=0, backend=o.backend, info=''))
                elif c.unproved(o.name):
                    q.put(dict(f=name, id=o.id, status='skipped', time=0, info=''))
                else:
                    while not sem.acquire(timeout=1): reap()
                    if time.time() > deadline.value:
                        sem.release()
                        q.put(dict(f=name, id=o.id, status='late', time=0, info='out of time')); continue
                    p = mp.Process(target=work, args=(o,)); p.start(); running.append((p, o, time.time()))
                    reap()
            while running:
                running[0][0].join(1); reap()
            # vacuity: the preconditions must be satisfiable is witnessed by executions
    except Exception:
        q.put(dict(f=name, id='%s/verifier' % name, status='error', time=0, info=traceback.format_exc()[-2500:]))
    finally:
        q.put(dict(f=name, end=True))


class Proofs:
    def __init__(self, prog, C, names, budget, deadline, memory=()):
        self.q = mp.Queue(); self.sem = mp.Semaphore(NCPU); self.open = set(names)
        self.rec = []; self.meta = []
        self.procs = []
        self.deadline = mp.Value('d', deadline, lock=False)
        for n in names:
            p = mp.Process(target=prove_function, args=(prog, C, n, self.sem, self.q, budget, self.deadline, n in memory))
            p.start(); self.procs.append(p)

    def finish(self):
        import queue
        dead = {}
        while self.open:
            try: r = self.q.get(timeout=2)
            except queue.Empty:
                alive = [p for p in self.procs if p.is_alive()]
                if not alive:
                    # drain what is left, then report lost functions
                    try:
                        while True: self.take(self.q.get(timeout=1))
                    except queue.Empty: pass
                    for n in sorted(self.open):
                        self.rec.append(dict(f=n, id='%s/verifier' % n, status='error', time=0, info='the verifier process ended early'))
                    self.open = set()
                continue
            self.take(r)
        for p in self.procs: p.join()

    def take(self, r):
        if r.get('end'): self.open.discard(r['f'])
        elif 'gen' in r: self.meta.append(r)
        else: self.rec.append(r)


# ------------------------------------------------------------------ executions
class Executions:
    def __init__(self, so, scratch, jobs, nworkers):
        self.so = so; self.scratch = scratch
        self.fails = []; self.errors = []; self.done = []
        # longest first, round robin
        buckets = [[] for _ in range(nworkers)]
        for i, j in enumerate(jobs): buckets[i % nworkers].append(j)
        self.w = []
        for i, b in enumerate(buckets):
            if b: self.w.append(self.start(b, '%d' % i))

    def start(self, jobs, tag):
        jf = os.path.join(self.scratch, 'jobs%s.json' % tag); json.dump(jobs, open(jf, 'w'))
        pf = os.path.join(self.scratch, 'prog%s' % tag)
        env = dict(os.environ)
        asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
        env['LD_PRELOAD'] = asan
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0'
        of = open(os.path.join(self.scratch, 'out%s' % tag), 'w'); ef = open(os.path.join(self.scratch, 'err%s' % tag), 'w')
        p = subprocess.Popen([sys.executable, os.path.join(HERE, 'cverif', 'worker.py'), REPO, self.so, jf, pf], stdout=of, stderr=ef, env=env, cwd=self.scratch)
        return (p, jobs, tag, pf)

    def finish(self):
        pending = list(self.w)
        n = 0
        while pending:
            p, jobs, tag, pf = pending.pop(0)
            rc = p.wait()
            done = set()
            for l in open(os.path.join(self.scratch, 'out' + tag)):
                try: r = json.loads(l)
                except ValueError: continue
                if r['type'] == 'done': self.done.append(r); done.add((r['kind'], r['name'], ))
                elif r['type'] == 'fail': self.fails.append(r)
                else: self.errors.append(r)
            if rc != 0:
                try: cur = json.loads(open(pf).read().strip() or '[]')
                except (ValueError, OSError): cur = []
                err = open(os.path.join(self.scratch, 'err' + tag), errors='replace').read()
                if cur:
                    kind, name, seed = cur
                    why = 'memory error' if rc == 77 else 'did not terminate' if rc == -26 else 'crashed (%d)' % rc
                    self.fails.append(dict(type='fail', kind=kind, name=name, seed=seed, label='runs without memory error and returns',
                                           detail=why + '\n' + err[-6000:], inputs=[]))
                    # carry on with the tasks after it
                    names = [(j['kind'], j['name']) for j in jobs]
                    k = next((i for i, j in enumerate(jobs) if (j['kind'], j['name']) == (kind, name) and in_job(j, seed)), len(jobs))
                    rest = jobs[k + 1:]
                    n += 1
                    if rest and n < 40: pending.append(self.start(rest, tag + 'r'))
                else:
                    self.errors.append(dict(type='error', kind='worker', name=tag, seed='', detail='worker ended with %d\n%s' % (rc, err[-3000:])))


def in_job(j, seed):
    k = int(seed.rsplit(':', 1)[1])
    return j['start'] <= k < j['start'] + j['count']


# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    if pid == '--selftest':
        import z3, build, cfront, allcontracts
        from props import PROPS
        print('ok: %d properties, z3 %s' % (len(PROPS), z3.get_version_string())); return 0
    if pid == '--replay':
        return replay(sys.argv[2])
    scratch = tempfile.mkdtemp(prefix='vecos.')
    try:
        return check(pid, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(p): out = json.load(open(p))
    return out


def check(pid, scratch):
    import build, cfront
    from verify import FILES
    import allcontracts
    from contract import Contracts, REG
    from props import PROPS, setup
    P = PROPS[pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    violations = []

    def violation(name, data, nfi):
        fn = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, ''.join(ch if ch.isalnum() or ch in '-_' else '_' for ch in name)[:80]))
        data = dict(property=pid, **data)
        json.dump(data, open(fn, 'w'), indent=1)
        violations.append((nfi, fn, name))

    try:
        so = build.build(os.path.join(scratch, 'san'), san=True)
        prog = cfront.Program([os.path.join(REPO, f) for f in FILES if os.path.exists(os.path.join(REPO, f))])
    except Exception as e:
        violation('build', dict(kind='build', detail='the tree does not build under the verification flags: %s' % str(e)[-3000:]), True)
        return finish(pid, P, violations, [], [], None, {}, [], prog=None)
    C = Contracts(prog)
    setup(C)
    names = []; notes = []
    for n in P['functions']:
        c = C.get(n)
        if c is None:
            why = C.problems.get(n, 'no contract')
            if n in P.get('public', ()):
                violation(n, dict(kind='contract', function=n, detail=why), True)
            notes.append('%s: %s (checked through its callers)' % (n, why))
        else: names.append(n)
    memory = []
    for n in P.get('memory', ()):
        if n in names: continue
        if C.get(n) is None: notes.append('%s: %s (checked through its callers)' % (n, C.problems.get(n, 'no contract')))
        else: memory.append(n)
    # executions
    jobs = []
    mult = 1 if TIER == 'quick' else 8
    for n in names:
        c = C.get(n)
        if c.samples: jobs.append(dict(kind='fn', name=n, start=0, count=c.samples * mult, seed=SEED, maxtime=60 * mult))
    for n, cnt in P.get('e2e', {}).items():
        # split large scenarios over the workers
        cnt *= mult
        k = max(1, min(NCPU, cnt // 20))
        for i in range(k):
            a, b = cnt * i // k, cnt * (i + 1) // k
            jobs.append(dict(kind='e2e', name=n, start=a, count=b - a, seed=SEED, maxtime=90 * mult))
    random.Random(SEED).shuffle(jobs)
    provable = [n for n in names + memory if C.get(n).prove]
    pr = Proofs(prog, C, provable, 30.0 if TIER == 'quick' else 60.0, T0 + DEADLINE * 0.75, memory) if not os.environ.get('NOPROOF') else None
    ex = Executions(so, scratch, jobs, max(2, NCPU // 2))
    ex.finish()
    if pr:
        # a violation was already shown on an execution: finish what is cheap, do not wait for proofs that will fail
        if ex.fails: pr.deadline.value = min(pr.deadline.value, time.time() - 30)
        pr.finish()
    rec = pr.rec if pr else []
    if not ex.fails:
        for r in rec:
            if r['status'] == 'late': r['status'] = 'unknown'
    bad = [r for r in rec if r['status'] in ('unknown', 'refuted', 'unsupported', 'error')]
    # a failed obligation: search harder for an input that shows it
    if bad and not ex.fails:
        fs = sorted({r['f'] for r in bad})
        more = []
        for f in fs:
            c = C.get(f)
            if not c.samples: continue
            for i in range(4): more.append(dict(kind='fn', name=f, start=100000 * (i + 1), count=c.samples * 3, seed=SEED, maxtime=60))
        if more:
            ex2 = Executions(so, os.path.join(scratch), [dict(m) for m in more], NCPU)
            ex2.finish()
            ex2.fails = [f for f in ex2.fails if f['name'] not in memory or f['label'].startswith('runs without memory error')]
            ex.fails += ex2.fails; ex.errors += ex2.errors; ex.done += ex2.done
    seen = set()
    for f in ex.fails:
        key = (f['name'], f['label'])
        if key in seen: continue
        seen.add(key)
        kf = match_known(pid, f)
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf)); continue
        violation('%s-%s' % (f['name'], f['label']), dict(kind='execution', task=f['kind'], name=f['name'], seed=f['seed'], obligation='%s/%s' % (f['name'], f['label']),
                                                          detail=f['detail'], inputs=f['inputs'],
                                                          rerun='python3-vt /verif/check.py --replay <this file>'), False)
    for e in ex.errors:
        violation('%s-harness' % e['name'], dict(kind='harness', name=e['name'], seed=e['seed'], detail=e['detail']), True)
    concretely = {v[2].split('-')[0] for v in violations if not v[0]}
    for r in bad:
        violation(r['id'].replace('/', '-'), dict(kind='obligation', function=r['f'], obligation=r['id'], solver_status=r['status'], seconds=r['time'],
                                 verifier_output=r['info'], detail='the verifier no longer accepts this obligation'), True)
    # vacuity: some execution satisfied the preconditions
    for n in names:
        c = C.get(n)
        d = [x for x in ex.done if x['kind'] == 'fn' and x['name'] == n]
        if c.samples and not any(f['name'] == n for f in ex.fails) and not sum(x['counts'].get('ok', 0) for x in d):
            violation(n + '-vacuous', dict(kind='vacuity', function=n, detail='no execution satisfied the preconditions: %s' % [x['rejects'] for x in d]), True)
    if pr and provable and not any(r['status'] == 'proved' for r in rec):
        violation('no-obligations', dict(kind='vacuity', detail='no obligation was generated'), True)
    return finish(pid, P, violations, rec, pr.meta if pr else [], C, {n: C.get(n) for n in names}, ex.done, prog, notes)


def match_known(pid, f):
    for k in known_findings():
        if k.get('status') == 'open' and k['property'] == pid and k['name'] == f['name'] and k['label'] == f['label'] and k.get('match', '') in f['detail']:
            return k['what']
    return None


def finish(pid, P, violations, rec, meta, C, contracts, done, prog, notes=()):
    proved = [r for r in rec if r['status'] == 'proved']
    skipped = [r for r in rec if r['status'] == 'skipped']
    memory = sorted({r['f'] for r in rec} - set(contracts))
    fully = sorted({r['f'] for r in rec if r['f'] in contracts} - {r['f'] for r in rec if r['status'] != 'proved'})
    backends = {}
    for r in proved: backends[r.get('backend') or '?'] = backends.get(r.get('backend') or '?', 0) + 1
    ev = dict(property=pid, tier=TIER, seed=SEED, level=P['level'], wall_s=round(time.time() - T0, 1), violations=len(violations))
    nchk = sum(d['checks'] for d in done)
    execs = {}
    for d in done:
        e = execs.setdefault(d['name'], dict(executions=0, rejected=0, comparisons=0))
        e['executions'] += d['counts'].get('ok', 0); e['rejected'] += d['counts'].get('reject', 0) + d['counts'].get('indet', 0); e['comparisons'] += d['checks']
    externs = sorted({x for m in meta for x in m['externs']})
    assumed = sorted({u for m in meta for u in m['used']} - set(fully))
    cov = dict(obligations=len(rec), discharged=len(proved),
               checker_cmd='python3-vt /verif/check.py %s' % pid,
               trusted_base=['clang 18 AST of /repo (front end, every run)', 'the VC generator in /verif/cverif', 'z3 (python API)',
                             'library functions: ' + ', '.join(externs)] + P.get('trusted', []),
               functions_under_contract=sorted(contracts), functions_fully_proved=fully,
               functions_with_only_memory_obligations_here=memory,
               functions_with_bounded_obligations={f: [r['id'] for r in skipped if r['f'] == f] for f in sorted({r['f'] for r in skipped})},
               functions_bounded_only=sorted(n for n, c in contracts.items() if not c.prove),
               callee_contracts_assumed_here=assumed,
               inlined_callees=sorted({x for m in meta for x in m['inlined']}),
               backends=backends, solver_time_s=round(sum(r['time'] for r in rec), 1), generation_time_s=round(sum(m['gen'] for m in meta), 1),
               slowest=sorted(([round(r['time'], 1), r['id']] for r in proved), reverse=True)[:5],
               run_time_evaluation=execs, evaluations=sum(e['executions'] for e in execs.values()), comparisons=nchk,
               obligation_names=[r['id'] for r in proved][:400], notes=list(notes))
    if P['level'] != 'proof':
        cov['distinct_nontrivial'] = cov['evaluations']
        cov['rule'] = 'pseudo-random inputs from VERIF_SEED; an execution counts when the preconditions hold and at least one postcondition was compared'
        cov['samples'] = [d['examples'][0] for d in done if d.get('examples')][:10] or ['none']
        cov['explanation'] = P.get('explanation', '')
    ev['coverage'] = cov
    ev['assumptions'] = COMMON_ASSUMPTIONS + P.get('assumptions', [])
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged (%d labelled bounded), %d functions under contract, %d executions, %.0f s' % (
        pid, len(proved), len(rec), len(skipped), len(contracts), cov['evaluations'], time.time() - T0))
    for f in known_findings():
        if f.get('status') == 'open' and f['property'] == pid and f.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    violations.sort(key=lambda v: v[0])
    conc = [v for v in violations if not v[0]]
    for nfi, fn, name in (conc or violations)[:20]:
        print('VIOLATION property=%s replay=%s%s' % (pid, fn, ' no-failing-input-found' if nfi else ''))
    return 1 if violations else 0


COMMON_ASSUMPTIONS = [
    'floating-point arithmetic is treated as real arithmetic in the proofs (run-time evaluation uses the real doubles, up to rounding)',
    'machine integers (64-bit) are treated as mathematical integers',
    'malloc succeeds',
    'distinct pointer parameters and fields point to disjoint objects unless a contract says otherwise (call sites are checked)',
]


def replay(fn):
    d = json.load(open(fn))
    if d.get('kind') != 'execution':
        print(json.dumps(d, indent=1)); return 0
    import build
    scratch = tempfile.mkdtemp(prefix='vecos.')
    try:
        so = build.build(os.path.join(scratch, 'san'), san=True)
        s, name, k = d['seed'].rsplit(':', 2)
        ex = Executions(so, scratch, [dict(kind=d['task'], name=d['name'], start=int(k), count=1, seed=s)], 1)
        ex.finish()
        for f in ex.fails: print('REPRODUCED %s: %s\n%s' % (f['name'], f['label'], f['detail']))
        if not ex.fails: print('not reproduced', ex.done, ex.errors)
        return 1 if ex.fails else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        # an internal error is never reported as success
        traceback.print_exc()
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        fn = os.path.join(HERE, 'replays', '%s-internal.json' % sys.argv[1].strip('-/').replace('/', '_'))
        json.dump(dict(kind='internal', detail=traceback.format_exc()), open(fn, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (sys.argv[1], fn))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
