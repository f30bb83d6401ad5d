"""Loops: inference of closed-form invariants and their verification conditions."""
from terms import *
import terms as tm
import mem, smt
from mem import *
from symex import *
import symex


def exec_loop(E, n, st, cond, inc, body, dowhile=False):
    u = exec_loop_(E, n, st, cond, inc, body, dowhile)
    if E.naming() and u.fall is not None and E.toplevel():
        for p in sorted(u.fall.mem):
            v = u.fall.mem[p]
            if isinstance(v, Arr) and v is not st.mem.get(p): E.name_array(u.fall, p, n)
    return u


def exec_loop_(E, n, st, cond, inc, body, dowhile=False):
    # constant trip count: unroll, unless an invariant of the contract covers the loop
    spec = False
    if not dowhile and not E.loopidx and E.hasloopinv():
        L = Loop(E, n, st, cond, inc, body, dowhile)
        if L.nested_loops():
            L.k = var('k@%s%s' % (n['id'], ''.join('/' + c for c in E.callstack)), 'I')
            L.modset()
            spec = bool(E.user_invariant(L))
    if not dowhile and not spec:
        u = try_unroll(E, n, st, cond, inc, body)
        if u is not None: return u
    L = Loop(E, n, st, cond, inc, body, dowhile)
    nobl = len(E.obls); nf = len(E.facts); saved = st.copy(); cs = list(E.callstack); fr = list(E.frames); li = list(E.loopidx); q = E.quiet; w = E.writes
    specs = None
    try:
        if not E.loopidx and E.hasloopinv() and L.nested_loops():
            L.k = var('k@%s%s' % (n['id'], ''.join('/' + c for c in E.callstack)), 'I')
            L.modset()
            specs = E.user_invariant(L)
            if specs: L.specs = specs
        return L.run()
    except Unsupported as e:
        if specs: raise
        specs = E.user_invariant(L)
        if not specs: raise
        del E.obls[nobl:]; del E.facts[nf:]
        E.callstack[:] = cs; E.frames[:] = fr; E.loopidx[:] = li; E.quiet = q; E.writes = w
        L = Loop(E, n, saved, cond, inc, body, dowhile)
        L.specs = specs
        return L.run()


MAXUNROLL = 8


def try_unroll(E, n, st, cond, inc, body):
    """complete unrolling when the condition is decided by constants (at most MAXUNROLL rounds)"""
    if cond is None: return None
    mark = (len(E.facts), len(E.obls))
    w = E.writes
    s = st.copy()
    c = quietly(E, lambda: E.truth(E.ev(cond, s.copy())))
    if c.op != 'const': return None
    # trial run (quiet) to see that it terminates
    def trial():
        cur = st.copy()
        for _ in range(MAXUNROLL + 1):
            c = E.truth(E.ev(cond, cur))
            if c is FALSE: return True
            if c is not TRUE: return False
            o = E.run(body, cur)
            cs = o.cont + ([o.fall] if o.fall is not None else [])
            if not cs: return True
            cur = E.merge_list(cs)
            if inc is not None: E.ev(inc, cur)
        return False
    try:
        ok = quietly(E, trial)
    except Unsupported:
        return None
    if not ok: return None
    out = Outs(None)
    cur = st
    falls = []
    it = 0
    while True:
        c = E.truth(E.ev(cond, cur))
        if c is FALSE:
            falls.append(cur); break
        E.callstack.append('u%d' % it); it += 1
        o = E.run(body, cur)
        E.callstack.pop()
        falls += o.brk; out.ret += o.ret
        cs = o.cont + ([o.fall] if o.fall is not None else [])
        if not cs: break
        cur = E.merge_list(cs)
        if inc is not None: E.ev(inc, cur)
    out.fall = E.merge_list(falls) if falls else None
    return out


def quietly(E, f):
    q, nf, no, w = E.quiet, len(E.facts), len(E.obls), E.writes
    E.quiet += 1
    E.writes = set() if w is None else w
    try:
        return f()
    finally:
        E.quiet = q
        del E.facts[nf:]; del E.obls[no:]
        E.writes = w


class Loop:
    def __init__(self, E, n, st, cond, inc, body, dowhile):
        self.E = E; self.n = n; self.st = st; self.cond = cond; self.inc = inc; self.body = body; self.dowhile = dowhile
        E.loopno[n['id']] = E.loopno.get(n['id'], len(E.loopno) + 1)
        self.name = 'loop%d' % E.loopno[n['id']]
        self.undef = {}; self.sym = {}
        self.specs = ()              # user invariants: (paths held opaque, function of the iteration count -> [(label, term)])

    def opaque_forms(self, M):
        """values of the locations described by a user invariant: one symbol per iteration"""
        E = self.E; r = {}
        for paths, f in self.specs:
            for p in paths:
                if p not in M: continue
                v = self.initial(p)
                if v is None and p in E.types: v = E.read_arr(self.st, p, *E.types[p])
                if v is None: raise Unsupported('invariant about %s' % p)
                nm = E.skname('inv:' + p, self.n); pre = tuple(E.loopidx)
                if isinstance(v, Arr):
                    r[p] = lambda at, nm=nm, v=v, pre=pre: Base(nm, v.sort, v.nd, pre + (at,))
                else:
                    r[p] = lambda at, nm=nm, v=v, pre=pre: sel(nm, v.sort, *(pre + (at,)))
        return r

    def invariants(self, at, read):
        """the user invariants after `at` iterations of the state given by read(path, sort, idx)"""
        import calls
        out = []
        for paths, f in self.specs:
            for label, t in f(at):
                m = {nm: (lambda idx, nm=nm[:-1], so=so: read(nm, so, tuple(idx))) for nm, so in calls.selnames(t) if nm.endswith("'")}
                out.append((label, subst(t, {}, m)))
        return out

    def reader(self, s):
        E = self.E
        return lambda p, so, idx: E.read_arr(s, p, so, len(idx)).read(idx) if idx else E.read_arr(s, p, so, 0)

    # one iteration; returns (cond term, state after the increment or None, outs)
    def iterate(self, s):
        E = self.E
        if self.dowhile:
            o = E.run(self.body, s)
            cs = o.cont + ([o.fall] if o.fall is not None else [])
            f = E.merge_list(cs) if cs else None
            c = TRUE
            if f is not None:
                c = E.truth(E.ev(self.cond, f))
            return c, f, o
        c = E.truth(E.ev(self.cond, s)) if self.cond is not None else TRUE
        self.cond_state = s
        b = E._branch(s, c)
        o = E.run(self.body, b)
        cs = o.cont + ([o.fall] if o.fall is not None else [])
        f = E.merge_list(cs) if cs else None
        if f is not None and self.inc is not None: E.ev(self.inc, f)
        return c, f, o

    def modset(self):
        E = self.E
        M = set(E.modcache.get(self.n['id'], ()))
        for _ in range(6):
            def go():
                old = E.writes
                E.writes = set()
                try:
                    s = self.havoc(M, 'd')[0]
                    E.loopidx.append(self.k)
                    try:
                        self.iterate(s)
                    finally:
                        E.loopidx.pop()
                    return set(E.writes)
                finally:
                    E.writes = old
            new = quietly(E, go)
            if new <= M: break
            M |= new
        E.modcache[self.n['id']] = set(M)
        return M

    def havoc(self, M, tag):
        """state with modified locations replaced by symbols at iteration k"""
        E = self.E; s = self.st.copy()
        sym = {}
        for p in M:
            if p.startswith('*'):
                q = p[1:]
                v = s.ptrs.get(q) or E.initptr(q)
                if v is None: continue
                if isinstance(v, (FuncRef, StrLit, PIte, tuple)) or v.path is None:
                    if isinstance(v, Ptr) and v.path is None: s.ptrs.pop(q, None)
                    continue
                x = var('%s@%s' % (p, self.k.args[0]), 'I')
                s.ptrs[q] = Ptr(v.path, v.idx, x, v.arr)
                sym[p] = x
                continue
            v = s.mem.get(p)
            if v is None: v = E.init.get(p)
            if v is None:
                if p in E.types:
                    so, nd = E.types[p]
                    v = E.initval(p, Base(p, so, nd) if nd else sel(p, so))
                else:
                    continue      # local of the body: defined before use
            if isinstance(v, Arr):
                nm = '%s@%s' % (p, self.k.args[0])
                s.mem[p] = Base(nm, v.sort, v.nd); sym[p] = nm
            else:
                x = var('%s@%s' % (p, self.k.args[0]), v.sort)
                s.mem[p] = x; sym[p] = x
        return s, sym

    def run(self):
        E = self.E
        if self.specs: E.specloops.add(self.n['id'])
        self.k = var('k@%s%s' % (self.n['id'], ''.join('/' + c for c in E.callstack)), 'I')
        k = self.k
        M = self.modset()
        if E.writes is not None: E.writes |= M
        # ---- open run
        def openrun():
            s, sym = self.havoc(M, 'o')
            E.loopidx.append(k)
            try:
                c, f, o = self.iterate(s)
            finally:
                E.loopidx.pop()
            return s, sym, c, f, o
        s0, sym, c, f, o = quietly(E, openrun)
        self.M = M; self.sym = sym
        self.opq = self.opaque_forms(M)
        if self.specs:
            sI = self.st.copy()
            for p in self.opq: self.put(sI, p, self.opq[p](k))
            self.invfacts = lambda: [t for _, t in self.invariants(k, self.reader(sI))]
        # ---- closed forms, trip count
        try:
            forms = self.infer(s0, sym, f, dict(self.opq))
            first = None
        except Unsupported as e:
            forms = self.forms; first = e
        self.forms = forms
        N, extra = self.tripcount(self.close(c, k), k)
        # second pass: the index range and the index variables are known
        simple = {p for p in forms if not isinstance(sym[p], str) and self.is_simple(forms[p](k))}
        if self.nested_loops() or first is not None:
            def openrun2():
                s, sym2 = self.havoc(M, 'o')
                for p in simple: self.put(s, p, forms[p](k))
                s.pc = s.pc + tuple(r for r in [le(ZI, k)] + ([lt(k, N)] if N is not None else []) if r is not TRUE)
                E.loopidx.append(k)
                try:
                    c, f, o = self.iterate(s)
                finally:
                    E.loopidx.pop()
                return s, sym2, c, f, o
            keep = {p: forms[p] for p in simple}
            keep.update(self.opq)
            s0, sym, c, f, o = quietly(E, openrun2)
            self.sym = sym
            forms = self.infer(s0, sym, f, keep)
            self.forms = forms
            N, extra = self.tripcount(self.close(c, k), k)
        early = o.brk + o.ret
        wcond = extra          # remaining part of the condition (early exit when false)
        return self.verify(forms, N, wcond, early)

    def is_simple(self, t):
        """affine in the iteration index with coefficients that do not need the range of k"""
        if t.op in ('const', 'var'): return True
        if t.op == 'poly': return all(a.op in ('var', 'sel') and not (a.op == 'sel' and self.k.args[0] in a.fv) for m, c in t.args for a, e in m)
        if t.op == 'sel': return self.k.args[0] not in t.fv
        return False

    def nested_loops(self):
        def has(n):
            if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CallExpr'): return True
            return any(has(c) for c in n.get('inner', ()))
        return has(self.body)

    # closed value of a term at iteration index t
    def close(self, t, at):
        vm, am = self.closing(at)
        return subst(t, vm, am)

    def closing(self, at, forms=None):
        forms = forms if forms is not None else self.forms
        vm = {}; am = {}
        for p, x in self.sym.items():
            if p not in forms: continue
            f = forms[p]
            if isinstance(x, str):
                am[x] = f(at)
            else:
                vm[x.args[0]] = f(at)
        am = {k: (lambda idx, a=v: a.read(idx)) if not isinstance(v, Arr) else v for k, v in am.items()}
        am2 = {k: (lambda idx, a=v: a.read(tuple(idx))) for k, v in am.items()}
        if at is not self.k: vm[self.k.args[0]] = at
        return vm, am2

    # ---------------------------------------------------------------- inference
    def initial(self, p):
        E = self.E
        if p.startswith('*'):
            v = self.st.ptrs.get(p[1:]) or E.initptr(p[1:])
            return v.off
        v = self.st.mem.get(p)
        if v is None: v = E.init.get(p)
        if v is None and isinstance(self.sym.get(p), T):
            # a local of the body: no value before the loop
            if p not in self.undef: self.undef[p] = fresh('undef', self.sym[p].sort)
            v = self.undef[p]
        return v

    def infer(self, s0, sym, f, keep=None):
        E = self.E; k = self.k; kn = k.args[0]
        forms = dict(keep or {})
        self.forms = forms
        if f is None:
            # the body never falls through: at most one iteration; values at the head are the initial ones
            for p, x in sym.items():
                if p not in forms: forms[p] = (lambda at, v=self.initial(p): v)
            return forms
        new = {}
        for p, x in sym.items():
            if p.startswith('*'):
                q = f.ptrs.get(p[1:])
                if not isinstance(q, Ptr) or q.path is None:
                    new[p] = None
                else: new[p] = q.off
            else:
                v = f.mem.get(p)
                if v is None: v = s0.mem[p]
                new[p] = v
        scal = {p: x for p, x in sym.items() if not isinstance(x, str)}
        arrs = {p: x for p, x in sym.items() if isinstance(x, str)}
        symnames = {x.args[0]: p for p, x in scal.items()}
        symnames.update({x: p for p, x in arrs.items()})
        pending = set(sym) - set(forms)
        changed = True
        self.forms = forms

        def clo(t):
            vm, am = self.closing(k, forms)
            return subst(t, vm, am)

        def unresolved(t, allow=()):
            return {symnames[x] for x in t.fv if x in symnames and symnames[x] in pending} - set(allow)
        while pending and changed:
            changed = False
            for p in sorted(pending):
                if isinstance(sym[p], str): continue
                v = new[p]
                if v is None: continue
                v = clo(v)
                r = self.scalar_form(p, sym[p], v, unresolved)
                if r is not None:
                    forms[p] = r; pending.discard(p); changed = True
            if changed: continue
            for p in sorted(pending):
                if not isinstance(sym[p], str): continue
                r = self.array_form(p, sym[p], new[p], clo, unresolved)
                if r is not None:
                    forms[p] = r; pending.discard(p); changed = True
                    break
            if changed: continue
            # optimistic: arrays that still depend on pending scalars that depend on them: try joint scalar folds
            grp = [p for p in sorted(pending) if not isinstance(sym[p], str) and new[p] is not None]
            r = self.joint_fold(grp, sym, {p: clo(new[p]) for p in grp}, unresolved)
            if r:
                for p in r: forms[p] = r[p]; pending.discard(p)
                changed = True
            if changed: continue
            # guess that the body reads positions it has not written before (checked by the induction step)
            for p in grp:
                v = clo(new[p])
                au = [q for q in unresolved(v) if isinstance(sym[q], str)]
                if not au: continue
                am = {sym[q]: (lambda idx, a=self.initial(q): a.read(tuple(idx))) for q in au}
                r = self.scalar_form(p, sym[p], subst(v, {}, am), unresolved)
                if r is not None:
                    forms[p] = r; pending.discard(p); changed = True
                    break
        if pending and self.specs:
            # the loop has an invariant of its own: the other modified arrays are left arbitrary
            for p in sorted(pending):
                v = self.initial(p)
                if not isinstance(v, Arr): continue
                nm = E.skname('any:' + p, self.n); pre = tuple(E.loopidx)
                forms[p] = self.opq[p] = (lambda at, nm=nm, v=v, pre=pre: Base(nm, v.sort, v.nd, pre + (at,)))
                pending.discard(p)
        if pending:
            raise Unsupported('no closed form for %s in %s of %s (line %s)' % (
                ', '.join(sorted(pending)), self.name, E.fname, line_of(self.n)))
        return forms

    def scalar_form(self, p, x, v, unresolved):
        k = self.k; kn = k.args[0]; xn = x.args[0]
        v0 = self.initial(p)
        if v is x:
            return lambda at: v0
        un = unresolved(v)
        if not un:
            # temporary: value of the previous iteration
            prev = subst(v, {kn: sub(k, OI)})
            if kn not in prev.fv:
                cst = prev
                return lambda at: ite(eq(at, ZI), v0, cst)
            return lambda at: ite(le(at, ZI), v0, subst(prev, {kn: at}))
        if un == {p}:
            # v depends only on itself
            if v.sort in ('I', 'R'):
                d = sub(v, x)
                if xn not in d.fv:
                    if kn not in d.fv:
                        return lambda at: add(v0, mul(at if v.sort == 'I' else toreal(at), d))
                    return lambda at: add(v0, tm.sum_tmp(at, k, d))
                d2 = push_acc(v, x)
                if d2 is not None:
                    return lambda at: add(v0, tm.sum_tmp(at, k, d2))
            if v.sort in ('I', 'R', 'B'):
                # value set under a condition independent of the history and constant: keep generic fold
                return lambda at: tm.fold_tmp(0, at, (v0,), k, (x,), (v,))
        return None

    def joint_fold(self, grp, sym, vals, unresolved):
        """mutually dependent scalars: one fold with several accumulators"""
        ok = {p for p in grp if unresolved(vals[p]) <= set(grp)}
        while True:
            bad = {p for p in ok if not unresolved(vals[p]) <= ok}
            if not bad: break
            ok -= bad
        if not ok: return None
        # smallest closed component
        def closure(p):
            seen = {p}; st = [p]
            while st:
                q = st.pop()
                for z in unresolved(vals[q]):
                    if z not in seen: seen.add(z); st.append(z)
            return seen
        best = min((closure(p) for p in sorted(ok)), key=len)
        ps = sorted(best)
        accs = tuple(sym[p] for p in ps); inits = tuple(self.initial(p) for p in ps); bodies = tuple(vals[p] for p in ps)
        k = self.k
        return {p: (lambda at, j=j: tm.fold_tmp(j, at, inits, k, accs, bodies)) for j, p in enumerate(ps)}

    def array_form(self, p, nm, v, clo, unresolved):
        """closed form of a modified array, or None"""
        E = self.E; k = self.k; kn = k.args[0]
        A0 = self.initial(p)
        if isinstance(v, Base) and v.name == nm:
            return lambda at: A0
        # (1) writes at invertible positions
        try:
            ws = flatten(v, nm)
        except Unsupported:
            ws = None
        if ws is not None:
            r = self.map_form(p, nm, ws, A0, clo, unresolved)
            if r is not None: return r
            r = self.cell_form(nm, ws, A0, clo, unresolved)
            if r is not None: return r
        # (2) pointwise recurrence
        es = [fresh('e', 'I') for _ in range(v.nd)]
        t = v.read(tuple(es))
        acc = fresh('acc', v.sort)
        t = clo(t)
        t2 = own_reads(t, nm, tuple(es), acc)
        if t2 is None:
            # positions that do not depend on the iteration: taken as not written (checked by the preservation obligation)
            en = {e.args[0] for e in es}
            t = subst(t, {}, {nm: lambda i: A0.read(tuple(i)) if not any(kn in x.fv or en & x.fv for x in i) else sel(nm, v.sort, *i)})
            t2 = own_reads(t, nm, tuple(es), acc)
        if t2 is None: return None
        if unresolved(t2): return None
        kf = fresh('k', 'I')
        t3 = subst(t2, {kn: kf})
        return lambda at: PFold(A0, kf, at, es, acc, t3)

    def cell_form(self, nm, ws, A0, clo, unresolved):
        """all writes go to one position that does not change: a scalar recurrence"""
        k = self.k; kn = k.args[0]
        pos = None; acc = fresh('acc', A0.sort); cur = acc
        for (g, bs, rs, idx, val) in ws:
            if bs: return None
            idx = tuple(clo(i) for i in idx); g = clo(g); val = clo(val)
            if pos is None: pos = idx
            if idx != pos or nm in g.fv or any(nm in i.fv or kn in i.fv or unresolved(i) for i in idx): return None
            if unresolved(g): return None
            bad = [False]

            def rd(i, cur=cur):
                if tuple(i) == pos: return cur
                return A0.read(tuple(i))       # another position: checked by the preservation obligation
            v = subst(val, {}, {nm: rd})
            if unresolved(v): return None
            cur = ite(g, v, cur)
        if pos is None: return None
        kf = fresh('k', 'I')
        step = subst(cur, {kn: kf})
        return lambda at: Store(A0, pos, pfold(A0.read(pos), kf, at, acc, step))

    def map_form(self, p, nm, ws, A0, clo, unresolved):
        E = self.E; k = self.k; kn = k.args[0]
        groups = []
        selfread = False
        for (g, bs, rs, idx, val) in ws:
            rd = lambda i: A0.read(tuple(i))
            def cl(t):
                t = clo(t)
                return t
            idx2 = tuple(cl(i) for i in idx); g2 = cl(g); rs2 = [cl(r) for r in rs]; val2 = cl(val)
            if any(nm in i.fv for i in idx2) or any(nm in r.fv for r in rs2): return None
            if nm in g2.fv:
                # a condition on the cell that is written (earlier iterations write other cells: checked by the preservation obligation)
                away = []
                g2 = subst(g2, {}, {nm: lambda i: (tuple(i) == idx2 or away.append(i), A0.read(tuple(i)))[1]})
                if away or not any(kn in i.fv for i in idx2): return None
            for t in list(idx2) + [g2] + rs2:
                if unresolved(t): return None
            if nm in val2.fv:
                # only reads of the written position itself are taken from the initial array
                bad = [False]

                def own(i):
                    if tuple(i) == idx2: return A0.read(tuple(i))
                    # a position that is not written before: checked by the preservation obligation
                    bad[0] = True
                    return A0.read(tuple(i))
                val2 = subst(val2, {}, {nm: own})
                if bad[0]: selfread = True
            if unresolved(val2): return None
            # invertible?
            binders = [k] + list(bs)
            dummy = tuple(fresh('z', 'I') for _ in idx2)
            occ = any(kn in i.fv for i in idx2)
            if not occ:
                # same position in every iteration: value of the last iteration
                if kn in g2.fv or selfread or nm in cl(val).fv: return None
                if bs and solve(idx2, dummy, list(bs), rs2) is None: return None
                groups.append(('const', g2, bs, rs2, idx2, val2)); continue
            if solve(idx2, dummy, binders, [k] + rs2) is None: return None
            groups.append(('map', g2, bs, rs2, idx2, val2))
        if selfread and len(ws) > 1:
            # one block of neighbouring cells per iteration
            if any(g[2] for g in groups) or any(sub(a, b).op != 'const' for g in groups for a, b in zip(g[4], groups[0][4])): return None
        # accumulation into the position written: val must not be cumulative over iterations -> verified later

        def form(at, groups=groups):
            a = A0
            for kind, g, bs, rs, idx, val in groups:
                if kind == 'map':
                    kk = fresh('k', 'I')
                    nb = [fresh('b', 'I') for _ in bs]
                    m = {kn: kk}; m.update({b.args[0]: x for b, x in zip(bs, nb)})
                    f = lambda t: subst(t, m)
                    a = Map(a, [kk] + nb, [at] + [f(r) for r in rs], f(g), [f(i) for i in idx], f(val))
                else:
                    m = {kn: sub(at, OI)}
                    f = lambda t: subst(t, m)
                    gg = and_(lt(ZI, at), f(g))
                    if bs:
                        a = Map(a, bs, [f(r) for r in rs], gg, [f(i) for i in idx], f(val))
                    else:
                        a = IteA(gg, Store(a, [f(i) for i in idx], f(val)), a) if gg is not TRUE else Store(a, [f(i) for i in idx], f(val))
            return a
        return form

    # ---------------------------------------------------------------- trip count
    def tripcount(self, c, k):
        """number of iterations allowed by the affine part of the condition; remaining condition"""
        kn = k.args[0]
        parts = list(c.args) if c.op == 'and' else [c]
        N = None; rest = []
        for q in parts:
            b = None
            if q.op == 'le0' and q.args[0].sort == 'I':
                cs, r = coeffs(q.args[0], {kn})
                if kn not in r.fv and cs.get(kn, 0) > 0:
                    a = int(cs[kn])
                    # a*k + r <= 0  for k < N:  N = floor(-r/a)+1
                    if a == 1: b = add(neg(r), OI)
                    else:
                        d = exactdiv(neg(r), a)
                        b = add(d, OI) if d is not None else add(app('idiv', 'I', neg(r), I(a)), OI)
            elif q.op == 'not' and q.args[0].op == 'eq0' and q.args[0].args[0].sort == 'I':
                # i != n with unit step: at most |n-i0| iterations (exactness is an obligation)
                cs, r = coeffs(q.args[0].args[0], {kn})
                if kn not in r.fv and abs(cs.get(kn, 0)) == 1:
                    b = neg(r) if cs[kn] == 1 else r
            if b is None:
                rest.append(q)
            else:
                N = b if N is None else min_(N, b)
        if N is not None:
            if N.op == 'const': N = N if N.args[0] > 0 else ZI
            elif not self.E.entails(self.st, le(ZI, N), [le(ZI, k)]): N = ite(lt(ZI, N), N, ZI)
        return N, and_(*rest)

    # ---------------------------------------------------------------- verification
    def verify(self, forms, N, wcond, early):
        E = self.E; k = self.k; kn = k.args[0]
        st = self.st
        vm, am = self.closing(k)
        isearly = bool(early) or wcond is not TRUE or N is None
        # initialisation
        opq = self.opq
        for label, t in self.invariants(ZI, self.reader(st)) if self.specs else ():
            E.oblige('%s: invariant holds initially: %s' % (self.name, label), t, st)
        for p in sorted(self.sym):
            if p in opq: continue
            v0 = self.initial(p)
            z = forms[p](ZI)
            if isinstance(v0, Arr):
                if z is v0 or isinstance(z, (Map, PFold)):
                    # zero iterations: by construction of the layer
                    if z is not v0: self.init_arr(p, z, v0)
            elif z is not v0:
                E.oblige('%s: invariant holds initially: %s' % (self.name, short(p)), eq(z, v0), st)
        # distinctness of write positions
        if not E.quiet:
            for p in sorted(self.sym):
                a = forms[p](k)
                while isinstance(a, (Map, IteA, Store)):
                    if isinstance(a, Map):
                        d = a.distinct_goal()
                        if d is not None and d[1] is not TRUE:
                            E.oblige('%s: write positions are distinct: %s' % (self.name, short(p)), d[1], st, extra=d[0] + [le(ZI, k)] + ([le(k, N)] if N is not None else []))
                        a = a.prev
                    elif isinstance(a, IteA): a = a.a
                    else: a = a.prev
                    if a is self.initial(p): break
        # generic iteration k
        s = st.copy()
        for p in self.sym:
            self.put(s, p, forms[p](k))
        rng = [le(ZI, k)] + ([lt(k, N)] if N is not None else [])
        bodyst = s
        nfacts = len(E.facts)
        bodyst.pc = st.pc + tuple(r for r in rng if r is not TRUE)
        base = len(bodyst.pc)
        # no earlier exit (as a fact over all earlier iterations) is added once known
        E.loopidx.append(k)
        w = E.writes
        invs = [t for _, t in self.invariants(k, self.reader(bodyst))] if self.specs else []
        E.facts += invs
        try:
            c, f, o = self.iterate(bodyst)
        finally:
            E.loopidx.pop()
        if f is not None:
            for label, t in self.invariants(add(k, OI), self.reader(f)) if self.specs else ():
                E.oblige('%s: invariant preserved: %s' % (self.name, label), t, f)
            for p in sorted(self.sym):
                if p in opq: continue
                want = forms[p](add(k, OI))
                if p.startswith('*'):
                    g = f.ptrs.get(p[1:])
                    if not isinstance(g, Ptr): raise Unsupported('pointer recurrence ' + p)
                    E.oblige('%s: invariant preserved: %s' % (self.name, short(p)), eq(g.off, want), f); continue
                have = f.mem.get(p)
                if have is None: have = E.init.get(p)
                if isinstance(have, Arr):
                    if not E.quiet:
                        e = tuple(fresh('e', 'I') for _ in range(have.nd))
                        E.oblige('%s: invariant preserved: %s' % (self.name, short(p)), eq(have.read(e), want.read(e)), f)
                else:
                    E.oblige('%s: invariant preserved: %s' % (self.name, short(p)), eq(have, want) if have.sort != 'B' else iff(have, want), f)
        exits = o.brk + o.ret
        # facts produced in the body hold for every iteration executed
        newf = E.facts[nfacts + len(invs):]
        if not isearly and self.specs and not E.quiet:
            E.oblige('%s: loop condition before the bound' % self.name, c, None, extra=list(st.pc) + rng)
        del E.facts[nfacts:]
        for x in newf:
            E.fact(forall_tmp([k], or_(not_(and_(*rng)), x)) if kn in x.fv else x)
        # exit conditions
        out = Outs(None)
        if self.dowhile: raise Unsupported('do-while')
        if not isearly:
            fin = st.copy()
            for p in self.sym: self.put(fin, p, forms[p](N))
            for _, t in self.invariants(N, self.reader(fin)) if self.specs else (): E.fact(t)
            if not E.quiet:
                # the condition is false after N iterations, true before
                s2 = fin.copy()
                cN = quietly(E, lambda: E.truth(E.ev(self.cond, s2))) if self.cond is not None else TRUE
                E.oblige('%s: exit condition' % self.name, not_(cN), fin)
                if not self.specs: E.oblige('%s: loop condition before the bound' % self.name, c, None, extra=list(st.pc) + rng)
            out.fall = fin
            return out
        # early exits: K = index of the first iteration that does not complete
        K = E.skolem('K:' + self.name, self.n)
        pcs = [and_(*x.pc[base:]) for x in exits]
        B = or_(not_(c), *pcs)
        nb = not_(B)
        E.fact(le(ZI, K))
        if N is not None:
            E.fact(le(K, N))
        E.fact(forall_tmp([k], implies(and_(le(ZI, k), lt(k, K)), nb)), st)
        vmK = {kn: K}
        if N is not None:
            # completes all N iterations, or stops at K
            E.fact(implies(lt(K, N), subst(B, vmK)), st)
        else:
            E.fact(subst(B, vmK), st)
            E.oblige('%s: termination' % self.name, FALSE, st)
        falls = []
        fin = st.copy()
        for p in self.sym: self.put(fin, p, forms[p](K))
        for _, t in self.invariants(K, self.reader(fin)) if self.specs else (): E.fact(t, st)
        s2 = fin.copy()
        cK = quietly(E, lambda: E.truth(E.ev(self.cond, s2))) if self.cond is not None else TRUE
        if N is not None:
            if not E.quiet:
                s3 = st.copy()
                for p in self.sym: self.put(s3, p, forms[p](N))
                cN = quietly(E, lambda: E.truth(E.ev(self.cond, s3.copy()))) if self.cond is not None else TRUE
                E.oblige('%s: exit condition' % self.name, not_(cN), s3)
            isN = eq(K, N) if wcond is TRUE else not_(cK)
        else:
            isN = not_(cK)
        if isN is not FALSE:
            a = fin; a.assume(isN); falls.append(a)
        for x in exits:
            y = self.at(x, K)
            y.pc = st.pc + tuple(subst(q, vmK) for q in x.pc[len(st.pc):])
            if x in o.brk: falls.append(y)
            else: out.ret.append(y)
        out.fall = E.merge_list(falls) if falls else None
        return out

    def at(self, s, K):
        vm = {self.k.args[0]: K}
        y = s.copy()
        for p, v in s.mem.items():
            if v is self.st.mem.get(p): continue
            y.mem[p] = v.subst(vm, {}) if isinstance(v, Arr) else subst(v, vm)
        for p, v in s.ptrs.items():
            y.ptrs[p] = psubst(v, vm)
        if isinstance(s.ret, T): y.ret = subst(s.ret, vm)
        elif isinstance(s.ret, (Ptr, PIte)): y.ret = psubst(s.ret, vm)
        return y

    def init_arr(self, p, z, v0):
        E = self.E
        if E.quiet: return
        e = tuple(fresh('e', 'I') for _ in range(v0.nd))
        E.oblige('%s: invariant holds initially: %s' % (self.name, short(p)), eq(z.read(e), v0.read(e)), self.st)

    def put(self, s, p, v):
        if p.startswith('*'):
            q = s.ptrs.get(p[1:]) or self.E.initptr(p[1:])
            s.ptrs[p[1:]] = Ptr(q.path, q.idx, v, q.arr)
        else:
            s.mem[p] = v


def psubst(v, vm):
    if isinstance(v, Ptr):
        return Ptr(v.path, [subst(i, vm) for i in v.idx], subst(v.off, vm), v.arr)
    if isinstance(v, PIte): return pite(subst(v.c, vm), psubst(v.a, vm), psubst(v.b, vm))
    return v


def short(p):
    if p.startswith('*'): return '*' + short(p[1:])
    if p.startswith('L:'):
        q = p.split(':')[1]
        return q + ('[]' if p.endswith('[]') else '')
    return p


def flatten(a, nm):
    """writes over Base(nm), oldest first: (guard, binders, ranges, idx, val)"""
    out = []

    def go(a, g):
        if isinstance(a, Base) and a.name == nm: return
        if isinstance(a, Store):
            go(a.prev, g); out.append((g, [], [], a.idx, a.val)); return
        if isinstance(a, Map):
            go(a.prev, g)
            nb = [fresh('b', 'I') for b in a.binders]
            m = {b.args[0]: x for b, x in zip(a.binders, nb)}
            f = lambda t: subst(t, m)
            out.append((and_(g, f(a.guard)), nb, [f(r) for r in a.ranges], tuple(f(i) for i in a.idx), f(a.val))); return
        if isinstance(a, IteA):
            ca = chain(a.a, nm); cb = chain(a.b, nm)
            # common prefix
            i = 0
            while i < len(ca) and i < len(cb) and ca[i] is cb[i]: i += 1
            if i:
                go(ca[i - 1], g)
            for c, ch in ((a.c, ca[i:]), (not_(a.c), cb[i:])):
                for x in ch:
                    one(x, and_(g, c))
            return
        raise Unsupported('array shape')

    def one(a, g):
        if isinstance(a, Store): out.append((g, [], [], a.idx, a.val)); return
        if isinstance(a, Map):
            nb = [fresh('b', 'I') for b in a.binders]
            m = {b.args[0]: x for b, x in zip(a.binders, nb)}
            f = lambda t: subst(t, m)
            out.append((and_(g, f(a.guard)), nb, [f(r) for r in a.ranges], tuple(f(i) for i in a.idx), f(a.val))); return
        if isinstance(a, IteA):
            # nested: flatten relative to its own base
            ca = chain(a.a, nm); cb = chain(a.b, nm)
            i = 0
            while i < len(ca) and i < len(cb) and ca[i] is cb[i]: i += 1
            for c, ch in ((a.c, ca[i:]), (not_(a.c), cb[i:])):
                for x in ch: one(x, and_(g, c))
            return
        raise Unsupported('array shape')

    def chain(a, nm):
        c = []
        while not (isinstance(a, Base) and a.name == nm):
            if isinstance(a, (Store, Map)):
                c.append(a); a = a.prev
            elif isinstance(a, IteA):
                x = chain(a.a, nm); y = chain(a.b, nm)
                i = 0
                while i < len(x) and i < len(y) and x[i] is y[i]: i += 1
                c.append(a)
                a = x[i - 1] if i else None
                if a is None: break
            else: raise Unsupported('array shape')
        return list(reversed(c))
    go(a, TRUE)
    return out


def own_reads(t, nm, es, acc):
    """rewrite reads of array nm to acc where the index is known to equal es; None if a read remains"""
    def conds(c):
        return list(c.args) if c.op == 'and' else [c]

    def go(t, known):
        if nm not in t.fv: return t
        if t.op == 'sel' and t.args[0] == nm:
            for i, e in zip(t.args[1:], es):
                if i is e: continue
                if not any(k is eq(i, e) for k in known): raise Unsupported('read')
            return acc
        if t.op == 'ite':
            c, a, b = t.args
            return ite(go(c, known), go(a, known + conds(c)), go(b, known + conds(not_(c))))
        if t.op == 'poly':
            r = const(0, t.sort)
            for m, c in t.args:
                kn = list(known)
                for a, e in m:
                    if isind(a):
                        kn += conds(a.args[0] if a.args[1].args[0] == 1 else not_(a.args[0]))
                p = const(c, t.sort)
                for a, e in m:
                    x = go(a, kn)
                    for _ in range(e): p = mul(p, x)
                r = add(r, p)
            return r
        if t.op == 'inv': return inv(go(t.args[0], known))
        if t.op == 'app': return app(t.args[0], t.sort, *[go(x, known) for x in t.args[1:]])
        if t.op == 'sel': return sel(t.args[0], t.sort, *[go(x, known) for x in t.args[1:]])
        if t.op == 'toreal': return toreal(go(t.args[0], known))
        if t.op in ('and', 'or'):
            plain = [x if t.op == 'and' else not_(x) for x in t.args if nm not in x.fv]
            return (and_ if t.op == 'and' else or_)(*[go(x, known + plain) for x in t.args])
        if t.op == 'not': return not_(go(t.args[0], known))
        if t.op in ('le0', 'lt0', 'eq0'):
            f = {'le0': le0, 'lt0': lt0, 'eq0': eq0}[t.op]
            return f(go(t.args[0], known))
        if t.op == 'fold' and not any(nm in x.fv for x in t.args[4]) and nm not in t.args[2].fv:
            w, h, N, inits, bs = t.args
            k = fresh('k', 'I'); accs = tuple(fresh('a', x.sort) for x in inits)
            return tm.fold_tmp(w, N, tuple(go(x, known) for x in inits), k, accs, smt.foldstep(t, k, accs))
        raise Unsupported('read')
    try:
        return go(t, [])
    except Unsupported:
        return None
