"""End-to-end scenarios on the mixed-integer interface (bounded: small problems whose optimum is found by enumeration)."""
import ctypes as ct, itertools, math
from concrete import libc
from e2e import scenario, Fail, Skip
from e2e_solve import ARR, Prob, csc, matvec, dot, getv, geti, soc_margin, norm

BIG = 8388608.0


class MI:
    """conic program with boolean and integer variables; every integer variable is boxed by ordinary rows"""
    def __init__(self, P, bools, ints, cont, box):
        self.P = P; self.bools = bools; self.ints = ints; self.cont = cont; self.box = box

    def show(self): return self.P.show() + ['bool=%r int=%r' % (self.bools, self.ints)]


def gen_mi(r, small=False, feasible=None):
    n = r.randint(1, 3 if small else 5)
    idx = list(range(n)); r.shuffle(idx)
    ncont = 1 if n > 1 and r.random() < 0.4 else 0
    cont = idx[:ncont]; rest = idx[ncont:]
    nb = r.randint(0, len(rest)); bools = rest[:nb]; ints = rest[nb:]
    if len(ints) > 2: bools = bools + ints[2:]; ints = ints[:2]
    box = r.randint(1, 3)
    x0 = [0.0] * n
    for i in bools: x0[i] = float(r.randint(0, 1))
    for i in ints: x0[i] = float(r.randint(-box, box))
    for i in cont: x0[i] = r.uniform(-2, 2)
    G = []; h = []
    for i in ints + cont:
        B = box + 0.5 if i in ints else 5.0
        row = [0.0] * n; row[i] = 1.0; G.append(row); h.append(B)
        row = [0.0] * n; row[i] = -1.0; G.append(row); h.append(B)
    if feasible is None: feasible = r.random() < 0.75
    for _ in range(r.randint(0, 4)):
        row = [float(r.choice([-2, -1, 0, 1, 2, 3])) for _ in range(n)]
        if not any(row): continue
        f = r.choice([1.0, 1.0, 2.0, 0.5])
        v = sum(a * b for a, b in zip(row, x0) if True)
        v = math.floor(v) + 0.5 + r.randint(0, 2) if feasible else math.floor(v) + 0.5 + r.randint(-3, 1)
        G.append([f * a for a in row]); h.append(f * v)
    if not G:
        row = [0.0] * n; row[0] = 1.0; G.append(row); h.append(1.5)
    l = len(G); q = []
    if not cont and r.random() < 0.3:
        k = r.randint(2, 3); q = [k]
        for t in range(k):
            G.append([float(r.choice([-1, 0, 1])) for _ in range(n)])
        h += [float(r.randint(1, 4)) + 0.3] + [0.2 * r.randint(-4, 4) for _ in range(k - 1)]
    c = [float(r.choice([-3, -2, -1, 1, 2, 3])) if r.random() < 0.5 else r.gauss(0, 2) for _ in range(n)]
    return MI(Prob(n, l, q, 0, G, h, [], [], c), bools, ints, cont, box)


def enumerate_mi(M):
    """-> (optimal value or None, {integer point: value})"""
    P = M.P; best = None; pts = {}
    for v in itertools.product(*([[0.0, 1.0]] * len(M.bools) + [[float(t) for t in range(-M.box, M.box + 1)]] * len(M.ints))):
        x = [0.0] * P.n
        for i, t in zip(M.bools + M.ints, v): x[i] = t
        s = [a - b for a, b in zip(P.h, matvec(P.G, x))]
        val = None
        if not M.cont:
            mg = min(s[:P.l]) if P.l else 1.0
            o = P.l
            for k in P.q: mg = min(mg, soc_margin(s[o:o + k])); o += k
            if abs(mg) < 2e-2: raise Skip('borderline point')
            if mg > 0: val = dot(P.c, x)
        else:
            j = M.cont[0]; lo, hi = -1e9, 1e9; ok = True
            for i in range(P.l):
                g = P.G[i][j]
                if g == 0:
                    if s[i] < 0: ok = False
                    continue
                if g > 0: hi = min(hi, s[i] / g)
                else: lo = max(lo, s[i] / g)
            if ok and abs(hi - lo) < 2e-2: raise Skip('borderline point')
            if ok and hi > lo: val = dot(P.c, x) + min(P.c[j] * lo, P.c[j] * hi)
        if val is not None:
            pts[v] = val
            if best is None or val < best: best = val
    return best, pts


class BBRun:
    def __init__(self, lib, M, stgs=None):
        self.lib = lib; self.M = M; P = M.P; d = lib.dll; self.blocks = []; self.P = P
        self.sf = d.ECOS_BB_setup; self.sf.restype = ct.c_void_p
        self.sf.argtypes = [ct.c_long] * 5 + [ct.c_void_p, ct.c_long] + [ct.c_void_p] * 9 + [ct.c_long, ct.c_void_p, ct.c_long, ct.c_void_p, ct.c_void_p]
        self.so = d.ECOS_BB_solve; self.so.restype = ct.c_long; self.so.argtypes = [ct.c_void_p]
        self.cl = d.ECOS_BB_cleanup; self.cl.restype = None; self.cl.argtypes = [ct.c_void_p, ct.c_long]
        def mk(v, ty=ct.c_double):
            a = ARR(v, ty); self.blocks.append(a); return a
        L = ct.c_long
        jc, ir, pr = csc(P.G, P.n); ajc, air, apr = csc(P.A, P.n)
        self.user = dict(Gpr=(mk(pr), pr), Gjc=(mk(jc, L), jc), Gir=(mk(ir, L), ir), c=(mk(P.c), list(P.c)), h=(mk(P.h), list(P.h)), q=(mk(P.q, L), list(P.q)),
                         bools=(mk(M.bools, L), list(M.bools)), ints=(mk(M.ints, L), list(M.ints)))
        if P.p: self.user.update(Apr=(mk(apr), apr), Ajc=(mk(ajc, L), ajc), Air=(mk(air, L), air), b=(mk(P.b), list(P.b)))
        self.gnz = len(pr)
        S = lib.types.struct('settings_bb')
        sa = libc.malloc(ct.sizeof(S)); self.blocks.append(sa)
        st = S.from_address(sa)
        st.maxit = 1000; st.verbose = 0; st.abs_tol_gap = 1e-6; st.rel_tol_gap = 1e-3; st.integer_tol = 1e-4
        st.branching_strategy = 3; st.reliable_eta = 6; st.node_selection_method = 1
        for k, v in (stgs or {}).items(): setattr(st, k, v)
        self.st = st; self.sa = sa; self.w = None

    def a(self, k): return self.user[k][0] if k in self.user else None

    def setup(self):
        P = self.P; M = self.M
        self.w = self.sf(P.n, P.m, P.p, P.l, len(P.q), self.a('q'), P.ne, self.a('Gpr'), self.a('Gjc'), self.a('Gir'), self.a('Apr'), self.a('Ajc'), self.a('Air'),
                         self.a('c'), self.a('h'), self.a('b'), len(M.bools), self.a('bools'), len(M.ints), self.a('ints'), self.sa)
        if not self.w: raise Fail('a well-formed mixed-integer problem is accepted', 'setup returned NULL', M.show())
        self.o = self.lib.types.struct('ecos_bb_pwork').from_address(self.w)
        self.e = self.lib.types.struct('pwork').from_address(self.o.ecos_prob)

    def solve(self):
        self.flag = self.so(self.w)
        self.x = getv(self.o.x, self.P.n)
        self.info = self.lib.types.struct('stats').from_address(self.o.info)
        return self.flag

    def e_stgs(self): return self.lib.types.struct('settings').from_address(self.e.stgs)

    def userdata(self):
        for k, (a, v) in self.user.items():
            yield k, (getv(a, len(v)) if k in ('Gpr', 'c', 'h', 'Apr', 'b') else geti(a, len(v))), v

    def close(self):
        if self.w: self.cl(self.w, 0); self.w = None

    def free(self):
        self.close()
        for a in self.blocks: libc.free(a)
        self.blocks = []


def check_mi_point(M, x, tol, what):
    P = M.P
    for i in M.bools + M.ints:
        if abs(x[i] - round(x[i])) > tol: raise Fail('integer variables of a returned solution are integral', '%s: x[%d]=%r' % (what, i, x[i]), M.show())
    for i in M.bools:
        if round(x[i]) not in (0, 1): raise Fail('boolean variables are 0 or 1', '%s: x[%d]=%r' % (what, i, x[i]), M.show())
    s = [a - b for a, b in zip(P.h, matvec(P.G, x))]
    t = 2e-3 * (1 + norm(P.h) + norm(x))
    for i in range(P.l):
        if s[i] < -t: raise Fail('a returned solution satisfies the constraints', '%s: row %d violated by %g' % (what, i, -s[i]), M.show())
    o = P.l
    for k in P.q:
        if soc_margin(s[o:o + k]) < -t: raise Fail('a returned solution satisfies the constraints', '%s: cone violated by %g' % (what, -soc_margin(s[o:o + k])), M.show())
        o += k


def judge(M, R, f, best, pts, st):
    what = 'exit %d strategy %d selection %d iter %d maxit %d' % (f, R.st.branching_strategy, R.st.node_selection_method, R.o.iter, R.st.maxit)
    if f not in (0, 1, 2, 10, 11, 12): raise Fail('documented mixed-integer exit code', what, M.show())
    if R.o.iter > R.st.maxit - 1: raise Fail('the node limit is respected', what, M.show())
    if f < 10 and R.o.iter >= R.st.maxit - 1 : raise Fail('the node limit is reported', what, M.show())
    if f >= 10 and R.o.iter < R.st.maxit - 1: raise Fail('the node limit is reported only when it was reached', what, M.show())
    if f in (0, 10):
        check_mi_point(M, R.x, 2e-4, what)
        cost = dot(M.P.c, R.x)
        if best is None: raise Fail('no solution is reported for an infeasible problem', what, M.show())
        v = tuple(float(round(R.x[i])) for i in M.bools + M.ints)
        slack = 1e-3 * (1 + norm(M.P.c)) * (1 + norm(R.x))
        if cost < best - slack: raise Fail('the reported solution is not better than the optimum', '%s: cost %r, optimum %r' % (what, cost, best), M.show())
        if abs(R.info.pcost - cost) > slack: raise Fail('the statistics belong to the returned solution', '%s: pcost %r, cost %r' % (what, R.info.pcost, cost), M.show())
        xe = getv(R.e.x, M.P.n)
        if xe != R.x: raise Fail('the solution is available from the continuous workspace', '%s: %r vs %r' % (what, xe, R.x), M.show())
        if f == 0:
            gap = 1.2 * st.get('rel_tol_gap', 1e-3) * abs(best) + st.get('abs_tol_gap', 1e-6) + slack
            if cost > best + gap: raise Fail('an OPTIMAL mixed-integer solution is optimal', '%s: cost %r, optimum %r at %r' % (what, cost, best, min(pts, key=pts.get)), M.show())
    elif f in (1, 2):
        if best is not None: raise Fail('a feasible problem is not declared infeasible', '%s: optimum %r at %r' % (what, best, min(pts, key=pts.get)), M.show())
    return 6


def bb_settings(r):
    st = dict(branching_strategy=r.choice([0, 1, 2, 3, 3, 4]), node_selection_method=r.choice([0, 1, 2]), reliable_eta=r.choice([0, 1, 6]))
    if r.random() < 0.2: st['maxit'] = r.choice([1, 2, 3, 4, 6])
    if r.random() < 0.2: st['rel_tol_gap'] = r.choice([0.0, 1e-6, 0.05])
    if r.random() < 0.1: st['abs_tol_gap'] = r.choice([1e-9, 0.5])
    return st


@scenario('mixedinteger')
def _(lib, r):
    """verdict, solution and limits of branch and bound against exhaustive enumeration"""
    M = gen_mi(r); best, pts = enumerate_mi(M); st = bb_settings(r)
    R = BBRun(lib, M, st)
    try:
        R.setup()
        f = R.solve()
        n = judge(M, R, f, best, pts, st)
        if r.random() < 0.3:
            g = R.solve()
            judge(M, R, g, best, pts, st)
            if f < 10 and g < 10 and f != g: raise Fail('solving again gives the same verdict', 'exit %d then %d' % (f, g), M.show())
        return n
    finally: R.free()


@scenario('bbunconverged')
def _(lib, r):
    """relaxations that stop at the iteration limit: a returned solution still satisfies the constraints"""
    M = gen_mi(r); best, pts = enumerate_mi(M); st = bb_settings(r); st.setdefault('maxit', r.choice([5, 20, 50]))
    R = BBRun(lib, M, st)
    try:
        R.setup()
        R.e_stgs().maxit = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        f = R.solve()
        what = 'exit %d strategy %d selection %d iter %d inner maxit %d' % (f, R.st.branching_strategy, R.st.node_selection_method, R.o.iter, R.e_stgs().maxit)
        if f in (0, 10):
            check_mi_point(M, R.x, 2e-4, what)
            cost = dot(M.P.c, R.x)
            if best is None: raise Fail('no solution is reported for an infeasible problem', what, M.show())
            if cost < best - 1e-3 * (1 + norm(M.P.c)) * (1 + norm(R.x)): raise Fail('the reported solution is not better than the optimum', '%s: cost %r, optimum %r' % (what, cost, best), M.show())
        return 3
    finally: R.free()


@scenario('bbdata')
def _(lib, r):
    """user data of a mixed-integer problem: untouched by setup, solve and cleanup"""
    M = gen_mi(r)
    R = BBRun(lib, M, bb_settings(r))
    try:
        R.setup()
        if r.random() < 0.7: R.st.maxit = min(R.st.maxit, 8); R.solve()
        R.close()
        for k, now, was in R.userdata():
            for i, (a, b) in enumerate(zip(now, was)):
                if not (a == b or abs(a - b) <= 4e-15 * abs(b)): raise Fail('user data are as supplied after cleanup', '%s[%d] is %r, was %r' % (k, i, a, b), M.show())
        return 4
    finally: R.free()


@scenario('bbmemory')
def _(lib, r):
    """mixed-integer setup, solves and cleanup: memory is used correctly and released"""
    M = gen_mi(r); st = bb_settings(r); st['maxit'] = r.choice([1, 2, 3, 5, 8])
    live = ct.c_long.in_dll(lib.dll, 'verif_live'); before = live.value
    R = BBRun(lib, M, st)
    try:
        R.setup()
        for _ in range(r.choice([0, 1, 1, 2])): R.solve()
        k = r.randint(0, 4)
        kept = [R.e.x, R.e.y, R.e.s, R.e.z][:k]
        vals = [getv(a, n) for a, n in zip(kept, (M.P.n, M.P.p, R.e.m, R.e.m))]
        R.cl(R.w, k); R.w = None
        if live.value - before != k: raise Fail('cleanup releases everything except what is kept', '%d blocks left, %d kept' % (live.value - before, k), M.show())
        for a, v in zip(kept, vals):
            now = getv(a, len(v))
            if any(u != t and not (u != u and t != t) for u, t in zip(now, v)): raise Fail('kept variables survive cleanup', '%r vs %r' % (now, v), M.show())
        for a in kept: libc.free(a)
        return 2 + k
    finally: R.free()


@scenario('bbupdate')
def _(lib, r):
    """entry updates of the cost and right-hand side reach the user's rows: the next solve is that of the changed problem"""
    M = gen_mi(r, feasible=True)
    P = M.P; st = bb_settings(r); st.pop('maxit', None)
    R = BBRun(lib, M, st)
    d = lib.dll
    uh = d.updateDataEntry_h; uh.restype = None; uh.argtypes = [ct.c_void_p, ct.c_long, ct.c_double]
    uc = d.updateDataEntry_c; uc.restype = None; uc.argtypes = [ct.c_void_p, ct.c_long, ct.c_double]
    try:
        R.setup()
        if r.random() < 0.5: R.solve()
        nbox = 2 * (len(M.ints) + len(M.cont))
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.5 and P.l > nbox:
                i = r.randrange(nbox, P.l)
                v = P.h[i] + float(r.choice([-2, -1, 1, 2])) * (1 if all(abs(a - round(a)) < 1e-9 for a in P.G[i]) else 0.5)
                P.h[i] = v; uh(R.w, i, v)
            else:
                i = r.randrange(P.n); v = float(r.choice([-3, -2, -1, 1, 2, 3])); P.c[i] = v; uc(R.w, i, v)
        best, pts = enumerate_mi(M)
        f = R.solve()
        return judge(M, R, f, best, pts, st)
    finally: R.free()
