"""Generators of well-formed concrete structures (inputs of the run-time contract evaluation)."""
from concrete import builder
import ctypes as ct


def rand_csc(ctx, m, n, dens=None, sorted_=True, diag=False):
    r = ctx.rng
    if dens is None: dens = r.choice([0.0, 0.3, 0.6, 1.0])
    jc = [0]; ir = []; pr = []
    for j in range(n):
        rows = [i for i in range(m) if r.random() < dens]
        if not sorted_: r.shuffle(rows)
        ir += rows; pr += ctx.rv(len(rows)); jc.append(len(ir))
    return jc, ir, pr


def put_spmat(ctx, m, n, jc, ir, pr):
    a, o = ctx.struct('spmat', m=m, n=n, nnz=len(ir))
    o.jc = ctx.ints(jc); o.ir = ctx.ints(ir); o.pr = ctx.reals(pr)
    return a


@builder('spmat')
def _(ctx, c, name):
    r = ctx.rng
    m, n = ctx.k_dims if hasattr(ctx, 'k_dims') else (r.randint(0, 5), r.randint(0, 5))
    jc, ir, pr = rand_csc(ctx, m, n, sorted_=r.random() < 0.7)
    return put_spmat(ctx, m, n, jc, ir, pr)


def rand_soc(ctx, o, p):
    """second-order cone with internally consistent Nesterov-Todd data"""
    import math
    r = ctx.rng
    q = [r.gauss(0, 1) for _ in range(p - 1)]
    w = sum(x * x for x in q)
    a = math.sqrt(1 + w)
    cc = 1 + a + w / (1 + a)
    d = 1 + 2 / (1 + a) + w / ((1 + a) * (1 + a))
    d1 = max(0.0, 0.5 * (a * a + w * (1 - cc * cc / (1 + w * d))))
    u0s = a * a + w - d1
    u0 = math.sqrt(u0s)
    c2 = cc * cc / u0s
    v1s = c2 - d
    o.p = p; o.a = a; o.w = w; o.d1 = d1; o.u0 = u0; o.u1 = math.sqrt(c2); o.v1 = math.sqrt(max(v1s, 0.0))
    o.eta = ctx.pos(); o.eta_square = o.eta * o.eta
    o.q = ctx.reals(q); o.skbar = ctx.reals(ctx.rv(p)); o.zkbar = ctx.reals(ctx.rv(p))
    o.Didx = ctx.ints([r.randint(0, 50) for _ in range(p)])


@builder('cone')
def build_cone(ctx, c, name, lp=None, q=None, nexc=None):
    r = ctx.rng
    T = ctx.lib.types
    if lp is None: lp = r.choice([0, 1, 2, 3, 4])
    if q is None: q = [r.choice([1, 2, 3, 3, 4, 5]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if nexc is None: nexc = 0 if getattr(ctx, 'noexp', False) else r.choice([0, 0, 1, 2])
    C, o = ctx.struct('cone', nsoc=len(q), nexc=nexc, fexv=lp + sum(q))
    l, lo = ctx.struct('lpcone', p=lp)
    lo.w = ctx.reals([ctx.pos() for _ in range(lp)]); lo.v = ctx.reals([ctx.pos() for _ in range(lp)])
    lo.kkt_idx = ctx.ints([r.randint(0, 50) for _ in range(lp)])
    o.lpc = l
    S = T.struct('socone'); sz = ct.sizeof(S)
    base = ctx.malloc(sz * len(q)); o.soc = base
    for k, p in enumerate(q): rand_soc(ctx, S.from_address(base + k * sz), p)
    E = T.struct('expcone'); sz = ct.sizeof(E)
    base = ctx.malloc(sz * nexc); o.expc = base
    for k in range(nexc):
        e = E.from_address(base + k * sz)
        e.colstart[:] = [r.randint(0, 50) for _ in range(3)]
        e.v[:] = ctx.rv(6); e.g[:] = ctx.rv(3)
    return C


# ------------------------------------------------------------------ solver workspaces: the real setup, then arbitrary numbers
def make_pwork(ctx, P=None, expo=None, solve=False):
    """workspace built by the real setup for a random problem; -> (address, struct, problem)"""
    import e2e_solve as S
    from e2e import Skip
    r = ctx.rng; lib = ctx.lib
    if P is None:
        while True:
            try: P = S.gen_feasible(r, ne=(0 if getattr(ctx, 'noexp', False) else r.choice([0, 0, 1, 2])) if expo is None else expo)
            except Skip: continue
            break
    R = S.Run(lib, P)
    if not R.setup(): raise RuntimeError('setup failed')
    ctx.run = R; ctx.prob = P
    w = R.w; o = R.pw
    if solve:
        R.st.maxit = r.randint(0, 8); R.solve(); R.st.maxit = 100
    T = lib.types

    def done():
        # arrays that a function may have detached or that were replaced: cleanup frees what is there
        R.cleanup(0); R.free()
    ctx.finals.append(done)
    return w, o, P


def put(addr, vals, ty=ct.c_double):
    if vals: (ty * len(vals)).from_address(addr)[:] = vals


def randomise_pwork(ctx, w, o, P, scal=True):
    """arbitrary numbers in every numerical field (structure untouched)"""
    import e2e_solve as S
    r = ctx.rng; T = ctx.lib.types
    K = T.struct('kkt').from_address(o.KKT); C = T.struct('cone').from_address(o.C)
    N = T.struct('spmat').from_address(K.PKPt).n
    n, m, p = P.n, P.m, P.p
    for f in ('x', 'best_x', 'rx'): put(getattr(o, f), ctx.rv(n))
    for f in ('y', 'best_y', 'ry'):
        if getattr(o, f): put(getattr(o, f), ctx.rv(p))
    for f in ('z', 's', 'lambda', 'best_z', 'best_s', 'dsaff', 'dzaff', 'W_times_dzaff', 'dsaff_by_W', 'saff', 'zaff', 'rz'): put(getattr(o, f), ctx.rv(m))
    for f in ('dx1', 'dx2'): put(getattr(K, f), ctx.rv(n))
    for f in ('dy1', 'dy2'): put(getattr(K, f), ctx.rv(p))
    for f in ('dz1', 'dz2'): put(getattr(K, f), ctx.rv(m))
    for f in ('work1', 'work2', 'work3', 'work4', 'work5', 'work6', 'RHS1', 'RHS2', 'D'): put(getattr(K, f), ctx.rv(N))
    if r.random() < 0.4:   # inside the cones
        put(o.s, S.interior(r, P.l, P.q, P.ne)); put(o.z, S.interior(r, P.l, P.q, P.ne, dual=True))
    for f in 'kap tau best_kap best_tau'.split(): setattr(o, f, ctx.pos())
    for f in 'best_cx best_by best_hz rt cx by hz sz'.split(): setattr(o, f, ctx.real())
    for f in 'hresx hresy hresz nx ny nz ns'.split(): setattr(o, f, ctx.pos())
    for f in 'resx0 resy0 resz0'.split(): setattr(o, f, 1 + ctx.pos())
    I = T.struct('stats').from_address(o.info); B = T.struct('stats').from_address(o.best_info)
    for st in (I, B):
        for f in 'pcost dcost'.split(): setattr(st, f, ctx.real())
        for f in 'pres dres pinfres dinfres gap relgap mu kapovert sigma step step_aff'.split(): setattr(st, f, ctx.pos())
        for f in ('pinfres', 'dinfres', 'relgap'):
            if r.random() < 0.4: setattr(st, f, float('nan'))
        st.iter = r.randint(0, 20)
    if scal:
        l = T.struct('lpcone').from_address(C.lpc)
        if P.l: put(l.w, [ctx.pos() for _ in range(P.l)]); put(l.v, [ctx.pos() for _ in range(P.l)])
        Sc = T.struct('socone')
        for k, q in enumerate(P.q):
            s = Sc.from_address(C.soc + k * ct.sizeof(Sc))
            d = s.Didx; keep = (s.q, s.skbar, s.zkbar, d)
            fill_soc(ctx, s, q)
        Ec = T.struct('expcone')
        for k in range(P.ne):
            e = Ec.from_address(C.expc + k * ct.sizeof(Ec))
            e.v[:] = ctx.rv(6); e.g[:] = ctx.rv(3)
    if r.random() < 0.3:
        st = T.struct('settings').from_address(o.stgs)
        for f in 'feastol abstol reltol feastol_inacc abstol_inacc reltol_inacc'.split(): setattr(st, f, 10 ** r.uniform(-9, 1))


def fill_soc(ctx, o, p):
    import math
    r = ctx.rng
    class X: pass
    x = X()
    class F:
        rng = r
        def reals(self, v): return v
        def ints(self, v): return v
        def rv(self, n): return ctx.rv(n)
        def pos(self): return ctx.pos()
    rand_soc(F(), x, p)
    for f in 'a w d1 u0 u1 v1 eta eta_square'.split(): setattr(o, f, getattr(x, f))
    put(o.q, x.q); put(o.skbar, x.skbar); put(o.zkbar, x.zkbar)


@builder('pwork')
def _(ctx, c, name):
    w, o, P = make_pwork(ctx, solve=ctx.rng.random() < 0.3)
    randomise_pwork(ctx, w, o, P)
    return w


def BUILDERS_STATS(ctx, addr):
    r = ctx.rng; o = ctx.obj('stats', addr)
    for f in 'pcost dcost'.split(): setattr(o, f, ctx.real())
    for f in 'pres dres pinfres dinfres gap relgap mu kapovert sigma step step_aff'.split():
        setattr(o, f, r.choice([ctx.pos(), 1.0, 0.5, 2.0, 0.0, -1.0 if f == 'gap' else 0.25]))
    for f in ('pinfres', 'dinfres', 'relgap'):
        if r.random() < 0.4: setattr(o, f, float('nan'))


@builder('stats')
def _(ctx, c, name):
    a, o = ctx.struct('stats')
    BUILDERS_STATS(ctx, a)
    return a
