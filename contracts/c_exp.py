"""Contracts of the exponential cone module (expcone.c, wright_omega.c)."""
from lib import *
from c_cone import socres
import ctypes as ct
import math
import evalt


def _omega(x):
    """the Wright function on z >= 0 (w + log w = z), -1 elsewhere"""
    z, m = x
    if z != z: return (z, 0.0)
    if z < 0: return (-1.0, 1.0)
    w = z - math.log(z) if z > 2 else 0.567143290409784 + 0.4329 * z
    for _ in range(60):
        w = w - (w + math.log(w) - z) * w / (1 + w)
        if w <= 0: w = 1e-3
    return (w, abs(w) + m)


evalt.APPS['omega'] = _omega
log = lambda t: app('log', 'R', toreal(t))


@contract('wrightOmega', prove=False, tol=1e-7)
def _(c):
    z = c.real('z')
    c.hint('z', lambda ctx: ctx.rng.choice([ctx.rng.uniform(0, 1), ctx.rng.uniform(0, 6), 10 ** ctx.rng.uniform(-3, 6), -ctx.rng.random(), 1.0, 1 + math.pi]))
    c.returns(app('omega', 'R', z))


def dual_r(x, y, z): return z - x - x * log(-y / x)


def dual_point(c, w):
    """interior of the dual cone"""
    c.requires('a point inside the dual cone', and_(w[0] < 0, w[1] > 0, dual_r(w[0], w[1], w[2]) > 0))
    def pt(ctx, N=None):
        r = ctx.rng
        u = -10 ** r.uniform(-2, 2); v = 10 ** r.uniform(-2, 2)
        return [u, v, u + u * math.log(-v / u) + 10 ** r.uniform(-2, 2)]
    c.hint(w.path[:-2], pt)


@contract('evalExpGradient')
def _(c):
    w = c.arr('w', 3); g = c.arr('g', 3); dual_point(c, w)
    x, y, z = w[0], w[1], w[2]
    l = log(-y / x); r = dual_r(x, y, z)
    # derivatives of -log(r) - log(-x) - log(y)
    c.set(g[0], l / r - 1 / x)
    c.set(g[1], x / (y * r) - 1 / y)
    c.set(g[2], -1 / r)


@contract('evalExpHessian')
def _(c):
    w = c.arr('w', 3); v = c.arr('v', 6); mu = c.real('mu'); dual_point(c, w)
    x, y, z = w[0], w[1], w[2]
    l = log(-y / x); r = dual_r(x, y, z)
    H = [1 / (x * x) - 1 / (r * x) + l * l / (r * r),
         1 / (r * y) + l * x / (r * r * y),
         1 / (y * y) - x / (r * y * y) + x * x / (r * r * y * y),
         -l / (r * r), -x / (r * r * y), 1 / (r * r)]
    for i in range(6): c.set(v[i], mu * H[i])


@contract('evalBarrierValue', tol=1e-7)
def _(c):
    s = c.arr('siter'); z = c.arr('ziter'); fc = c.int('fc'); ne = c.int('nexc')
    c.extent(s, fc + 3 * ne); c.extent(z, fc + 3 * ne)
    c.requires('sizes', and_(fc >= 0, ne >= 0))
    S = lambda k, t: s[fc + 3 * k + t]
    Z = lambda k, t: z[fc + 3 * k + t]
    ins = lambda k: and_(S(k, 2) > 0, S(k, 1) > 0, S(k, 2) * log(S(k, 1) / S(k, 2)) - S(k, 0) > 0)
    c.hint('siter', lambda ctx, N: inside(ctx, N, False)); c.hint('ziter', lambda ctx, N: inside(ctx, N, True))

    c.returns(barrier_exp(S, Z, ne))


def barrier_exp(S, Z, ne):
    """sum of the barriers of the primal and dual exponential cones at the triples S(k, .) and Z(k, .)"""
    def dual(k):
        u, v, w = Z(k, 0), Z(k, 1), Z(k, 2)
        return -log(dual_r(u, v, w)) - log(-u) - log(v)

    def primal(k):
        x, y, t = S(k, 0), S(k, 1), S(k, 2)
        om = app('omega', 'R', 1 - x / t - log(t) + log(y))
        o = (om - 1) * (om - 1) / om
        return -log(o) - 2 * log(t) - log(y) - 3
    return sum_(0, ne, lambda k: dual(k) + primal(k))


def barrier_sym(K, s, z, tau, kap, D):
    inf = var('INF', 'R')
    res = lambda v, l: socres(lambda i: v[K.off(l) + i], K.C.soc[l].p)
    half = lambda t: ite(t <= 0, inf, R(0.5) * log(t))          # the guards are false on the interior
    return (-sum_(0, K.lp, lambda i: ite(or_(s[i] <= 0, z[i] <= 0), inf, log(s[i]) + log(z[i])))
            - ite(or_(tau <= 0, kap <= 0), inf, log(tau) + log(kap))
            - sum_(0, K.nsoc, lambda l: half(res(s, l))) - sum_(0, K.nsoc, lambda l: half(res(z, l))) - D - 1)


@contract('evalSymmetricBarrierValue', tol=1e-7)
def _(c):
    s = c.arr('siter'); z = c.arr('ziter'); tau = c.real('tauIter'); kap = c.real('kapIter')
    C = c.struct('C'); K = Cone(c, C); D = c.real('D')
    c.extent(s, K.m); c.extent(z, K.m)

    def point(ctx, N):
        T = ctx.lib.types
        o = T.struct('cone').from_address(ctx.args['C'])
        sz = ct.sizeof(T.struct('socone')); q = [T.struct('socone').from_address(ctypes_addr(o.soc) + k * sz).p for k in range(o.nsoc)]
        v = [ctx.pos() for _ in range(T.struct('lpcone').from_address(ctypes_addr(o.lpc)).p)]
        for p in q:
            t = ctx.rv(p - 1)
            v += [math.sqrt(sum(x * x for x in t)) + ctx.pos()] + t
        return v + ctx.rv(3 * o.nexc)
    c.hint('siter', point); c.hint('ziter', point)
    c.hint('tauIter', lambda ctx: ctx.pos()); c.hint('kapIter', lambda ctx: ctx.pos())
    c.returns(barrier_sym(K, s, z, tau, kap, D))


def ctypes_addr(p):
    return ct.cast(p, ct.c_void_p).value or 0


def inside(ctx, N, dual):
    import e2e_solve as S
    fc = ctx.args['fc']; ne = ctx.args['nexc']
    return ctx.rv(fc) + S.interior(ctx.rng, 0, [], ne, dual=dual)


@contract('scaleToAddExpcone')
def _(c):
    y = c.arr('y'); x = c.arr('x')
    t = c._next('arr')
    if t.kind != 'ptr' or t.to.name != 'expcone': raise ContractMismatch('parameter expc')
    c.params.append(('expc', 'arr', t))
    E = SArr(c, 'expc[]', (), t.to)
    ne = c.int('nexc'); fc = c.int('fc')
    c.ext['expc[]'] = lambda: ne
    c.ext['expc[].v[]'] = lambda l: I(6); c.ext['expc[].g[]'] = lambda l: I(3); c.ext['expc[].colstart[]'] = lambda l: I(3)
    c.extent(x, fc + 3 * ne); c.extent(y, fc + 3 * ne)
    c.requires('sizes', and_(fc >= 0, ne >= 0))
    H = [[0, 1, 3], [1, 2, 4], [3, 4, 5]]
    c.setmap(y, [ne, 3], lambda l, t: (fc + 3 * l + t, y[fc + 3 * l + t] + pick(t, [sum((E[l].v[H[a][s]] * x[fc + 3 * l + s] for s in range(3)), ZR) for a in range(3)])))

    def mk(ctx):
        import ctypes as ct
        r = ctx.rng
        ne = r.randint(0, 3); ctx.args['nexc'] = ne; ctx.args['fc'] = r.randint(0, 4)
        T = ctx.lib.types.struct('expcone'); sz = ct.sizeof(T)
        base = ctx.malloc(sz * ne); ctx.args['expc'] = base
        for k in range(ne):
            e = T.from_address(base + k * sz); e.v[:] = ctx.rv(6); e.g[:] = ctx.rv(3)
    c.make(mk)


def pick(t, l):
    r = l[-1]
    for i in range(len(l) - 2, -1, -1): r = ite(eq(t, I(i)), l[i], r)
    return r


def feas(c, s, ne, dual):
    X = lambda j, t: s[3 * j + t]
    def ok(j):
        if dual: return and_(X(j, 0) <= 0, X(j, 1) >= 0, dual_r(X(j, 0), X(j, 1), X(j, 2)) >= 0)
        return and_(X(j, 1) >= 0, X(j, 2) >= 0, X(j, 2) * log(X(j, 1) / X(j, 2)) - X(j, 0) >= 0)
    c.returns(b2i(forall(0, ne, ok)))

    def pts(ctx, N):
        import e2e_solve as S
        r = ctx.rng
        v = []
        for _ in range(N // 3):
            b = S.interior(r, 0, [], 1, dual=dual)
            k = r.random()
            if k < 0.25:
                i = r.randrange(3); b[i] += r.choice([-1, 1]) * r.uniform(0.05, 3)
            elif k < 0.3: b = ctx.rv(3)
            v += [t or 0.5 for t in b]      # off the boundary, where the test divides by zero
        return v
    c.hint(s.path[:-2], pts)
    c.hint('nexc', [0, 1, 1, 2, 3, 4])


@contract('evalExpPrimalFeas')
def _(c):
    s = c.arr('s'); ne = c.int('nexc'); c.extent(s, 3 * ne)
    c.requires('sizes', ne >= 0)
    feas(c, s, ne, False)


@contract('evalExpDualFeas')
def _(c):
    s = c.arr('z'); ne = c.int('nexc'); c.extent(s, 3 * ne)
    c.requires('sizes', ne >= 0)
    feas(c, s, ne, True)


@contract('expConeLineSearch', tol=1e-6)
def _(c):
    w = c.struct('w'); W = Work(c, w, matrices=False); K = W.K; C = w.C; KK = w.KKT
    dt = c.real('dtau'); dk = c.real('dkappa'); aff = c.int('affine')
    c.requires('there is an exponential cone', K.nexc >= 1)
    c.requires('step reduction', and_(w.stgs.gamma > 0, w.stgs.bk_scale >= 0, w.stgs.bk_scale <= 1, w.info.step >= 0, w.info.step_aff >= 0, w.D >= 0))
    r = c.result(); g = w.stgs.gamma
    for a in (KK.work1, KK.work2): c.havoc(a)
    for f in 'pob cb cob pb db centrality'.split(): c.havoc(getattr(w.info, f))
    W1 = c.prime(KK.work1); W2 = c.prime(KK.work2); fe = C.fexv
    ok = not_(r.eq(-1))
    c.ensures('the primal trial point is the step taken', implies(ok, forall(0, w.m, lambda j: (g * W1[j]).eq(g * w.s[j] + r * w.dsaff[j]))))
    c.ensures('the dual trial point is the step taken', implies(ok, forall(0, w.m, lambda j: (g * W2[j]).eq(g * w.z[j] + r * KK.dz2[j]))))
    S = lambda k, t: W1[fe + 3 * k + t]
    Z = lambda k, t: W2[fe + 3 * k + t]
    c.ensures('the trial point is in the primal exponential cones', implies(ok, forall(0, K.nexc, lambda k: and_(S(k, 1) >= 0, S(k, 2) >= 0, S(k, 2) * log(S(k, 1) / S(k, 2)) - S(k, 0) >= 0))))
    c.ensures('the trial point is in the dual exponential cones', implies(ok, forall(0, K.nexc, lambda k: and_(Z(k, 0) <= 0, Z(k, 1) >= 0, dual_r(Z(k, 0), Z(k, 1), Z(k, 2)) >= 0))))
    c.ensures('the trial point is central', implies(ok, c.prime(w.info.centrality) < w.stgs.centrality))
    a = r / g
    mu = (sum_(0, w.m, lambda j: W1[j] * W2[j]) + (w.tau + a * dt) * (w.kap + a * dk)) / toreal(w.D + 1)
    mui = lambda k: (S(k, 0) * Z(k, 0) + S(k, 1) * Z(k, 1) + S(k, 2) * Z(k, 2)) / R(3)
    d1 = toreal(w.D + 1)
    val = barrier_exp(S, Z, K.nexc) + barrier_sym(K, W1, W2, w.tau + a * dt, w.kap + a * dk, toreal(w.D)) + d1 * log(mu) + d1
    c.ensures('the distance to the central path at the trial point is within its limit', implies(ok, val < w.stgs.centrality))
    c.bounded('no exponential cone is much', 'the step is', 'the distance to the central path')
    c.ensures('no exponential cone is much closer to complementarity', implies(ok, forall(0, K.nexc, lambda k: mui(k) > R(0.1) * mu)))
    c.ensures('the step is at most the symmetric step', implies(ok, r <= g * ite(aff.eq(1), w.info.step_aff, w.info.step)))
    c.ensures('the step is not negative', implies(ok, r >= 0))

    def mk(ctx):
        import builders as B, e2e_solve as ES
        r = ctx.rng; T = ctx.lib.types
        wa, o, P = B.make_pwork(ctx, expo=r.choice([1, 2, 3]))
        B.randomise_pwork(ctx, wa, o, P)
        ctx.args.update(w=wa, affine=r.choice([0, 1]), dtau=r.uniform(-1, 1) * o.tau, dkappa=r.uniform(-1, 1) * o.kap)
        KT = T.struct('kkt').from_address(o.KKT)
        if r.random() < 0.3: sv, zv = ES.interior(r, P.l, P.q, P.ne), ES.interior(r, P.l, P.q, P.ne, dual=True)
        else:
            ray = [-1.051383945322714, 1.258967884768947, 0.556409619469370]
            unit = [1.0] * P.l + [x for q in P.q for x in [1.0] + [0.0] * (q - 1)] + ray * P.ne
            sv = list(unit); zv = list(unit); o.tau = o.kap = 1.0
        g = 10 ** r.uniform(-2, 1)
        B.put(o.s, sv); B.put(o.z, zv)
        B.put(o.dsaff, [g * r.gauss(0, 1) for _ in sv]); B.put(KT.dz2, [g * r.gauss(0, 1) for _ in zv])
        I = T.struct('stats').from_address(o.info); I.step = r.uniform(0.01, 1); I.step_aff = r.uniform(0.01, 1)
        if r.random() < 0.3: T.struct('settings').from_address(o.stgs).centrality = r.uniform(0, 5)
    c.make(mk)
