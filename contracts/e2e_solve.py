"""End-to-end scenarios on the public solver interface (bounded: small random conic programs)."""
import ctypes as ct, math
from concrete import libc
from e2e import scenario, Fail, Skip

NAN = float('nan')
OPT, PINF, DINF, INACC, MAXIT, NUM, OUT, SIGINT, FATAL = 0, 1, 2, 10, -1, -2, -3, -4, -7


# ------------------------------------------------------------------ small dense/sparse helpers
def matvec(M, x): return [sum(a * b for a, b in zip(r, x)) for r in M]
def tmatvec(M, y, n):
    return [sum(M[i][j] * y[i] for i in range(len(M))) for j in range(n)]
def norm(v): return math.sqrt(sum(a * a for a in v))
def dot(a, b): return sum(x * y for x, y in zip(a, b))


def csc(M, n):
    jc = [0]; ir = []; pr = []
    for j in range(n):
        for i in range(len(M)):
            if M[i][j] != 0: ir.append(i); pr.append(M[i][j])
        jc.append(len(ir))
    return jc, ir, pr


class Prob:
    def __init__(self, n, l, q, ne, G, h, A, b, c):
        self.n = n; self.l = l; self.q = q; self.ne = ne; self.G = G; self.h = h; self.A = A; self.b = b; self.c = c
        self.m = l + sum(q) + 3 * ne; self.p = len(b)

    def show(self):
        return ['n=%d l=%d q=%s nexc=%d p=%d' % (self.n, self.l, self.q, self.ne, self.p), 'G=%r' % self.G, 'h=%r' % self.h, 'A=%r' % self.A, 'b=%r' % self.b, 'c=%r' % self.c]


def arr(v, ty=ct.c_double):
    n = len(v)
    a = libc.malloc(max(1, n * 8))
    (ty * n).from_address(a)[:] = v
    return a


ARR = arr


def getv(a, n): return list((ct.c_double * n).from_address(a)) if n else []
def geti(a, n): return list((ct.c_long * n).from_address(a)) if n else []


class Run:
    """one workspace over freshly allocated user arrays"""
    def __init__(self, lib, P, double=0):
        # double: allocate two adjacent copies of every real array (1: the second one follows, 2: it precedes)
        self.lib = lib; self.P = P; self.double = double; self.blocks = []
        def mk(v, ty=ct.c_double):
            if not double or ty is not ct.c_double or not len(v): a = ARR(v, ty); self.blocks.append(a); return a
            a = ARR(list(v) * 2); self.blocks.append(a)
            return a + (8 * len(v) if double == 2 else 0)
        d = lib.dll
        self.setup_fn = d.ECOS_setup; self.setup_fn.restype = ct.c_void_p
        self.setup_fn.argtypes = [ct.c_long] * 5 + [ct.c_void_p, ct.c_long] + [ct.c_void_p] * 9
        self.solve_fn = d.ECOS_solve; self.solve_fn.restype = ct.c_long; self.solve_fn.argtypes = [ct.c_void_p]
        self.clean_fn = d.ECOS_cleanup; self.clean_fn.restype = None; self.clean_fn.argtypes = [ct.c_void_p, ct.c_long]
        gjc, gir, gpr = csc(P.G, P.n); ajc, air, apr = csc(P.A, P.n)
        L = ct.c_long
        self.gnz = len(gir); self.anz = len(air)
        self.user = dict(Gpr=(mk(gpr), gpr), Gjc=(mk(gjc, L), gjc), Gir=(mk(gir, L), gir), c=(mk(P.c), list(P.c)), h=(mk(P.h), list(P.h)),
                         q=(mk(P.q, L), list(P.q)))
        if P.p: self.user.update(Apr=(mk(apr), apr), Ajc=(mk(ajc, L), ajc), Air=(mk(air, L), air), b=(mk(P.b), list(P.b)))
        self.w = None

    def a(self, k): return self.user[k][0] if k in self.user else None

    def setup(self, verbose=0, **stg):
        P = self.P
        self.w = self.setup_fn(P.n, P.m, P.p, P.l, len(P.q), self.a('q'), P.ne, self.a('Gpr'), self.a('Gjc'), self.a('Gir'),
                               self.a('Apr'), self.a('Ajc'), self.a('Air'), self.a('c'), self.a('h'), self.a('b'))
        if not self.w: return False
        self.pw = self.lib.types.struct('pwork').from_address(self.w)
        self.st = self.lib.types.struct('settings').from_address(self.pw.stgs)
        self.st.verbose = verbose
        for k, v in stg.items(): setattr(self.st, k, v)
        self.info = self.lib.types.struct('stats').from_address(self.pw.info)
        return True

    def solve(self):
        self.flag = self.solve_fn(self.w)
        P = self.P; w = self.pw
        self.x = getv(w.x, P.n); self.y = getv(w.y, P.p); self.z = getv(w.z, P.m); self.s = getv(w.s, P.m)
        return self.flag

    def cleanup(self, keep=0):
        w = self.pw
        kept = []
        if keep >= 1: kept.append(w.x)
        if keep >= 2: kept.append(w.y)
        if keep >= 3: kept.append(w.s)
        if keep >= 4: kept.append(w.z)
        self.clean_fn(self.w, keep); self.w = None
        return kept

    def free(self):
        for a in self.blocks: libc.free(a)

    def second(self, k):
        if k not in self.user: return None
        a, v = self.user[k]
        return a + (8 if self.double == 1 else -8) * len(v)

    def userdata(self):
        """(name, now, originally)"""
        for k, (a, v) in self.user.items():
            now = getv(a, len(v)) if k in ('Gpr', 'Apr', 'c', 'h', 'b') else geti(a, len(v))
            yield k, now, v


# ------------------------------------------------------------------ cones
def soc_margin(v): return v[0] - norm(v[1:])


def exp_primal(v):
    """violation of  closure{ x3 exp(x1/x3) <= x2 } (ECOS ordering: s = (x1, x2, x3)), 0 when inside"""
    x, y, zz = v
    if zz > 1e-12:
        t = x / zz
        if t > 600: return INFTY
        return max(0.0, zz * math.exp(t) - y) if y > 0 or True else 0
    return max(0.0, x, -y, -zz)


INFTY = float('inf')


def blocks(P, v):
    o = P.l
    for p in P.q:
        yield 'soc', v[o:o + p]; o += p
    for _ in range(P.ne):
        yield 'exp', v[o:o + 3]; o += 3


def cone_violation(P, s, dual=False, wild=False, extra=0.0):
    """largest violation of s in K (dual: K*) relative to the size of the block (without any conditioning: of the vector)"""
    bad = 0.0
    if wild:
        bad = max([-a for a in s[:P.l]] + [0.0])
        for k, b in blocks(P, s): bad = max(bad, -soc_margin(b))
        return bad / (1 + norm(s) + extra)
    for i in range(P.l): bad = max(bad, -s[i] / (1 + abs(s[i]) + extra))
    for k, b in blocks(P, s):
        if k == 'soc': bad = max(bad, -soc_margin(b) / (1 + norm(b) + extra))
        elif not dual: bad = max(bad, expdist(b))
        else: bad = max(bad, expdualdist(b))
    return bad


def expdist(v):
    """K_exp = cl{(x,y,z): y,z>0, y*exp(x/y) <= z}: ECOS orders a block as (x, z, y)"""
    x, z, y = v
    sc = 1 + norm(v)
    if y > 1e-9 * sc:
        if x / y > 500: return 1.0
        return max(0.0, (y * math.exp(x / y) - z) / (sc + z))
    return max(0.0, -y / sc, -z / sc, (x / sc) if y <= 0 else 0.0)


def expdualdist(v):
    """dual of K_exp in the same ordering: (u, w, v) with u<0, -u exp(v/u) <= e w"""
    u, w, vv = v
    sc = 1 + norm(v)
    if u < -1e-9 * sc:
        if vv / u > 500: return 1.0
        return max(0.0, (-u * math.exp(vv / u) - math.e * w) / (sc + abs(w)))
    return max(0.0, u / sc, -w / sc, -vv / sc)


# ------------------------------------------------------------------ generators
def sparse(r, m, n, dens):
    return [[(r.choice([r.gauss(0, 1), float(r.randint(-3, 3))]) if r.random() < dens else 0.0) for _ in range(n)] for _ in range(m)]


def interior(r, l, q, ne, dual=False):
    v = [r.uniform(0.2, 3) for _ in range(l)]
    for p in q:
        t = [r.gauss(0, 1) for _ in range(p - 1)]
        v += [norm(t) + r.uniform(0.2, 2)] + t
    for _ in range(ne):
        if not dual:
            y = r.uniform(0.3, 2); x = r.uniform(-1.5, 1.5); v += [x, y * math.exp(x / y) + r.uniform(0.2, 1.5), y]
        else:
            u = -r.uniform(0.3, 2); t = r.uniform(-1.5, 1.5); v += [u, -u * math.exp(t / u) / math.e + r.uniform(0.2, 1.5), t]
    return v


def ensure_cols(r, G, A, n):
    """no column without entries in G (a user error for ECOS is fine, but keeps problems well posed)"""
    for j in range(n):
        if not any(row[j] for row in G):
            G[r.randrange(len(G))][j] = r.choice([-1.0, 1.0, 2.0])


def gen_feasible(r, ne=None, size=None, eq=None):
    """strictly primal and dual feasible"""
    n = r.randint(1, size or 6)
    l = r.randint(0, 5); q = [r.randint(1, 5) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
    if ne is None: ne = 0
    m = l + sum(q) + 3 * ne
    while m < n + 1: l += 1; m += 1
    p = r.randint(0, max(0, n - 1)) if r.random() < 0.6 else 0
    if eq is not None: p = min(eq, max(0, n - 1))
    dens = r.choice([0.5, 0.8, 1.0])
    G = sparse(r, m, n, dens); A = sparse(r, p, n, dens)
    for row in A:
        if not any(row): row[r.randrange(n)] = 1.0
    ensure_cols(r, G, A, n)
    x0 = [r.gauss(0, 1) for _ in range(n)]
    s0 = interior(r, l, q, ne); z0 = interior(r, l, q, ne, dual=True); y0 = [r.gauss(0, 1) for _ in range(p)]
    h = [a + b for a, b in zip(matvec(G, x0), s0)]
    b = matvec(A, x0)
    c = [-(u + v) for u, v in zip(tmatvec(G, z0, n), tmatvec(A, y0, n) if p else [0.0] * n)]
    if r.random() < 0.3: scale_problem(r, G, h, A, b, c)
    P = Prob(n, l, q, ne, G, h, A, b, c)
    return P


def scale_problem(r, G, h, A, b, c):
    """moderately badly scaled data"""
    for i in range(len(A)):
        f = 10.0 ** r.randint(-2, 2)
        A[i] = [f * a for a in A[i]]; b[i] *= f


def gen_pinf(r, ne=0):
    """primal infeasible with a strong certificate z in int K*, G'z + A'y = 0, h'z + b'y < 0"""
    P = gen_feasible(r, ne=ne)
    z = interior(r, P.l, P.q, P.ne, dual=True); y = [r.gauss(0, 1) for _ in range(P.p)]
    # make the columns of [G;A] orthogonal to (z,y) by adjusting the row of the largest z
    k = max(range(P.m), key=lambda i: abs(z[i]))
    for j in range(P.n):
        t = sum(P.G[i][j] * z[i] for i in range(P.m) if i != k) + sum(P.A[i][j] * y[i] for i in range(P.p))
        P.G[k][j] = -t / z[k]
    cur = dot(P.h, z) + dot(P.b, y)
    want = -(1 + r.random())
    P.h[k] += (want - cur) / z[k]
    return P


def gen_dinf(r, ne=0):
    """dual infeasible: direction d with -G d in int K, A d = 0, c'd < 0, and a feasible point"""
    P = gen_feasible(r, ne=ne)
    d = [r.choice([-1.0, 1.0]) * r.uniform(0.5, 2) for _ in range(P.n)]
    s = interior(r, P.l, P.q, P.ne)
    j = max(range(P.n), key=lambda i: abs(d[i]))
    x0 = [r.gauss(0, 1) for _ in range(P.n)]
    for i in range(P.m):
        t = sum(P.G[i][k] * d[k] for k in range(P.n) if k != j)
        P.G[i][j] = (-s[i] - t) / d[j]
    for i in range(P.p):
        t = sum(P.A[i][k] * d[k] for k in range(P.n) if k != j)
        P.A[i][j] = -t / d[j]
        if not any(P.A[i]): raise Skip('empty row')
    P.h = [a + b for a, b in zip(matvec(P.G, x0), interior(r, P.l, P.q, P.ne))]
    P.b = matvec(P.A, x0) if P.p else []
    cur = dot(P.c, d); P.c[j] += (-(1 + r.random()) - cur) / d[j]
    return P


def gen_any(r, ne=None):
    P = gen_any_(r, ne); P.wild = getattr(P, 'wild', False)
    return P


def gen_any_(r, ne=None):
    k = r.random()
    if ne is None: ne = r.choice([0, 0, 0, 1, 2])
    if k < 0.5: return gen_feasible(r, ne=ne)
    if k < 0.7: return gen_pinf(r, ne=ne)
    if k < 0.9: return gen_dinf(r, ne=ne)
    return gen_wild(r)


def gen_wild(r):
    """no guarantees at all: degenerate, badly scaled, maybe neither feasible nor infeasible"""
    n = r.randint(1, 5); l = r.randint(0, 4); q = [r.randint(1, 4) for _ in range(r.randint(0, 2))]
    m = l + sum(q)
    if m == 0: l = m = 1
    p = r.randint(0, max(0, n - 1))
    G = sparse(r, m, n, 0.7); A = sparse(r, p, n, 0.8)
    for M in (G, A):
        for row in M:
            f = 10.0 ** r.randint(-6, 6)
            for j in range(n): row[j] *= f
    for row in A:
        if not any(row): row[r.randrange(n)] = 1.0
    if not any(any(x for x in row) for row in G): G[0][0] = 1.0
    f = 10.0 ** r.randint(-8, 8)
    P = Prob(n, l, q, 0, G, [r.gauss(0, 1) * f for _ in range(m)], A, [r.gauss(0, 1) for _ in range(p)], [r.gauss(0, 1) * 10.0 ** r.randint(-8, 8) for _ in range(n)])
    P.wild = True
    return P


# ------------------------------------------------------------------ oracles
def check_certificate(P, R, st, info, factor=50.0, wild=False):
    """the verdict of the solver is backed by the returned point, on the user's data"""
    f = R.flag
    x, y, z, s = R.x, R.y, R.z, R.s
    base = f - INACC if f >= INACC else f
    inacc = f >= INACC
    feastol = st['feastol_inacc'] if inacc else st['feastol']
    abstol = st['abstol_inacc'] if inacc else st['abstol']
    reltol = st['reltol_inacc'] if inacc else st['reltol']
    sh = P.show() + ['exit %d' % f, 'x=%r' % x, 'y=%r' % y, 'z=%r' % z, 's=%r' % s]
    F = lambda lab, det: Fail(lab, det, sh)
    for nm, v in (('x', x), ('y', y), ('z', z), ('s', s)):
        if f in (OPT, PINF, DINF, OPT + INACC, PINF + INACC, DINF + INACC) and any(t != t or math.isinf(t) for t in v):
            raise F('the returned point is finite', '%s contains non-finite values' % nm)
    if base in (OPT, PINF, DINF): check_scaled(P, R, st, info, sh)
    if wild: factor = INFTY
    n = P.n
    Gx = matvec(P.G, x); Ax = matvec(P.A, x) if P.p else []
    Atz = [a + b for a, b in zip(tmatvec(P.G, z, n), tmatvec(P.A, y, n) if P.p else [0.0] * n)]
    # sizes of the products, so that cancellation is not mistaken for a violation
    big = lambda M, v: [sum(abs(a * t) for a, t in zip(row, v)) for row in M]
    tb = [sum(abs(P.G[i][j] * z[i]) for i in range(P.m)) + sum(abs(P.A[i][j] * y[i]) for i in range(P.p)) for j in range(n)]
    if base == OPT:
        rz = max([abs(g + t - u) / (1 + abs(u) + abs(t) + bb) for g, t, u, bb in zip(Gx, s, P.h, big(P.G, x))] + [0.0])
        ry = max([abs(a - u) / (1 + abs(u) + bb) for a, u, bb in zip(Ax, P.b, big(P.A, x))] + [0.0])
        rx = max([abs(a + u) / (1 + abs(u) + bb) for a, u, bb in zip(Atz, P.c, tb)] + [0.0])
        tol = max(feastol, 1e-11) * factor
        if rz > tol: raise F('optimal: the conic equations hold', 'relative residual of Gx+s=h is %.3g' % rz)
        if ry > tol: raise F('optimal: the equality constraints hold', 'relative residual of Ax=b is %.3g' % ry)
        if rx > tol: raise F('optimal: the dual equations hold', 'relative residual of A\'y+G\'z+c=0 is %.3g' % rx)
        pc = dot(P.c, x); dc = -dot(P.h, z) - dot(P.b, y)
        gap = dot(s, z)
        mag = 1 + sum(abs(a * b) for a, b in zip(P.c, x)) + sum(abs(a * b) for a, b in zip(P.h, z)) + sum(abs(a * b) for a, b in zip(P.b, y))
        abst = abstol / min(1.0, R.pw.tau) ** 2      # the solver compares s'z before the division by tau^2 with abstol
        slack = (1 + norm(P.c) + norm(y) + norm(z)) * norm(x) + (1 + norm(P.b) + norm(P.h) + norm(x) + norm(s)) * (norm(y) + norm(z))
        if abs(pc - dc) > factor * max(abst, reltol * mag, feastol * mag, 10 * feastol * slack): raise F('optimal: the duality gap is closed', 'primal cost %.9g, dual cost %.9g' % (pc, dc))
        if abs(info.pcost - pc) > 1e-6 * mag: raise F('optimal: the reported primal cost is that of the returned point', 'reported %.12g, actual %.12g' % (info.pcost, pc))
        if abs(info.dcost - dc) > 1e-6 * mag: raise F('optimal: the reported dual cost is that of the returned point', 'reported %.12g, actual %.12g' % (info.dcost, dc))
        if gap > factor * max(abst, reltol * mag, feastol * mag, 10 * feastol * slack): raise F('optimal: complementarity', "s'z = %.3g" % gap)
    if base in (OPT, DINF):
        v = cone_violation(P, s, wild=wild, extra=max(big(P.G, x) + [0.0]) if base == DINF else 0.0)
        if v > (50 * feastol if wild and inacc else 1e-7): raise F('the slacks lie in the cone', 'violation %.3g' % v)
    if base in (OPT, PINF):
        v = cone_violation(P, z, dual=True, wild=wild)
        if v > (50 * feastol if wild and inacc else 1e-7): raise F('the multipliers lie in the dual cone', 'violation %.3g' % v)
    if base == PINF:
        t = dot(P.h, z) + dot(P.b, y)
        if not t < 0: raise F('infeasible: the certificate has a negative value', "h'z+b'y = %.6g" % t)
        res = max([abs(a) for a in Atz] + [0.0]); mag = max(tb + [0.0])
        nyz = norm(y) + norm(z)
        if res > factor * feastol * max(mag, nyz): raise F('infeasible: the certificate annihilates the constraints', "|A'y+G'z| = %.3g against %.3g" % (res, mag))
        if not (info.pinf == 1 and info.dinf == 0): raise F('infeasible: flags', 'pinf=%g dinf=%g' % (info.pinf, info.dinf))
    if base == DINF:
        t = dot(P.c, x)
        if not t < 0: raise F('unbounded: the ray has negative cost', "c'x = %.6g" % t)
        r1 = max([abs(a + u) / 1.0 for a, u in zip(Gx, s)] + [0.0]); r2 = max([abs(a) for a in Ax] + [0.0])
        nx = norm(x) + norm(s)
        mg = max(big(P.G, x) + big(P.A, x) + [nx])
        if max(r1, r2) > factor * feastol * mg: raise F('unbounded: the ray is feasible', '|Gx+s| = %.3g, |Ax| = %.3g against %.3g' % (r1, r2, mg))
        if not (info.dinf == 1 and info.pinf == 0): raise F('unbounded: flags', 'pinf=%g dinf=%g' % (info.pinf, info.dinf))
    return 8


def scaled(P, R):
    """residual measures of the returned point in the solver's own (equilibrated) norms, recomputed from the user's data"""
    w = R.pw; n, m, p = P.n, P.m, P.p
    xe = getv(w.xequil, n); Ae = getv(w.Aequil, p); Ge = getv(w.Gequil, m)
    tau = w.tau; kap = w.kap
    G = [[P.G[i][j] / Ge[i] / xe[j] for j in range(n)] for i in range(m)]
    A = [[P.A[i][j] / Ae[i] / xe[j] for j in range(n)] for i in range(p)]
    h = [a / e for a, e in zip(P.h, Ge)]; b = [a / e for a, e in zip(P.b, Ae)]; c = [a / e for a, e in zip(P.c, xe)]
    x = [a * e * tau for a, e in zip(R.x, xe)]; y = [a * e * tau for a, e in zip(R.y, Ae)]
    z = [a * e * tau for a, e in zip(R.z, Ge)]; s = [a / e * tau for a, e in zip(R.s, Ge)]
    o = lambda v: norm(v)
    hry = matvec(A, x) if p else []; hrz = [a + t for a, t in zip(matvec(G, x), s)]
    hrx = [a + t for a, t in zip(tmatvec(G, z, n), tmatvec(A, y, n) if p else [0.0] * n)]
    ry = [a - tau * t for a, t in zip(hry, b)]; rz = [a - tau * t for a, t in zip(hrz, h)]; rx = [a + tau * t for a, t in zip(hrx, c)]
    nx, ny, nz, ns = o(x), o(y), o(z), o(s)
    rx0, ry0, rz0 = max(1, o(c)), max(1, o(b)), max(1, o(h))
    d = dict(tau=tau, kap=kap)
    d['pres'] = max(o(ry) / max(ry0 + nx, 1) if p else 0.0, o(rz) / max(rz0 + nx + ns, 1)) / tau
    d['dres'] = o(rx) / max(rx0 + ny + nz, 1) / tau
    d['cx'] = dot(c, x); d['by'] = dot(b, y); d['hz'] = dot(h, z); d['gap'] = dot(s, z)
    fro = lambda M: math.sqrt(sum(t * t for r_ in M for t in r_))
    eps = 1e-14 * (n + m + p)
    # rounding in the recomputation
    d['epres'] = eps * max((fro(A) * nx + tau * o(b)) / max(ry0 + nx, 1), (fro(G) * nx + ns + tau * o(h)) / max(rz0 + nx + ns, 1)) / tau
    d['edres'] = eps * (fro(G) * nz + fro(A) * ny + tau * o(c)) / max(rx0 + ny + nz, 1) / tau
    d['pinfabs'] = o(hrx); d['epinf'] = eps * (fro(G) * nz + fro(A) * ny)
    d['dinfabs'] = (o(hry), o(hrz)); d['edinf'] = eps * max(fro(A) * nx, fro(G) * nx + ns)
    d['nx'], d['ny'], d['nz'], d['ns'] = nx, ny, nz, ns
    d['pc'] = d['cx'] / tau; d['dc'] = -(d['hz'] + d['by']) / tau
    return d


def check_scaled(P, R, st, info, sh):
    f = R.flag
    base = f - INACC if f >= INACC else f; inacc = f >= INACC
    t = lambda k: st[k + '_inacc'] if inacc else st[k]
    d = scaled(P, R)
    if base == OPT:
        for k in ('pres', 'dres'):
            if not d[k] <= t('feastol') * 1.001 + d['e' + k]: raise Fail('optimal: residuals within the tolerance', '%s is %.6g, tolerance %.3g' % (k, d[k], t('feastol')), sh)
        gap = d['gap']; rel = gap / -d['pc'] if d['pc'] < 0 else gap / d['dc'] if d['dc'] > 0 else INFTY
        if not (gap <= t('abstol') * 1.001 + 1e-300 or rel <= t('reltol') * 1.001): raise Fail('optimal: gap within the tolerance', 'gap %.6g, relative %.6g' % (gap, rel), sh)
    if base == PINF:
        nn = d['ny'] + d['nz']
        if not d['pinfabs'] <= t('feastol') * nn * 1.001 + d['epinf']: raise Fail('infeasible: the certificate is accurate', 'residual %.3g for a certificate of size %.3g' % (d['pinfabs'], nn), sh)
        if not d['hz'] + d['by'] < 0: raise Fail('infeasible: the certificate has a negative value', "h'z+b'y = %.6g" % (d['hz'] + d['by']), sh)
    if base == DINF:
        a, b = d['dinfabs']
        if not (a <= t('feastol') * d['nx'] * 1.001 + d['edinf'] and b <= t('feastol') * (d['nx'] + d['ns']) * 1.001 + d['edinf']):
            raise Fail('unbounded: the ray is accurate', 'residuals %.3g, %.3g for a ray of size %.3g' % (a, b, d['nx']), sh)
        if not d['cx'] < 0: raise Fail('unbounded: the ray has negative cost', "c'x = %.6g" % d['cx'], sh)
    return 4


def settings(r):
    st = {}
    if r.random() < 0.25: st['maxit'] = r.choice([0, 1, 2, 3, 5, 8])
    if r.random() < 0.15: st['nitref'] = r.choice([0, 1, 3])
    if r.random() < 0.15: st.update(feastol=1e-6, abstol=1e-6, reltol=1e-6)
    if r.random() < 0.1: st.update(feastol=1e-13, abstol=1e-13, reltol=1e-13)
    if r.random() < 0.1: st.update(feastol_inacc=1e-3, abstol_inacc=1e-3, reltol_inacc=1e-3)
    return st


def read_settings(R):
    return {k: getattr(R.st, k) for k in ('feastol', 'abstol', 'reltol', 'feastol_inacc', 'abstol_inacc', 'reltol_inacc', 'maxit', 'nitref')}


def check_userdata(R, when, exact=()):
    for k, now, was in R.userdata():
        for i, (a, b) in enumerate(zip(now, was)):
            if not (a == b or abs(a - b) <= 4e-15 * abs(b)):
                raise Fail('user data are as supplied ' + when, '%s[%d] is %r, was %r (exit %s)' % (k, i, a, b, getattr(R, 'flag', '-')), R.P.show())


def with_run(lib, P, body, **stg):
    R = Run(lib, P)
    try:
        if not R.setup(**stg): raise Fail('a well-formed problem is accepted', 'setup returned NULL', P.show())
        return body(R)
    finally:
        if R.w: R.cleanup(0)
        R.free()


@scenario('certificates')
def _(lib, r):
    """whatever the solver says, the returned point proves it"""
    P = gen_any(r); st = settings(r)

    def body(R):
        S = read_settings(R)
        f = R.solve()
        if f not in (0, 1, 2, 10, 11, 12, -1, -2, -3): raise Fail('documented exit code', 'exit code %d' % f, P.show())
        n = check_certificate(P, R, S, R.info, wild=P.wild)
        if R.info.iter > S['maxit'] or R.info.iter < 0: raise Fail('iteration limit', '%d iterations with maxit=%d' % (R.info.iter, S['maxit']), P.show())
        for k in ('nitref1', 'nitref2', 'nitref3'):
            v = getattr(R.info, k)
            if v > S['nitref'] and R.info.iter > 0: raise Fail('refinement limit', '%s=%d with nitref=%d' % (k, v, S['nitref']), P.show())
        R.cleanup(0)
        check_userdata(R, 'after cleanup')
        return n + 5
    return with_run(lib, P, body, **st)


@scenario('solvable')
def _(lib, r):
    """strictly feasible problems are solved (almost always: 3 numerical failures in 20 are tolerated) and never declared
    infeasible; strongly infeasible or unbounded ones are never declared solved"""
    hard = 0
    for _ in range(20):
        k = r.random(); ne = r.choice([0, 0, 0, 1])
        try: P = gen_feasible(r, ne=ne) if k < 0.6 else gen_pinf(r, ne=0) if k < 0.8 else gen_dinf(r, ne=0)
        except Skip: continue
        kind = 'feasible' if k < 0.6 else 'infeasible' if k < 0.8 else 'unbounded'
        good = {'feasible': (OPT, OPT + INACC), 'infeasible': (PINF, PINF + INACC, DINF, DINF + INACC), 'unbounded': (DINF, DINF + INACC)}[kind]
        wrong = {'feasible': (PINF, DINF, PINF + INACC, DINF + INACC), 'infeasible': (OPT, OPT + INACC), 'unbounded': (OPT, PINF, OPT + INACC, PINF + INACC)}[kind]

        def body(R):
            f = R.solve()
            if f in wrong: raise Fail('well-posed problems get the right verdict', 'exit %d for a %s problem' % (f, kind), P.show())
            return f
        f = with_run(lib, P, body)
        if f not in good: hard += 1
    if hard > 3: raise Fail('well-posed problems are solved', '%d of 20 well-posed problems ended without a verdict' % hard, [])
    return 20


@scenario('userdata')
def _(lib, r):
    """the caller's arrays: intact after setup+cleanup, solve (repeated) +cleanup, for any exit"""
    P = gen_wild(r) if r.random() < 0.5 else gen_any(r)

    def body(R):
        k = r.choice([0, 1, 1, 2])
        for _ in range(k): R.solve()
        if k:
            w = R.pw
            for nm, a in (('c', w.c),):
                for i, (u, v) in enumerate(zip(getv(a, P.n), P.c)):
                    if abs(u - v) > 4e-15 * abs(v): raise Fail('the cost vector is as supplied after solve', 'c[%d] is %r, was %r (exit %d)' % (i, u, v, R.flag), P.show())
        R.cleanup(0)
        check_userdata(R, 'after cleanup')
        return 4
    return with_run(lib, P, body, **settings(r))


@scenario('repeat')
def _(lib, r):
    """solving twice, and solving a copy with permuted constraints, gives the same verdict and cost"""
    P = gen_feasible(r, ne=0)

    def body(R):
        f = R.solve(); x1 = list(R.x); p1 = R.info.pcost; it1 = R.info.iter
        g = R.solve()
        if f != g or R.info.iter != it1: raise Fail('a second solve of the same workspace behaves like the first', 'exit %d/%d, %d/%d iterations' % (f, g, it1, R.info.iter), P.show())
        if any(abs(a - b) > 1e-6 * (1 + abs(b)) for a, b in zip(x1, R.x)): raise Fail('a second solve of the same workspace behaves like the first', '%r vs %r' % (x1, R.x), P.show())
        return 2
    return with_run(lib, P, body)


@scenario('keepvars')
def _(lib, r):
    """cleanup frees everything except the first `keep` of x,y,s,z"""
    P = gen_any(r)
    R = Run(lib, P)
    live = ct.c_long.in_dll(lib.dll, 'verif_live'); before = live.value
    try:
        if not R.setup(): raise Fail('a well-formed problem is accepted', 'setup returned NULL', P.show())
        k = r.randint(0, 4); vals = []
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            R.solve(); vals = [R.x, R.y, R.s, R.z][:k]
        kept = R.cleanup(k)
        if live.value - before != k: raise Fail('cleanup releases everything except what is kept', '%d blocks left, %d kept' % (live.value - before, k), P.show())
        for a, v in zip(kept, vals):
            now = getv(a, len(v))
            if any(u != t and not (u != u and t != t) for u, t in zip(now, v)): raise Fail('kept variables survive cleanup', '%r vs %r' % (now, v), P.show())
        for a in kept: libc.free(a)
        check_userdata(R, 'after cleanup')
        return 1 + k
    finally:
        R.free()


def same_solution(P, R1, R2, label):
    if R1.flag != R2.flag: raise Fail(label, 'exit %d against %d' % (R1.flag, R2.flag), P.show())
    if R1.flag == OPT:
        for nm in ('x', 's', 'y', 'z'):
            a, b = getattr(R1, nm), getattr(R2, nm)
        pc1, pc2 = R1.info.pcost, R2.info.pcost
        if abs(pc1 - pc2) > 1e-5 * (1 + abs(pc1)): raise Fail(label, 'cost %.9g against %.9g' % (pc1, pc2), P.show())


@scenario('update')
def _(lib, r):
    """updating numerical data equals a fresh setup with the new data"""
    P = gen_feasible(r, ne=r.choice([0, 0, 1]))
    # new data with the same pattern
    x0 = [r.gauss(0, 1) for _ in range(P.n)]
    G2 = [[(v * r.uniform(0.5, 2) if v else 0.0) for v in row] for row in P.G]
    A2 = [[(v * r.uniform(0.5, 2) if v else 0.0) for v in row] for row in P.A]
    s0 = interior(r, P.l, P.q, P.ne); z0 = interior(r, P.l, P.q, P.ne, dual=True); y0 = [r.gauss(0, 1) for _ in range(P.p)]
    h2 = [a + b for a, b in zip(matvec(G2, x0), s0)]; b2 = matvec(A2, x0) if P.p else []
    c2 = [-(u + v) for u, v in zip(tmatvec(G2, z0, P.n), tmatvec(A2, y0, P.n) if P.p else [0.0] * P.n)]
    P2 = Prob(P.n, P.l, P.q, P.ne, G2, h2, A2, b2, c2)
    mode = r.choice(['all', 'inplace', 'entries', 'adjacent'])
    if mode == 'entries': P2 = Prob(P.n, P.l, P.q, P.ne, P.G, list(P.h), P.A, P.b, list(P.c)); 
    upd = lib.dll.ECOS_updateData; upd.restype = None; upd.argtypes = [ct.c_void_p] * 6
    uh = lib.dll.ecos_updateDataEntry_h; uh.restype = None; uh.argtypes = [ct.c_void_p, ct.c_long, ct.c_double]
    uc = lib.dll.ecos_updateDataEntry_c; uc.restype = None; uc.argtypes = [ct.c_void_p, ct.c_long, ct.c_double]
    R = Run(lib, P, double=r.choice([1, 2]) if mode == 'adjacent' else 0); R2 = None; extra = []
    try:
        if not R.setup(): raise Fail('a well-formed problem is accepted', 'setup returned NULL', P.show())
        if r.random() < 0.6: R.solve()
        if mode == 'entries':
            for _ in range(r.randint(1, 3)):
                i = r.randrange(P.l) if P.l and r.random() < 0.6 else None
                if i is not None:
                    P2.h[i] = P.h[i] + r.uniform(0, 1); uh(R.w, i, P2.h[i])
                else:
                    j = r.randrange(P.n); P2.c[j] = P.c[j] * (1 + r.uniform(-1e-3, 1e-3)); uc(R.w, j, P2.c[j])
        else:
            gp = csc(P2.G, P.n)[2]; ap = csc(P2.A, P.n)[2]
            if mode in ('all', 'adjacent'):
                if mode == 'adjacent':
                    new = {k: R.second(k) for k in ('Gpr', 'c', 'h', 'Apr', 'b')}
                    for k, v in (('Gpr', gp), ('Apr', ap), ('c', P2.c), ('h', P2.h), ('b', P2.b)):
                        if new[k]: (ct.c_double * len(v)).from_address(new[k])[:] = v
                else: new = dict(Gpr=arr(gp), c=arr(P2.c), h=arr(P2.h), Apr=arr(ap) if P.p else None, b=arr(P2.b) if P.p else None)
                extra = [(new['Gpr'], gp, 'Gpr'), (new['c'], P2.c, 'c'), (new['h'], P2.h, 'h')] + ([(new['Apr'], ap, 'Apr'), (new['b'], P2.b, 'b')] if P.p else [])
                upd(R.w, new['Gpr'], new['Apr'], new['c'], new['h'], new['b'])
            else:
                # same arrays as at setup, contents replaced by the caller
                for k, v in (('Gpr', gp), ('Apr', ap), ('c', P2.c), ('h', P2.h), ('b', P2.b)):
                    if k in R.user:
                        a_ = R.user[k][0]
                        (ct.c_double * len(v)).from_address(a_)[:] = v
                        R.user[k] = (a_, list(v))
                upd(R.w, R.a('Gpr'), R.a('Apr'), R.a('c'), R.a('h'), R.a('b'))
        R.solve()
        R2 = Run(lib, P2)
        if not R2.setup(): raise Fail('a well-formed problem is accepted', 'setup returned NULL', P2.show())
        R2.solve()
        same_solution(P2, R, R2, 'updating data equals a fresh setup (%s)' % mode)
        if R.flag in (0, 1, 2, 10): check_certificate(P2, R, read_settings(R), R.info)
        R.cleanup(0)
        if mode != 'entries':
            for a, v, k in extra:
                now = getv(a, len(v))
                for i, (u, t) in enumerate(zip(now, v)):
                    if abs(u - t) > 4e-15 * abs(t): raise Fail('user data are as supplied after update and cleanup', '%s[%d] is %r, was %r' % (k, i, u, t), P2.show())
        if mode != 'entries': check_userdata(R, 'after update and cleanup (data supplied at setup)')
        return 4
    finally:
        for Q in (R, R2):
            if Q is not None:
                if Q.w: Q.cleanup(0)
                Q.free()
        for a, v, k in extra:
            if mode == 'all': libc.free(a)


def run_prefix(lib, P, k, **st):
    """the solver stopped after k iterations: returned point and statistics"""
    st = dict(st); st['maxit'] = k
    return st


@scenario('bestiterate')
def _(lib, r):
    """what is returned on a non-optimal exit is one consistent iterate: its statistics are those of the point"""
    P = gen_wild(r) if r.random() < 0.5 else gen_any(r)
    st = settings(r); st['maxit'] = r.choice([0, 1, 2, 3, 4, 5, 7, 10])
    huge = r.random() < 0.15
    if huge:
        # data whose magnitudes make the numbers overflow after some iterations
        e = 10.0 ** r.choice([120, 150, 200])
        if r.random() < 0.5: P.h = [v * e for v in P.h]
        else: P.c = [v * e for v in P.c]
        st['maxit'] = r.choice([3, 10, 100])

    if not huge and r.random() < 0.3:
        # unreachable tolerances: iterate until the numbers break down
        st.update(feastol=1e-30, abstol=1e-30, reltol=1e-30, maxit=r.choice([30, 60, 100]))
        if r.random() < 0.5: st.update(feastol_inacc=1e-30, abstol_inacc=1e-30, reltol_inacc=1e-30)

    def body(R):
        f = R.solve()
        if f in (OPT, OPT + INACC, MAXIT, NUM, OUT):
            x, y, z, s = R.x, R.y, R.z, R.s
            if any(t != t for t in x + y + z + s):
                if R.st.maxit == 0 or not (huge and f == NUM): return 0
                # the numbers broke down: some earlier iterate was finite if the first one was
                R.st.maxit = 0; R.solve()
                if any(t != t for t in R.x + R.y + R.z + R.s): return 0
                raise Fail('after a numerical breakdown an earlier iterate is returned', 'exit %d with undefined entries, but iterate 0 is finite' % f, P.show())
            if huge and f not in (OPT, OPT + INACC): return 1
            pc = dot(P.c, x); mg = sum(abs(a * b) for a, b in zip(P.c, x))
            dc = -dot(P.h, z) - dot(P.b, y); md = sum(abs(a * b) for a, b in zip(P.h, z)) + sum(abs(a * b) for a, b in zip(P.b, y))
            I = R.info; sh = P.show()
            if abs(I.pcost - pc) > 1e-7 * (mg + abs(pc)) + 1e-300: raise Fail('reported statistics describe the returned point', 'exit %d: primal cost reported %.12g, of the point %.12g' % (f, I.pcost, pc), sh)
            if abs(I.dcost - dc) > 1e-7 * (md + abs(dc)) + 1e-300: raise Fail('reported statistics describe the returned point', 'exit %d: dual cost reported %.12g, of the point %.12g' % (f, I.dcost, dc), sh)
            tau = R.pw.tau
            gap = dot(s, z) * tau * tau; mm = sum(abs(a * b) for a, b in zip(s, z)) * tau * tau
            if abs(I.gap - gap) > 1e-7 * mm + 1e-300: raise Fail('reported statistics describe the returned point', 'exit %d: gap reported %.12g, of the point %.12g' % (f, I.gap, gap), sh)
            d = scaled(P, R)
            for k in ('pres', 'dres'):
                v = getattr(I, k)
                if abs(v - d[k]) > 1e-6 * abs(d[k]) + d['e' + k]: raise Fail('reported statistics describe the returned point', 'exit %d: %s reported %.9g, of the point %.9g' % (f, k, v, d[k]), sh)
            kot = R.pw.kap / tau
            if abs(I.kapovert - kot) > 1e-9 * abs(kot): raise Fail('reported statistics describe the returned point', 'exit %d: kap/tau %.12g, of the point %.12g' % (f, I.kapovert, kot), sh)
        if f in (MAXIT, NUM) and st['maxit'] > 0:
            # iterates recorded as best have a smaller gap and a smaller mu each time
            K = R.st.maxit; g, mu = R.info.gap, R.info.mu
            for _ in range(2):
                R.st.maxit = j = r.randrange(min(K, 30)); h = R.solve()
                if h in (MAXIT, OPT + INACC) and (R.info.gap < g * (1 - 1e-9) or R.info.mu < mu * (1 - 1e-9)):
                    raise Fail('the result is no worse than an earlier iterate', 'limit %d (exit %d): gap %.9g mu %.9g; limit %d (exit %d): gap %.9g mu %.9g' % (K, f, g, mu, j, h, R.info.gap, R.info.mu), P.show())
        if f in (NUM, OUT) and r.random() < 0.5:
            # the point returned is the best one recorded before the iteration that failed
            same = lambda a, b: all(u == t or (u != u and t != t) for u, t in zip(a, b))
            last = []; K = R.st.maxit
            for j in range(K + 1):
                R.st.maxit = j; h = R.solve(); last.append((h, R.x + R.y + R.z + R.s))
                if h == f: break
            k = len(last) - 1 - (2 if f == OUT else 1)
            if last[-1][0] == f and k >= 0 and last[k][0] in (MAXIT, OPT + INACC):
                if not same(last[-1][1], last[k][1]): raise Fail('the result is the best iterate recorded before the failure', 'exit %d with limit %d differs from the result of limit %d (exit %d): %r against %r' % (f, len(last) - 1, k, last[k][0], last[-1][1], last[k][1]), P.show())
        return 4
    return with_run(lib, P, body, **st)


@scenario('infeasible')
def _(lib, r):
    """certificates of infeasibility and unboundedness"""
    k = r.random(); ne = r.choice([0, 0, 0, 1])
    P = gen_pinf(r, ne=ne) if k < 0.45 else gen_dinf(r, ne=ne) if k < 0.9 else gen_wild(r)
    P.wild = k >= 0.9
    st = settings(r)

    def body(R):
        S = read_settings(R)
        R.solve()
        n = check_certificate(P, R, S, R.info, wild=P.wild)
        return n
    return with_run(lib, P, body, **st)


@scenario('limits')
def _(lib, r):
    """iteration limit, refinement limit, exit code at the limit"""
    P = gen_wild(r) if r.random() < 0.3 else gen_any(r)
    st = settings(r)
    if r.random() < 0.8: st['maxit'] = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 15])
    if r.random() < 0.7: st['nitref'] = r.choice([0, 1, 2, 3, 5])

    def body(R):
        S = read_settings(R)
        for rep in range(r.choice([1, 1, 2])):
            f = R.solve()
            if f not in (0, 1, 2, 10, 11, 12, -1, -2, -3): raise Fail('documented exit code', 'exit code %d' % f, P.show())
            if R.info.iter > S['maxit'] or R.info.iter < 0: raise Fail('iteration limit', '%d iterations with maxit=%d' % (R.info.iter, S['maxit']), P.show())
            for k in ('nitref1', 'nitref2', 'nitref3'):
                v = getattr(R.info, k)
                if v > S['nitref'] and R.info.iter > 0: raise Fail('refinement limit', '%s=%d with nitref=%d' % (k, v, S['nitref']), P.show())
            if f == MAXIT and R.info.iter != S['maxit']: raise Fail('the iteration-limit code is given at the limit', 'exit %d after %d of %d iterations' % (f, R.info.iter, S['maxit']), P.show())
        return 5
    return with_run(lib, P, body, **st)
