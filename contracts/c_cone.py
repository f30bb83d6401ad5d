from lib import *
GAMMA = R(0.99)


@contract('socres')
def _(c):
    u = c.arr('u'); p = c.int('p')
    c.extent(u, p)
    c.requires('the cone is not empty', p >= 1)
    c.returns(socres(lambda i: u[i], p))


def socres(u, p):
    return u(0) * u(0) - sum_(1, p, lambda i: u(i) * u(i))


def slack(c, K, name): return c.arr(name, K.m)


def worst(K, r):
    """largest violation: minus the smallest cone residual of r that is not positive (at least -GAMMA)"""
    a = foldmax(-GAMMA, 0, K.lp, lambda i: ite(r[i] <= 0, -r[i], -GAMMA))
    def res(l):
        o = K.off(l); p = K.C.soc[l].p
        return r[o] - app('sqrt', 'R', sum_(1, p, lambda j: r[o + j] * r[o + j]))
    return foldmax(a, 0, K.nsoc, lambda l: ite(res(l) <= 0, -res(l), -GAMMA))


@contract('bring2cone')
def _(c):
    C = c.struct('C'); K = Cone(c, C)
    r = c.arr('r', K.m); s = c.arr('s', K.m)
    c.requires('no exponential cones', K.nexc.eq(0))
    c.bounded('final value of s[]')
    al = worst(K, r) + 1
    c.setall(s, lambda i: r[i] + al, n=K.lp)
    c.setmap(s, [K.nsoc, lambda l: C.soc[l].p], lambda l, j: (K.off(l) + j, r[K.off(l) + j] + ite(eq(j, ZI), al, ZR)))


RAY = [R(-1.051383945322714), R(1.258967884768947), R(0.556409619469370)]


@contract('unitInitialization')
def _(c):
    C = c.struct('C'); K = Cone(c, C)
    s = c.arr('s', K.m); z = c.arr('z', K.m); sc = c.real('scaling')
    for v in (s, z):
        c.setall(v, lambda i: sc, n=K.lp)
        c.setmap(v, [K.nsoc, lambda l: C.soc[l].p], lambda l, j: (K.off(l) + j, ite(eq(j, ZI), sc, ZR)))
        for t in range(3):
            c.setmap(v, [K.nexc], lambda l, t=t: (K.off(K.nsoc) + 3 * l + t, sc * RAY[t]))


def zeta(K, l, z):
    o = K.off(l); S = K.C.soc[l]
    return sum_(0, S.p - 1, lambda i: S.q[i] * z(o + 1 + i))


def scaled(K, z):
    """(value at lp index i, value in second-order cone l at j) of W z"""
    C = K.C
    def v(l, j):
        S = C.soc[l]; o = K.off(l)
        f = z(o) + safediv(zeta(K, l, z), 1 + S.a)
        return ite(eq(j, ZI), S.eta * (S.a * z(o) + zeta(K, l, z)), S.eta * (z(o + j) + f * S.q[j - 1]))
    return (lambda i: C.lpc.w[i] * z(i)), v


def product(K, u, v):
    C = K.C
    d = lambda l: sum_(0, C.soc[l].p, lambda i: u(K.off(l) + i) * v(K.off(l) + i))
    def val(l, j):
        o = K.off(l)
        return ite(eq(j, ZI), d(l), u(o) * v(o + j) + v(o) * u(o + j))
    return (lambda i: u(i) * v(i)), val, d


def quotient(K, u, w):
    C = K.C
    def val(l, j, W=None):
        o = K.off(l); p = C.soc[l].p
        rho = socres(lambda i: u(o + i), p)
        ze = sum_(1, p, lambda i: u(o + i) * w(o + i))
        f = safediv(safediv(ze, u(o)) - w(o), rho)
        return ite(eq(j, ZI), safediv(u(o) * w(o) - ze, rho), f * u(o + j) + safediv(w(o + j), u(o)))
    return (lambda i: safediv(w(i), u(i))), val


def quotient2(K, u, wf, wv):
    """u \\ w with w given by the values wf(i) on the positive orthant and wv(l, j) in cone l"""
    C = K.C
    def val(l, j):
        o = K.off(l); p = C.soc[l].p
        rho = socres(lambda i: u(o + i), p)
        ze = sum_(1, p, lambda i: u(o + i) * wv(l, i))
        f = safediv(safediv(ze, u(o)) - wv(l, ZI), rho)
        return ite(eq(j, ZI), safediv(u(o) * wv(l, ZI) - ze, rho), f * u(o + j) + safediv(wv(l, j), u(o)))
    return (lambda i: safediv(wf(i), u(i))), val


def scaled2(K, zf, zv):
    C = K.C
    def v(l, j):
        S = C.soc[l]
        ze = sum_(0, S.p - 1, lambda i: S.q[i] * zv(l, 1 + i))
        f = zv(l, ZI) + safediv(ze, 1 + S.a)
        return ite(eq(j, ZI), S.eta * (S.a * zv(l, ZI) + ze), S.eta * (zv(l, j) + f * S.q[j - 1]))
    return (lambda i: C.lpc.w[i] * zf(i)), v


@contract('scale')
def _(c):
    z = c.arr('z'); C = c.struct('C'); K = Cone(c, C); lam = c.arr('lambda', K.m)
    c.extent(z, K.m)
    f, v = scaled(K, lambda i: z[i])
    c.setall(lam, f, n=K.lp)
    c.setmap(lam, [K.nsoc, lambda l: C.soc[l].p], lambda l, j: (K.off(l) + j, v(l, j)))


@contract('unscale', budget=100.0)
def _(c):
    lam = c.arr('lambda'); C = c.struct('C'); K = Cone(c, C); z = c.arr('z', K.m)
    c.extent(lam, K.m)
    c.setall(z, lambda i: safediv(lam[i], C.lpc.w[i]), n=K.lp)

    def v(l, j):
        S = C.soc[l]; o = K.off(l)
        f = -lam[o] + safediv(zeta(K, l, lambda i: lam[i]), 1 + S.a)
        return (o + j, ite(eq(j, ZI), safediv(S.a * lam[o] - zeta(K, l, lambda i: lam[i]), S.eta), safediv(lam[o + j] + f * S.q[j - 1], S.eta)))
    c.setmap(z, [K.nsoc, lambda l: C.soc[l].p], v)


@contract('conicProduct')
def _(c):
    u = c.arr('u'); v = c.arr('v'); C = c.struct('C'); K = Cone(c, C); w = c.arr('w', K.m)
    c.extent(u, K.m); c.extent(v, K.m)
    f, val, d = product(K, lambda i: u[i], lambda i: v[i])
    c.setall(w, f, n=K.lp)
    c.setmap(w, [K.nsoc, lambda l: C.soc[l].p], lambda l, j: (K.off(l) + j, val(l, j)))
    c.returns(sum_(0, K.lp, lambda i: abs_(u[i] * v[i])) + sum_(0, K.nsoc, lambda l: abs_(d(l))))


@contract('conicDivision', budget=100.0)
def _(c):
    u = c.arr('u'); w = c.arr('w'); C = c.struct('C'); K = Cone(c, C); v = c.arr('v', K.m)
    c.extent(u, K.m); c.extent(w, K.m)
    f, val = quotient(K, lambda i: u[i], lambda i: w[i])
    c.setall(v, f, n=K.lp)
    c.setmap(v, [K.nsoc, lambda l: C.soc[l].p], lambda l, j: (K.off(l) + j, val(l, j)))


@contract('scale2add', prove=False)
def _(c):
    x = c.arr('x'); y = c.arr('y'); C = c.struct('C'); K = Cone(c, C)
    c.extent(x, K.mt); c.extent(y, K.mt)
    c.setall(y, lambda i: y[i] + C.lpc.v[i] * x[i], n=K.lp)

    def val(l, j):
        S = C.soc[l]; o = K.soff(l); p = S.p
        X = lambda i: x[o + i]
        qx = sum_(0, p - 1, lambda i: S.q[i] * x[o + 1 + i])
        first = S.d1 * X(0) + S.u0 * X(p + 1)
        mid = X(j) + (S.v1 * X(p) + S.u1 * X(p + 1)) * S.q[j - 1]
        x3 = S.v1 * qx + X(p)
        x4 = S.u0 * X(0) + S.u1 * qx - X(p + 1)
        return (o + j, y[o + j] + S.eta_square * ite(eq(j, ZI), first, ite(j < p, mid, ite(eq(j, p), x3, x4))))
    c.setmap(y, [K.nsoc, lambda l: C.soc[l].p + 2], val)
    for t in range(3):
        def ve(l, t=t):
            E = C.expc[l]; o = K.soff(K.nsoc) + 3 * l
            H = [[0, 1, 3], [1, 2, 4], [3, 4, 5]]
            r = ZR
            for s in range(3): r = r + E.v[H[t][s]] * x[o + s]
            return (o + t, y[o + t] + r)
        c.setmap(y, [K.nexc], ve)


@contract('unstretch')
def _(c):
    n = c.int('n'); p = c.int('p'); C = c.struct('C'); K = Cone(c, C)
    N = n + p + K.mt
    Pinv = c.arr('Pinv', N); Px = c.arr('Px', N)
    dx = c.arr('dx', n); dy = c.arr('dy', p); dz = c.arr('dz', K.m)
    c.requires('sizes', and_(n >= 0, p >= 0))
    c.requires('Pinv maps into range', forall(0, N, lambda k: and_(Pinv[k] >= 0, Pinv[k] < N)))
    c.setall(dx, lambda i: Px[Pinv[i]])
    c.setall(dy, lambda i: Px[Pinv[n + i]])
    c.setall(dz, lambda i: Px[Pinv[n + p + i]], n=K.lp)
    c.setmap(dz, [K.nsoc, lambda l: C.soc[l].p], lambda l, j: (K.off(l) + j, Px[Pinv[n + p + K.soff(l) + j]]))
    c.setmap(dz, [K.nexc, 3], lambda l, t: (K.off(K.nsoc) + 3 * l + t, Px[Pinv[n + p + K.soff(K.nsoc) + 3 * l + t]]))
