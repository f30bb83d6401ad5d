"""Contracts of the interior-point driver (ecos.c)."""
from lib import *
from c_cone import product, quotient, quotient2, scaled2, socres
import math

STATS = 'pcost dcost pres dres pinfres dinfres gap relgap mu kapovert'.split()


# ------------------------------------------------------------------ iterates
@contract('compareStatistics')
def _(c):
    A = c.struct('infoA'); B = c.struct('infoB')
    r = c.result()
    c.ensures('is a truth value', or_(r.eq(0), r.eq(1)))
    lessp = lambda f: and_(getattr(A, f) > 0, getattr(A, f) < getattr(B, f))
    c.ensures('a better iterate has a smaller positive gap', implies(r.eq(1), lessp('gap')))
    c.ensures('a better iterate has a smaller positive mu', implies(r.eq(1), lessp('mu')))
    c.ensures('a better iterate away from a certificate has smaller residuals',
              implies(and_(r.eq(1), A.kapovert <= 1), and_(lessp('pres'), lessp('dres'), lessp('kapovert'))))
    c.ensures('an iterate that improves on every measure is better',
              implies(and_(A.kapovert <= 1, *[lessp(f) for f in ('gap', 'mu', 'pres', 'dres', 'kapovert')]), r.eq(1)))


def copied(c, w, frm, to, fi, ti, fields):
    for v, N in (('x', w.n), ('y', w.p), ('z', w.m), ('s', w.m)):
        a = getattr(w, to + v); b = getattr(w, frm + v)
        c.setall(a, lambda i, b=b: b[i], n=N)
    for f in ('kap', 'tau', 'cx', 'by', 'hz'): c.set(getattr(w, to + f), getattr(w, frm + f))
    for f in fields: c.set(getattr(ti, f), getattr(fi, f))


@contract('saveIterateAsBest')
def _(c):
    w = c.struct('w'); Work(c, w, matrices=False)
    copied(c, w, '', 'best_', w.info, w.best_info, STATS + ['iter'])


@contract('restoreBestIterate')
def _(c):
    w = c.struct('w'); Work(c, w, matrices=False)
    copied(c, w, 'best_', '', w.best_info, w.info, STATS)


NOTYET = -87


@contract('checkExitConditions')
def _(c):
    w = c.struct('w'); mode = c.int('mode'); Work(c, w, matrices=False)
    c.hint('mode', [0, 10])
    S = w.stgs; I_ = w.info
    t = lambda f: ite(eq(mode, ZI), getattr(S, f), getattr(S, f + '_inacc'))
    ft, at, rt = t('feastol'), t('abstol'), t('reltol')
    opt = and_(or_(-w.cx > 0, -w.by - w.hz >= -at), I_.pres < ft, I_.dres < ft, or_(I_.gap < at, I_.relgap < rt))
    dinf = and_(I_.dinfres < ft, w.tau < w.kap)
    pinf = or_(and_(I_.pinfres < ft, w.tau < w.kap), and_(w.tau < S.feastol, w.kap < S.feastol, I_.pinfres < S.feastol))
    c.returns(ite(opt, mode, ite(dinf, 2 + mode, ite(pinf, 1 + mode, I(NOTYET)))))
    c.set(I_.pinf, ite(opt, R(0), ite(dinf, R(0), ite(pinf, R(1), I_.pinf))))
    c.set(I_.dinf, ite(opt, R(0), ite(dinf, R(1), ite(pinf, R(0), I_.dinf))))


def residual_terms(w):
    """hrx, hry, hrz as functions of the index"""
    hrx = lambda j: -ite(w.p > 0, colsum(w.A, j, lambda k: w.A.pr[k] * w.y[w.A.ir[k]]), ZR) - colsum(w.G, j, lambda k: w.G.pr[k] * w.z[w.G.ir[k]])
    hry = lambda i: rowsum(w.A, i, lambda k, j: w.A.pr[k] * w.x[j])
    hrz = lambda i: w.s[i] + rowsum(w.G, i, lambda k, j: w.G.pr[k] * w.x[j])
    return hrx, hry, hrz


@contract('computeResiduals')
def _(c):
    w = c.struct('w'); Work(c, w)
    c.may_null(w.ry, w.p > 0)
    hrx, hry, hrz = residual_terms(w)
    c.setall(w.rx, lambda j: hrx(j) - w.tau * w.c_[j])
    c.setall(w.ry, lambda i: hry(i) - w.tau * w.b[i])
    c.setall(w.rz, lambda i: hrz(i) - w.tau * w.h[i])
    c.set(w.hresx, norm(w.n, hrx)); c.set(w.hresz, norm(w.m, hrz))
    c.set(w.hresy, ite(w.p > 0, norm(w.p, hry), ZR))
    cx = dot(w.n, lambda i: w.c_[i], lambda i: w.x[i]); hz = dot(w.m, lambda i: w.h[i], lambda i: w.z[i])
    by = ite(w.p > 0, dot(w.p, lambda i: w.b[i], lambda i: w.y[i]), ZR)
    c.set(w.cx, cx); c.set(w.by, by); c.set(w.hz, hz)
    c.set(w.rt, w.kap + cx + by + hz)
    for f, v, N in (('nx', w.x, w.n), ('ny', w.y, w.p), ('nz', w.z, w.m), ('ns', w.s, w.m)):
        c.set(getattr(w, f), norm(N, lambda i, v=v: v[i]))


def mx(a, b): return max_(a, b)


NANT = var('NAN', 'R')


@contract('updateStatistics')
def _(c):
    w = c.struct('w'); Work(c, w, matrices=False)
    c.may_null(w.ry, w.p > 0)
    f = w.info
    gap = dot(w.m, lambda i: w.s[i], lambda i: w.z[i])
    pc = w.cx / w.tau; dc = -(w.hz + w.by) / w.tau
    c.set(f.gap, gap)
    c.set(f.mu, (gap + w.kap * w.tau) / toreal(w.D + 1))
    c.set(f.kapovert, w.kap / w.tau)
    c.set(f.pcost, pc); c.set(f.dcost, dc)
    c.set(f.relgap, ite(pc < 0, gap / -pc, ite(dc > 0, gap / dc, NANT)))
    nry = ite(w.p > 0, norm(w.p, lambda i: w.ry[i]) / mx(w.resy0 + w.nx, R(1)), ZR)
    nrz = norm(w.m, lambda i: w.rz[i]) / mx(w.resz0 + w.nx + w.ns, R(1))
    c.set(f.pres, mx(nry, nrz) / w.tau)
    c.set(f.dres, norm(w.n, lambda i: w.rx[i]) / mx(w.resx0 + w.ny + w.nz, R(1)) / w.tau)
    rt = w.stgs.reltol
    c.set(f.pinfres, ite((w.hz + w.by) / mx(w.ny + w.nz, R(1)) < -rt, w.hresx / (w.ny + w.nz), NANT))
    c.set(f.dinfres, ite(w.cx / mx(w.nx, R(1)) < -rt, mx(w.hresy / w.nx, w.hresz / (w.nx + w.ns)), NANT))


@contract('backscale')
def _(c):
    w = c.struct('w'); Work(c, w, matrices=False)
    c.setall(w.x, lambda i: w.x[i] / (w.xequil[i] * w.tau))
    c.setall(w.y, lambda i: w.y[i] / (w.Aequil[i] * w.tau))
    c.setall(w.z, lambda i: w.z[i] / (w.Gequil[i] * w.tau))
    c.setall(w.s, lambda i: w.s[i] * w.Gequil[i] / w.tau)
    c.setall(w.c_, lambda i: w.c_[i] * w.xequil[i])


def stretched(c, w, W, rhs, fx, fy, fz, zero=ZR, expo=None):
    """rhs (permuted, stretched) := [fx; fy; fz with two extra entries per second-order cone]"""
    P = w.KKT.Pinv; K = W.K; n, p = w.n, w.p; C = w.C
    c.setmap(rhs, [n], lambda i: (P[i], fx(i)))
    c.setmap(rhs, [p], lambda i: (P[n + i], fy(i)))
    c.setmap(rhs, [K.lp], lambda i: (P[n + p + i], fz(i)))
    c.setmap(rhs, [K.nsoc, lambda l: C.soc[l].p + 2], lambda l, j: (P[n + p + K.soff(l) + j], ite(j < C.soc[l].p, fz(K.off(l) + j), zero)))
    e = expo or (lambda l, t: fz(K.off(K.nsoc) + 3 * l + t))
    for t in range(3):
        c.setmap(rhs, [K.nexc], lambda l, t=t: (P[n + p + K.soff(K.nsoc) + 3 * l + t], e(l, t)))


@contract('RHS_affine')
def _(c):
    w = c.struct('w'); W = Work(c, w, matrices=False); W.perm()
    stretched(c, w, W, w.KKT.RHS2, lambda i: w.rx[i], lambda i: -w.ry[i], lambda i: w.s[i] - w.rz[i])


@contract('ecos_updateDataEntry_h')
def _(c):
    w = c.struct('w'); i = c.int('idx'); v = c.real('value'); c.extent(w.h, w.m); c.extent(w.Gequil, w.m)
    c.requires('index of a row', and_(i >= 0, i < w.m))
    c.set(w.h[i], v / w.Gequil[i])


@contract('ecos_updateDataEntry_c')
def _(c):
    w = c.struct('w'); i = c.int('idx'); v = c.real('value'); c.extent(w.c_, w.n)
    c.requires('index of a variable', and_(i >= 0, i < w.n))
    c.set(w.c_[i], v)


@contract('RHS_combined', budget=60.0, naming=('w.dsaff_by_W[]', 'w.KKT.work1[]', 'w.KKT.work2[]'))
def _(c):
    w = c.struct('w'); W = Work(c, w, matrices=False); W.perm(); K = W.K; C = w.C; KK = w.KKT
    sm = w.info.sigma * w.info.mu; om = 1 - w.info.sigma
    lam = w.lambda_ if False else getattr(w, 'lambda')
    L = lambda i: lam[i]
    f1, v1, _d = product(K, L, L)
    f2, v2, _d = product(K, lambda i: w.dsaff_by_W[i], lambda i: w.W_times_dzaff[i])
    # lambda o lambda + (W\\dsaff) o (W dzaff) - sigma mu e, by position
    lpv = lambda i: f1(i) + f2(i) - sm
    socv = lambda l, j: v1(l, j) + v2(l, j) - ite(eq(j, ZI), sm, ZR)
    qf, qv = quotient2(K, L, lpv, socv)
    # W * dsaff_by_W, in terms of the final dsaff_by_W
    D = c.prime(w.dsaff_by_W)
    sf, sv = scaled2(K, lambda i: D[i], lambda l, j: D[K.off(l) + j])
    c.setall(w.dsaff_by_W, qf, n=K.lp)
    c.setmap(w.dsaff_by_W, [K.nsoc, lambda l: C.soc[l].p], lambda l, j: (K.off(l) + j, qv(l, j)))
    W1 = c.prime(KK.work1)
    c.bounded('final value of w.dsaff_by_W[] #', 'final value of w.KKT.work1[] #2', 'w.KKT.work1[] is otherwise unchanged')
    c.havoc(KK.work2)
    c.setall(KK.work1, sf, n=K.lp)
    c.setmap(KK.work1, [K.nsoc, lambda l: C.soc[l].p], lambda l, j: (K.off(l) + j, sv(l, j)))
    P = KK.Pinv; n, p = w.n, w.p; B = KK.RHS2
    c.setmap(B, [n], lambda i: (P[i], om * B[P[i]]))
    c.setmap(B, [p], lambda i: (P[n + i], om * B[P[n + i]]))
    c.setmap(B, [K.lp], lambda i: (P[n + p + i], W1[i] - om * w.rz[i]))
    c.setmap(B, [K.nsoc, lambda l: C.soc[l].p + 2], lambda l, j: (P[n + p + K.soff(l) + j], ite(j < C.soc[l].p, W1[K.off(l) + j] - om * w.rz[K.off(l) + j], ZR)))
    e = K.off(K.nsoc)
    for t in range(3):
        g = lambda l, t=t: w.s[e + 3 * l + t] + sm * C.expc[l].g[t]
        c.setmap(C.expc[0].g, [K.nexc], lambda l, t=t, g=g: ((l, I(t)), g(l)))
        c.setmap(B, [K.nexc], lambda l, t=t, g=g: (P[n + p + K.soff(K.nsoc) + 3 * l + t], g(l) - om * w.rz[e + 3 * l + t]))
