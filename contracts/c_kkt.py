"""Contracts of the KKT system (kkt.c), scalings and line search."""
from lib import *
from c_cone import socres, safediv, scaled
import builders

DELTASTAT = R(7e-8)


def kkt_positions(c, M, P, K):
    """the entries of the (3,3) block occupy strictly increasing positions of the unpermuted matrix"""
    C = K.C
    nnz = M.nnz
    c.extent(M.pr, nnz); c.extent(P, nnz)
    c.requires('size of the matrix', nnz >= 0)
    ok = lambda e: and_(e >= 0, e < nnz)
    c.requires('P maps positions into range', forall(0, nnz, lambda k: and_(P[k] >= 0, P[k] < nnz)))
    c.perm(P, nnz)
    D = lambda l, k: C.soc[l].Didx[k]
    last = lambda l: D(l, C.soc[l].p - 1) + 2 * C.soc[l].p + 1
    c.requires('positions of the linear cone', forall(0, K.lp, lambda i: ok(C.lpc.kkt_idx[i])))
    c.requires('positions of the second-order cones', forall(0, K.nsoc, lambda l: and_(last(l) < nnz, forall(0, C.soc[l].p, lambda k: ok(D(l, k))))))
    c.requires('positions of the exponential cones', forall(0, K.nexc, lambda l: and_(C.expc[l].colstart[0] >= 0, C.expc[l].colstart[1] > C.expc[l].colstart[0], C.expc[l].colstart[2] > C.expc[l].colstart[1] + 1, C.expc[l].colstart[2] + 2 < nnz)))
    kk = C.lpc.kkt_idx
    c.requires('increasing in the linear cone', forall(0, K.lp, lambda b: forall(0, b, lambda a: kk[a] < kk[b])))
    c.requires('linear cone before second-order cones', forall(0, K.nsoc, lambda l: forall(0, K.lp, lambda a: kk[a] < D(l, ZI))))
    c.requires('increasing in a second-order cone', forall(0, K.nsoc, lambda l: forall(0, C.soc[l].p, lambda b: forall(0, b, lambda a: D(l, a) < D(l, b)))))
    c.requires('increasing from cone to cone', forall(0, K.nsoc, lambda b: forall(0, b, lambda a: last(a) < D(b, ZI))))


def fill_kkt(c, M, P, K, lp, d, v, vd, u0, u, ud, expo=None):
    C = K.C
    D = lambda l, k: C.soc[l].Didx[k]
    base = lambda l: D(l, C.soc[l].p - 1)
    p = lambda l: C.soc[l].p
    c.setmap(M.pr, [K.lp], lambda i: (P[C.lpc.kkt_idx[i]], lp(i)))
    c.setmap(M.pr, [K.nsoc, p], lambda l, k: (P[D(l, k)], d(l, k)))
    c.setmap(M.pr, [K.nsoc, lambda l: p(l) - 1], lambda l, k: (P[base(l) + 1 + k], v(l, k)))
    c.setmap(M.pr, [K.nsoc], lambda l: (P[base(l) + p(l)], vd(l)))
    c.setmap(M.pr, [K.nsoc], lambda l: (P[base(l) + p(l) + 1], u0(l)))
    c.setmap(M.pr, [K.nsoc, lambda l: p(l) - 1], lambda l, k: (P[base(l) + p(l) + 2 + k], u(l, k)))
    c.setmap(M.pr, [K.nsoc], lambda l: (P[base(l) + 2 * p(l) + 1], ud(l)))
    if expo:
        for n, (col, off) in enumerate([(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2)]):
            c.setmap(M.pr, [K.nexc], lambda l, n=n, col=col, off=off: (P[C.expc[l].colstart[col] + off], expo(l, n)))


def from_setup(ctx, init=False):
    """arguments of kkt_update: the matrix and positions of a real setup, arbitrary scalings"""
    w, o, P = builders.make_pwork(ctx)
    builders.randomise_pwork(ctx, w, o, P)
    K = ctx.lib.types.struct('kkt').from_address(o.KKT)
    ctx.args.update(PKP=K.PKPt, P=K.PK, C=o.C)


@contract('kkt_update')
def _(c):
    M = c.struct('PKP'); P = c.arr('P'); C = c.struct('C'); K = Cone(c, C); S = C.soc
    kkt_positions(c, M, P, K)
    c.bounded('final value of PKP.pr[]', 'PKP.pr[] is otherwise unchanged', 'loop1: write positions', 'loop1: invariant preserved: PKP.pr[]')
    c.make(lambda ctx: from_setup(ctx))
    e = lambda l: S[l].eta_square
    fill_kkt(c, M, P, K, lambda i: -C.lpc.v[i] - DELTASTAT,
             lambda l, k: -e(l) * ite(eq(k, ZI), S[l].d1, R(1)) - DELTASTAT,
             lambda l, k: -e(l) * S[l].v1 * S[l].q[k], lambda l: -e(l),
             lambda l: -e(l) * S[l].u0, lambda l, k: -e(l) * S[l].u1 * S[l].q[k], lambda l: e(l) + DELTASTAT,
             lambda l, n: -C.expc[l].v[n] - (DELTASTAT if n in (0, 2, 5) else ZR))


@contract('kkt_init')
def _(c):
    M = c.struct('PKP'); P = c.arr('P'); C = c.struct('C'); K = Cone(c, C)
    kkt_positions(c, M, P, K)
    c.bounded('final value of PKP.pr[]', 'PKP.pr[] is otherwise unchanged', 'loop1: write positions', 'loop1: invariant preserved: PKP.pr[]')
    c.make(lambda ctx: from_setup(ctx))
    fill_kkt(c, M, P, K, lambda i: R(-1), lambda l, k: R(-1), lambda l, k: ZR, lambda l: R(-1), lambda l: ZR, lambda l, k: ZR, lambda l: R(1))




def linesearch_args(ctx):
    """a real workspace with arbitrary directions; lambda inside the cone (mostly)"""
    w, o, P = builders.make_pwork(ctx)
    builders.randomise_pwork(ctx, w, o, P)
    import e2e_solve as S
    r = ctx.rng
    if r.random() < 0.9: builders.put(getattr(o, 'lambda'), S.interior(r, P.l, P.q, P.ne))
    else: builders.put(getattr(o, 'lambda'), [ctx.pos() for _ in range(P.m)])
    ctx.args.update(lambda_=getattr(o, 'lambda'), ds=o.dsaff_by_W, dz=o.W_times_dzaff, C=o.C, KKT=o.KKT, tau=ctx.pos(), kap=ctx.pos(),
                    dtau=ctx.real() or 1.0, dkap=ctx.real() or 1.0)
    ctx.args['lambda'] = ctx.args.pop('lambda_')


STEPMIN, STEPMAX = R(1e-6), R(0.999)


@contract('lineSearch', budget=100.0)
def _(c):
    lam = c.arr('lambda'); ds = c.arr('ds'); dz = c.arr('dz')
    tau = c.real('tau'); dtau = c.real('dtau'); kap = c.real('kap'); dkap = c.real('dkap')
    C = c.struct('C'); KK = c.struct('KKT'); K = Cone(c, C)
    for v in (lam, ds, dz): c.extent(v, K.m)
    N = KK.PKPt.n
    c.extent(KK.work1, N); c.extent(KK.work2, N)
    c.requires('the work vectors hold a stretched slack vector', N >= K.mt)
    c.make(lambda ctx: linesearch_args(ctx))
    # positive orthant: the smallest relative change over both directions
    q = lambda v, i: v[i] / lam[i]
    rmin = fold1(q(ds, ZI), 1, K.lp, lambda i, a: ite(lt(q(ds, i), a), q(ds, i), a))
    smin = fold1(q(dz, ZI), 1, K.lp, lambda i, a: ite(lt(q(dz, i), a), q(dz, i), a))
    mn = ite(lt(smin, rmin), smin, rmin)
    a0 = ite(K.lp > 0, ite(mn < 0, R(1) / (-mn), R(1) / EPS), R(10))
    # homogenisation variables
    def cut(a, num, den):
        r = -num / den
        return ite(and_(r > 0, r < a), r, a)
    a1 = cut(cut(a0, tau, dtau), kap, dkap)

    def speed(l, d):
        """how fast the direction d moves towards the boundary of second-order cone l, relative to lambda"""
        o = K.off(l); p = C.soc[l].p
        lk2 = lam[o] * lam[o] - dot(p - 1, lambda i: lam[o + 1 + i], lambda i: lam[o + 1 + i])
        nrm = app('sqrt', 'R', lk2)
        lb = lambda j: lam[o + j] / nrm
        prod = lb(ZI) * d[o] - sum_(1, p, lambda j: lb(j) * d[o + j])
        f = (prod + d[o]) / (lb(ZI) + 1)
        rho = lambda j: (R(1) / nrm) * (d[o + j] - f * lb(j))
        return norm(p - 1, lambda i: rho(1 + i)) - (R(1) / nrm) * prod

    def soc(l, a):
        o = K.off(l); p = C.soc[l].p
        lk2 = lam[o] * lam[o] - dot(p - 1, lambda i: lam[o + 1 + i], lambda i: lam[o + 1 + i])
        st = max_(max_(ZR, speed(l, ds)), speed(l, dz))
        return ite(lk2 <= 0, a, ite(eq(st, ZR), a, ite(R(1) / st < a, R(1) / st, a)))
    a2 = fold1(a1, 0, K.nsoc, soc)
    a3 = ite(a2 > STEPMAX, STEPMAX, a2)
    c.returns(ite(a3 < STEPMIN, STEPMIN, a3))
    c.havoc(KK.work1); c.havoc(KK.work2)
    c.bounded('loop6: invariant preserved: KKT.work2[]', 'loop7: invariant preserved: KKT.work2[]', 'return value')
