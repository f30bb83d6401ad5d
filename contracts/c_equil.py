"""Contracts of the equilibration module (equil.c)."""
from lib import *
from terms import fold1
import builders


def maxrow(A, e, init, v=None):
    """running maximum of |A[k]| over the entries of row e (column by column)"""
    v = v or (lambda k: A.pr[k])
    return fold1(init, 0, A.n, lambda j, acc: fold1(acc, A.jc[j], A.jc[j + 1], lambda k, a: ite(eq(A.ir[k], e), max_(abs_(v(k)), a), a)))


def maxcol(A, j, init):
    return foldmax(init, A.jc[j], A.jc[lift(j) + 1], lambda k: abs_(A.pr[k]))


@contract('max_rows')
def _(c):
    E = c.arr('E'); A = c.struct('mat'); csc(c, A); c.extent(E, A.m)
    c.setall(E, lambda e: maxrow(A, e, E[e]))


@contract('max_cols')
def _(c):
    E = c.arr('E'); A = c.struct('mat'); csc(c, A); c.extent(E, A.n)
    c.setall(E, lambda j: foldmax(E[j], A.jc[j], A.jc[j + 1], lambda k: abs_(A.pr[k])))


@contract('sum_sq_rows')
def _(c):
    E = c.arr('E'); A = c.struct('mat'); csc(c, A); c.extent(E, A.m)
    c.setall(E, lambda e: E[e] + rowsum(A, e, lambda k, j: A.pr[k] * A.pr[k]))


@contract('sum_sq_cols')
def _(c):
    E = c.arr('E'); A = c.struct('mat'); csc(c, A); c.extent(E, A.n)
    c.setall(E, lambda j: E[j] + colsum(A, j, lambda k: A.pr[k] * A.pr[k]))


@contract('equilibrate_rows')
def _(c):
    E = c.arr('E'); A = c.struct('mat'); csc(c, A); c.extent(E, A.m)
    c.requires('the scaling is positive', forall(0, A.m, lambda i: E[i] > 0))
    c.hint('E', lambda ctx, N: [ctx.pos() for _ in range(N)])
    c.setall(A.pr, lambda k: A.pr[k] / E[A.ir[k]])


@contract('equilibrate_cols')
def _(c):
    E = c.arr('E'); A = c.struct('mat'); csc(c, A); c.extent(E, A.n)
    c.requires('the scaling is positive', forall(0, A.n, lambda i: E[i] > 0))
    c.hint('E', lambda ctx, N: [ctx.pos() for _ in range(N)])
    c.setmap(A.pr, [A.n, lambda j: A.jc[j + 1] - A.jc[j]], lambda j, k: (A.jc[j] + k, A.pr[A.jc[j] + k] / E[j]))


@contract('restore')
def _(c):
    D = c.arr('D'); E = c.arr('E'); A = c.struct('mat'); csc(c, A); c.extent(D, A.m); c.extent(E, A.n)
    c.setmap(A.pr, [A.n, lambda j: A.jc[j + 1] - A.jc[j]], lambda j, k: (A.jc[j] + k, A.pr[A.jc[j] + k] * (D[A.ir[A.jc[j] + k]] * E[j])))


@contract('unset_equilibration')
def _(c):
    w = c.struct('w'); Work(c, w)
    A = w.A; G = w.G
    hasA = w.p > 0
    c.setmap(A.pr, [ite(hasA, A.n, ZI), lambda j: A.jc[j + 1] - A.jc[j]], lambda j, k: (A.jc[j] + k, A.pr[A.jc[j] + k] * (w.Aequil[A.ir[A.jc[j] + k]] * w.xequil[j])))
    c.setmap(G.pr, [G.n, lambda j: G.jc[j + 1] - G.jc[j]], lambda j, k: (G.jc[j] + k, G.pr[G.jc[j] + k] * (w.Gequil[G.ir[G.jc[j] + k]] * w.xequil[j])))
    c.setall(w.b, lambda i: w.b[i] * w.Aequil[i], n=w.p)
    c.setall(w.h, lambda i: w.h[i] * w.Gequil[i], n=w.m)


def equilibrated(c):
    w = c.struct('w'); Work(c, w)
    A = w.A; G = w.G; C = w.C
    hasA = w.p > 0
    D, E, X = c.prime(w.Aequil), c.prime(w.Gequil), c.prime(w.xequil)
    Ap, Gp, b, h = c.prime(A.pr), c.prime(G.pr), c.prime(w.b), c.prime(w.h)
    off = lambda l: w.C.lpc.p + sum_(0, l, lambda k: w.C.soc[k].p)
    for r in (w.Aequil, w.Gequil, w.xequil, A.pr, G.pr, w.b, w.h): c.havoc(r)

    def inv(_=None):
        return [('the scaled A is an exact rescaling', implies(hasA, forall(0, A.n, lambda j: forall(A.jc[j], A.jc[j + 1], lambda k: (Ap[k] * (D[A.ir[k]] * X[j])).eq(A.pr[k]))))),
                ('the scaled G is an exact rescaling', forall(0, G.n, lambda j: forall(G.jc[j], G.jc[j + 1], lambda k: (Gp[k] * (E[G.ir[k]] * X[j])).eq(G.pr[k])))),
                ('the scalings are positive', and_(forall(0, w.n, lambda j: X[j] > 0), forall(0, w.p, lambda j: D[j] > 0), forall(0, w.m, lambda j: E[j] > 0))),
                ('the rows of one second-order cone share a scaling', forall(0, C.nsoc, lambda l: forall(0, C.soc[l].p, lambda j: E[off(l) + j].eq(E[off(l)])))),
                ('the rows of one exponential cone share a scaling', forall(0, C.nexc, lambda l: forall(0, 3, lambda j: E[off(C.nsoc) + 3 * l + j].eq(E[off(C.nsoc) + 3 * l]))))]
    c.loopinv([w.Aequil, w.Gequil, w.xequil, A.pr, G.pr], inv)
    c.namelemma(lambda v: [] if v.n is not None and v.n is not w.m and v.n is not G.m else [forall(0, C.nsoc, lambda l: forall(0, C.soc[l].p, lambda j: v[off(l) + j].eq(v[off(l)]))),
                           forall(0, C.nexc, lambda l: forall(0, 3, lambda j: v[off(C.nsoc) + 3 * l + j].eq(v[off(C.nsoc) + 3 * l])))])
    for l, t in inv(): c.ensures(l, t)
    c.ensures('b is an exact rescaling', forall(0, w.p, lambda i: (b[i] * D[i]).eq(w.b[i])))
    c.ensures('h is an exact rescaling', forall(0, w.m, lambda i: (h[i] * E[i]).eq(w.h[i])))


@contract('use_ruiz_equilibration', naming=True)
def _(c): equilibrated(c)


@contract('set_equilibration')
def _(c): equilibrated(c)


@contract('ECOS_updateData')
def _(c):
    w = c.struct('w'); gp = c.arr('Gpr'); ap = c.arr('Apr'); cn = c.arr('c'); hn = c.arr('h'); bn = c.arr('b'); Work(c, w)
    A, G, C, K = w.A, w.G, w.C, w.KKT
    hasA = w.p > 0
    c.extent(gp, G.nnz); c.extent(ap, ite(hasA, A.nnz, ZI)); c.extent(cn, w.n); c.extent(hn, w.m); c.extent(bn, w.p)
    D, E, X = c.prime(w.Aequil), c.prime(w.Gequil), c.prime(w.xequil)
    Ap, Gp, b, h = c.prime(ap), c.prime(gp), c.prime(bn), c.prime(hn)
    off = lambda l: C.lpc.p + sum_(0, l, lambda k: C.soc[k].p)
    N = K.PKPt.nnz
    c.requires('PK maps positions into range', forall(0, N, lambda k: and_(K.PK[k] >= 0, K.PK[k] < N)))
    c.perm(K.PK, N); c.injective(w.GtoK, G.nnz); c.injective(w.AtoK, ite(hasA, A.nnz, ZI))
    c.requires('positions of the entries of A', implies(hasA, forall(0, A.nnz, lambda k: and_(w.AtoK[k] >= 0, w.AtoK[k] < N))))
    c.requires('positions of the entries of G', forall(0, G.nnz, lambda k: and_(w.GtoK[k] >= 0, w.GtoK[k] < N)))
    c.requires('entries of A and G are different positions', implies(hasA, forall(0, A.nnz, lambda k: forall(0, G.nnz, lambda l: w.AtoK[k].ne(w.GtoK[l])))))
    for r in (w.Aequil, w.Gequil, w.xequil, A.pr, G.pr, w.b, w.h, gp, ap, hn, bn): c.havoc(r)
    # the workspace uses the new arrays
    c.setptr(G.pr, gp); c.setptr(w.h, hn); c.setptr(w.c_, cn)
    c.setptr(A.pr, ap, cond=hasA); c.setptr(w.b, bn, cond=hasA)
    # the new data are an exact rescaling of what the caller passed
    c.ensures('the new A is an exact rescaling', implies(hasA, forall(0, A.n, lambda j: forall(A.jc[j], A.jc[j + 1], lambda k: (Ap[k] * (D[A.ir[k]] * X[j])).eq(ap[k])))))
    c.ensures('the new G is an exact rescaling', forall(0, G.n, lambda j: forall(G.jc[j], G.jc[j + 1], lambda k: (Gp[k] * (E[G.ir[k]] * X[j])).eq(gp[k]))))
    c.ensures('the scalings are positive', and_(forall(0, w.n, lambda j: X[j] > 0), forall(0, w.p, lambda j: D[j] > 0), forall(0, w.m, lambda j: E[j] > 0)))
    c.ensures('the rows of one second-order cone share a scaling', forall(0, C.nsoc, lambda l: forall(0, C.soc[l].p, lambda j: E[off(l) + j].eq(E[off(l)]))))
    c.ensures('the rows of one exponential cone share a scaling', forall(0, C.nexc, lambda l: forall(0, 3, lambda j: E[off(C.nsoc) + 3 * l + j].eq(E[off(C.nsoc) + 3 * l]))))
    c.ensures('the new b is an exact rescaling', forall(0, w.p, lambda i: (b[i] * D[i]).eq(bn[i])))
    c.ensures('the new h is an exact rescaling', forall(0, w.m, lambda i: (h[i] * E[i]).eq(hn[i])))
    # and the KKT matrix holds them
    c.setmap(K.PKPt.pr, [ite(hasA, A.nnz, ZI)], lambda k: (K.PK[w.AtoK[k]], Ap[k]))
    c.setmap(K.PKPt.pr, [G.nnz], lambda k: (K.PK[w.GtoK[k]], Gp[k]))
    c.make(updated)


def updated(ctx):
    w, o, P = builders.make_pwork(ctx, solve=ctx.rng.random() < 0.3)
    T = ctx.lib.types; r = ctx.rng
    G = T.struct('spmat').from_address(o.G); nA = T.struct('spmat').from_address(o.A).nnz if o.A else 0
    ctx.args.update(w=w, Gpr=ctx.reals(ctx.rv(G.nnz)), Apr=ctx.reals(ctx.rv(nA)) if o.A or r.random() < 0.5 else None,
                    c=ctx.reals(ctx.rv(P.n)), h=ctx.reals(ctx.rv(P.m)), b=ctx.reals(ctx.rv(P.p)) if o.A or r.random() < 0.5 else None)
