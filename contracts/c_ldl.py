"""Contracts of the sparse LDL' factorisation and solves (external/ldl/src/ldl.c)."""
from lib import *
import builders


def factor(c, n, Lp, Li, Lx):
    """unit lower triangular matrix in compressed-column form, diagonal not stored"""
    c.extent(Lp, n + 1); c.extent(Li, Lp[n]); c.extent(Lx, Lp[n])
    c.requires('column pointers', and_(n >= 0, Lp[0].eq(0), Lp[n] >= 0))
    a, b = fresh('a', 'I'), fresh('b', 'I')
    c.requires('column pointers are monotone', forall_tmp([a, b], implies(and_(le(ZI, a), le(a, b), le(b, n)), Lp[a] <= Lp[b])))
    c.requires('strictly lower triangular', forall(0, n, lambda j: forall(Lp[j], Lp[j + 1], lambda q: and_(Li[q] > j, Li[q] < n))))
    c.make(lambda ctx: mk_factor(ctx))


def mk_factor(ctx, n=None):
    r = ctx.rng
    n = r.choice([0, 1, 2, 3, 4, 5, 7]) if n is None else n
    dens = r.choice([0.1, 0.4, 0.9])
    lp = [0]; li = []; lx = []
    for j in range(n):
        rows = [i for i in range(j + 1, n) if r.random() < dens]
        li += rows; lx += [r.uniform(-1.5, 1.5) for _ in rows]; lp.append(len(li))
    ctx.args.update(n=n, Lp=ctx.ints(lp), Li=ctx.ints(li), Lx=ctx.reals(lx))


def colentries(Lp, j, f): return sum_(Lp[j], Lp[lift(j) + 1], f)


def lowrow(Lp, Li, Lx, i, upto, x):
    """sum over the stored entries L(i, j), j < upto, of L(i, j) x(j)"""
    return sum_(0, upto, lambda j: sum_(Lp[j], Lp[lift(j) + 1], lambda q: ite(eq(Li[q], i), Lx[q] * x(j), ZR)))


def lower_solve(c, n, b, x, Lp, Li, Lx):
    c.havoc(x)
    X = c.prime(x)
    c.ensures('L x = b', forall(0, n, lambda i: (X[i] + lowrow(Lp, Li, Lx, i, n, lambda j: X[j])).eq(b[i])))
    c.loopinv([x], lambda k: [('entries are b minus the columns done', forall(0, n, lambda i: (X[i] + lowrow(Lp, Li, Lx, i, k, lambda j: X[j])).eq(b[i])))])


@contract('ldl_l_lsolve', tol=1e-6)
def _(c):
    n = c.int('n'); x = c.arr('X', n); Lp = c.arr('Lp'); Li = c.arr('Li'); Lx = c.arr('Lx'); factor(c, n, Lp, Li, Lx)
    lower_solve(c, n, x, x, Lp, Li, Lx)


@contract('ldl_l_lsolve2', tol=1e-6)
def _(c):
    n = c.int('n'); b = c.arr('b', n); Lp = c.arr('Lp'); Li = c.arr('Li'); Lx = c.arr('Lx'); x = c.arr('x', n); factor(c, n, Lp, Li, Lx)
    lower_solve(c, n, b, x, Lp, Li, Lx)


@contract('ldl_l_dsolve')
def _(c):
    n = c.int('n'); X = c.arr('X', n); D = c.arr('D', n)
    c.requires('size', n >= 0)
    c.hint('n', [0, 1, 2, 3, 5]); c.hint('D', lambda ctx, N: [ctx.rng.choice([-1, 1]) * ctx.pos() for _ in range(N)])
    c.setall(X, lambda i: X[i] / D[i])


@contract('ldl_l_ltsolve', tol=1e-6)
def _(c):
    n = c.int('n'); x = c.arr('X', n); Lp = c.arr('Lp'); Li = c.arr('Li'); Lx = c.arr('Lx'); factor(c, n, Lp, Li, Lx)
    X = c.prime(x); c.havoc(x)
    row = lambda j: X[j] + colentries(Lp, j, lambda q: Lx[q] * X[Li[q]])
    c.ensures("L' x = b", forall(0, n, lambda j: row(j).eq(x[j])))
    c.loopinv([x], lambda k: [('the last rows are solved', forall(n - k, n, lambda j: row(j).eq(x[j]))),
                              ('the first entries are those of b', forall(0, n - k, lambda j: X[j].eq(x[j])))])
