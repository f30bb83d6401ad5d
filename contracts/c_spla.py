from lib import *


@contract('sparseMV')
def _(c):
    A = c.struct('A'); x = c.arr('x', A.n); y = c.arr('y', A.m); a = c.int('a'); new = c.int('newVector')
    csc(c, A)
    sg = ite(a > 0, R(1), R(-1))
    c.setall(y, lambda e: ite(new > 0, ZR, y[e]) + sg * rowsum(A, e, lambda k, j: A.pr[k] * x[j]))


@contract('sparseMtVm')
def _(c):
    A = c.struct('A'); x = c.arr('x', A.m); y = c.arr('y', A.n); new = c.int('newVector'); skip = c.int('skipDiagonal')
    csc(c, A)
    c.setall(y, lambda j: ite(new > 0, ZR, y[j]) - colsum(A, j, lambda k: ite(and_(ne0(skip), eq(A.ir[k], j)), ZR, A.pr[k] * x[A.ir[k]])))


@contract('vadd')
def _(c):
    n = c.int('n'); x = c.arr('x', n); y = c.arr('y', n)
    c.setall(y, lambda i: y[i] + x[i])


@contract('vsubscale')
def _(c):
    n = c.int('n'); a = c.real('a'); x = c.arr('x', n); y = c.arr('y', n)
    c.setall(y, lambda i: y[i] - a * x[i])


@contract('norm2')
def _(c):
    v = c.arr('v'); n = c.int('n')
    c.extent(v, n)
    c.returns(norm(n, lambda i: v[i]))


@contract('norminf')
def _(c):
    v = c.arr('v'); n = c.int('n')
    c.extent(v, n)
    c.returns(foldmax(ZR, 0, n, lambda i: abs_(v[i])))
    r = c.result()
    c.ensures('is an upper bound', and_(r >= 0, forall(0, n, lambda i: and_(v[i] <= r, -v[i] <= r))))


@contract('eddot')
def _(c):
    n = c.int('n'); x = c.arr('x', n); y = c.arr('y', n)
    c.returns(dot(n, lambda i: x[i], lambda i: y[i]))


@contract('spla_cumsum')
def _(c):
    p = c.arr('p'); w = c.arr('w'); m = c.int('m')
    c.extent(p, m); c.extent(w, m)
    c.setall(p, lambda i: sum_(0, i, lambda k: w[k]))
    c.setall(w, lambda i: sum_(0, i, lambda k: w[k]))


@contract('pinv')
def _(c):
    n = c.int('n'); p = c.arr('p', n); q = c.arr('pinv', n)
    c.perm(p, n)
    c.requires('permutation', forall(0, n, lambda k: and_(p[k] >= 0, p[k] < n)))
    c.setmap(q, [n], lambda i: (p[i], i))

    def mk(ctx):
        n = ctx.rng.randint(0, 6)
        s = list(range(n)); ctx.rng.shuffle(s)
        ctx.args.update(n=n, p=ctx.ints(s), pinv=ctx.ints([7] * n))
    c.make(mk)
