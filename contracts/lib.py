"""Shared specification vocabulary."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cverif'))
from terms import *
import terms as tm
from contract import contract, ContractMismatch, Region, SObj, SArr


def csc(c, A, rows=True, guard=None):
    """A is a well-formed compressed-column matrix"""
    if guard is not None:
        class G:
            ext = c.ext; extent = c.extent
            def requires(self, label, t): c.requires(label, implies(guard, t))
        return csc(G(), A, rows)
    c.extent(A.jc, A.n + 1); c.extent(A.ir, A.nnz); c.extent(A.pr, A.nnz)
    p = A.path
    c.requires(p + ' dimensions', and_(A.m >= 0, A.n >= 0, A.nnz >= 0))
    c.requires(p + ' column pointers', and_(A.jc[0].eq(0), A.jc[A.n].eq(A.nnz)))
    a, b = fresh('a', 'I'), fresh('b', 'I')
    c.requires(p + ' column pointers are monotone',
               forall_tmp([a, b], implies(and_(le(ZI, a), le(a, b), le(b, A.n)), A.jc[a] <= A.jc[b])))
    if rows:
        c.requires(p + ' row indices', forall(0, A.nnz, lambda k: and_(A.ir[k] >= 0, A.ir[k] < A.m)))


def dot(n, x, y): return sum_(0, n, lambda i: x(i) * y(i))


def norm(n, x): return app('sqrt', 'R', sum_(0, n, lambda i: x(i) * x(i)))


def rowsum(A, e, f):
    """sum over the entries k of A in row e of f(k, j)"""
    return sum_(0, A.n, lambda j: sum_(A.jc[j], A.jc[j + 1], lambda k: ite(eq(A.ir[k], e), f(k, j), ZR)))


def colsum(A, j, f):
    return sum_(A.jc[j], A.jc[lift(j) + 1], lambda k: f(k))


EPS = R(1e-13)


def safediv(x, y):
    x = toreal(lift(x, 'R')); y = toreal(lift(y, 'R'))
    return ite(lt(y, EPS), div(x, EPS), div(x, y))


class Cone:
    """well-formed cone structure; off(l) is the start of second-order cone l in a slack vector"""
    def __init__(self, c, C, scal=True):
        self.c = c; self.C = C; self.lp = C.lpc.p; self.nsoc = C.nsoc; self.nexc = C.nexc
        c.extent(C.soc, C.nsoc); c.extent(C.expc, C.nexc)
        p = C.path
        c.requires(p + ' sizes', and_(self.lp >= 0, self.nsoc >= 0, self.nexc >= 0))
        c.requires(p + ' second-order cones are non-empty', forall(0, self.nsoc, lambda l: C.soc[l].p >= 1))
        c.requires(p + ' position of the exponential cones', C.fexv.eq(self.off(self.nsoc)))
        c.extent(C.lpc.w, self.lp); c.extent(C.lpc.v, self.lp)
        s = C.soc[0]
        for f, d in (('q', -1), ('skbar', 0), ('zkbar', 0)):
            c.extent(getattr(s, f), lambda l, d=d: C.soc[l].p + d)
        c.extent(C.lpc.kkt_idx, self.lp)
        c.extent(s.Didx, lambda l: C.soc[l].p)
        e = C.expc[0]
        c.extent(e.colstart, lambda l: I(3)); c.extent(e.v, lambda l: I(6)); c.extent(e.g, lambda l: I(3))

    def off(self, l):
        return self.lp + sum_(0, l, lambda k: self.C.soc[k].p)

    @property
    def m(self): return self.off(self.nsoc) + 3 * self.nexc

    def soff(self, l, n=0):
        """position of cone l in a stretched vector (two extra entries per second-order cone)"""
        return self.lp + sum_(0, l, lambda k: self.C.soc[k].p + 2)

    @property
    def mt(self): return self.soff(self.nsoc) + 3 * self.nexc


class Work:
    """well-formed solver workspace"""
    def __init__(self, c, w, nnz=True, matrices=True):
        self.c = c; self.w = w; K = w.KKT
        self.n = w.n; self.m = w.m; self.p = w.p
        c.requires('sizes', and_(w.n >= 0, w.m >= 0, w.p >= 0))
        self.K = Cone(c, w.C)
        c.requires('m is the dimension of the cone', w.m.eq(self.K.m))
        for f in 'x best_x rx xequil c'.split(): c.extent(getattr(w, f + '_'), w.n)
        for f in 'y best_y ry Aequil b'.split(): c.extent(getattr(w, f), w.p)
        for f in 'z s lambda best_z best_s dsaff dzaff W_times_dzaff dsaff_by_W saff zaff rz Gequil h'.split(): c.extent(getattr(w, f), w.m)
        for f in ('dx1', 'dx2'): c.extent(getattr(K, f), w.n)
        for f in ('dy1', 'dy2'): c.extent(getattr(K, f), w.p)
        for f in ('dz1', 'dz2'): c.extent(getattr(K, f), w.m)
        self.N = N = w.n + w.p + self.K.mt
        for f in 'D work1 work2 work3 work4 work5 work6 RHS1 RHS2 P Pinv Parent Sign Pattern Flag Lnz'.split(): c.extent(getattr(K, f), N)
        c.may_null(w.A, w.p > 0)
        c.requires('the KKT matrix has the dimension of the stretched system', and_(K.PKPt.n.eq(N), K.PKPt.m.eq(N)))
        if matrices:
            csc(c, w.G); csc(c, w.A, guard=w.p > 0)
            c.requires('dimensions of the data', and_(w.G.m.eq(w.m), w.G.n.eq(w.n), implies(w.p > 0, and_(w.A.m.eq(w.p), w.A.n.eq(w.n)))))
            c.extent(w.GtoK, w.G.nnz); c.extent(w.AtoK, w.A.nnz)
            c.may_null(w.AtoK, w.p > 0)
            A = K.PKPt
            c.extent(A.jc, A.n + 1); c.extent(A.ir, A.nnz); c.extent(A.pr, A.nnz); c.extent(K.PK, A.nnz)
            c.requires('size of the KKT matrix', A.nnz >= 0)
            L = K.L
            c.extent(L.jc, L.n + 1); c.extent(L.ir, L.nnz); c.extent(L.pr, L.nnz)
            c.requires('size of the factor', and_(L.n.eq(N), L.m.eq(N), L.nnz >= 0))

    def perm(self):
        w = self.w
        self.c.requires('Pinv is a permutation', forall(0, self.N, lambda k: and_(w.KKT.Pinv[k] >= 0, w.KKT.Pinv[k] < self.N)))
        self.c.perm(w.KKT.Pinv, self.N)
