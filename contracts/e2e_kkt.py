"""Scenarios on the linear algebra between setup and solve: KKT system, factorisation, scalings, step lengths (bounded)."""
import ctypes as ct, math
from concrete import libc
from e2e import scenario, Fail, Skip
from e2e_solve import *
from e2e_solve import NAN
import numpy as np

DELTASTAT = 7e-8
V = ct.c_void_p; L = ct.c_long; D = ct.c_double


class Sys:
    """a workspace and dense views of its KKT system"""
    def __init__(self, lib, P, R):
        T = lib.types; self.T = T; self.dll = lib.dll; self.P = P; self.R = R; w = R.pw; self.w = w
        self.K = T.struct('kkt').from_address(w.KKT); self.C = T.struct('cone').from_address(w.C)
        self.M = T.struct('spmat').from_address(self.K.PKPt)
        self.N = self.M.n
        self.Pinv = geti(self.K.Pinv, self.N)
        self.lpc = T.struct('lpcone').from_address(self.C.lpc)
        S = T.struct('socone'); self.soc = [S.from_address(self.C.soc + k * ct.sizeof(S)) for k in range(len(P.q))]
        E = T.struct('expcone'); self.exp = [E.from_address(self.C.expc + k * ct.sizeof(E)) for k in range(P.ne)]
        # stretched row of every entry of z, and the pairs of extra rows
        o = P.n + P.p; self.rows = []; self.extra = []
        for i in range(P.l): self.rows.append(o); o += 1
        for q in P.q:
            self.rows += list(range(o, o + q)); self.extra.append((o + q, o + q + 1)); o += q + 2
        self.rows += list(range(o, o + 3 * P.ne)); o += 3 * P.ne
        self.Nexp = o
        self.signs = [1] * P.n + [-1] * (o - P.n)
        for a, b in self.extra: self.signs[b] = 1

    def fn(self, name, res, *args):
        f = getattr(self.dll, name); f.restype = res; f.argtypes = list(args); return f

    def perm_dense(self):
        """symmetric dense PKPt (upper part stored)"""
        M = self.M; N = self.N; jc = geti(M.jc, N + 1); ir = geti(M.ir, jc[N]); pr = getv(M.pr, jc[N])
        A = np.zeros((N, N))
        for j in range(N):
            for k in range(jc[j], jc[j + 1]):
                if ir[k] > j: raise Fail('the permuted KKT matrix stores its upper triangle', 'entry (%d,%d)' % (ir[k], j), self.P.show())
                A[ir[k], j] += pr[k]
                if ir[k] != j: A[j, ir[k]] += pr[k]
        return A

    def dense(self):
        A = self.perm_dense(); p = self.Pinv
        return A[np.ix_(p, p)]

    def data(self):
        """equilibrated G and A"""
        P = self.P; G = np.zeros((P.m, P.n)); A = np.zeros((P.p, P.n))
        for M, addr in ((G, self.w.G), (A, self.w.A)):
            if not addr or not M.shape[0]: continue
            s = self.T.struct('spmat').from_address(addr); jc = geti(s.jc, P.n + 1); ir = geti(s.ir, jc[P.n]); pr = getv(s.pr, jc[P.n])
            for j in range(P.n):
                for k in range(jc[j], jc[j + 1]): M[ir[k], j] += pr[k]
        return G, A

    def scaling(self):
        """dense W (symmetric cones) and W^2 with the exponential Hessian blocks"""
        P = self.P; W = np.zeros((P.m, P.m)); W2 = np.zeros((P.m, P.m))
        w = getv(self.lpc.w, P.l); v = getv(self.lpc.v, P.l)
        for i in range(P.l): W[i, i] = w[i]; W2[i, i] = v[i]
        o = P.l
        for s, q in zip(self.soc, P.q):
            qq = np.array(getv(s.q, q - 1)); B = np.zeros((q, q))
            B[0, 0] = s.a; B[0, 1:] = qq; B[1:, 0] = qq; B[1:, 1:] = np.eye(q - 1) + np.outer(qq, qq) / (1 + s.a)
            W[o:o + q, o:o + q] = s.eta * B; W2[o:o + q, o:o + q] = s.eta_square * (B @ B); o += q
        for e in self.exp:
            a = list(e.v); H = np.array([[a[0], a[1], a[3]], [a[1], a[2], a[4]], [a[3], a[4], a[5]]])
            W2[o:o + 3, o:o + 3] = H; o += 3
        return W, W2


def the_system(lib, r, ne=None):
    P = gen_feasible(r, ne=r.choice([0, 0, 0, 1, 2]) if ne is None else ne)
    R = Run(lib, P)
    if not R.setup(): R.free(); raise Fail('a well formed problem is set up', 'ECOS_setup returned NULL', P.show())
    return P, R


def close(A, B, tol):
    return np.all(np.abs(A - B) <= tol * (1 + np.abs(A) + np.abs(B)))


def check_structure(S, diag=True):
    P = S.P; n, p = P.n, P.p; sh = P.show()
    if S.N != S.Nexp: raise Fail('dimension of the stretched KKT system', '%d, expected %d' % (S.N, S.Nexp), sh)
    if sorted(S.Pinv) != list(range(S.N)): raise Fail('Pinv is a permutation', repr(S.Pinv), sh)
    Pm = geti(S.K.P, S.N)
    if any(S.Pinv[Pm[i]] != i for i in range(S.N)): raise Fail('P and Pinv are inverse', '', sh)
    sg = geti(S.K.Sign, S.N)
    if [sg[S.Pinv[i]] for i in range(S.N)] != S.signs: raise Fail('signs of the pivots: + for x and the u-row of a second-order cone, - otherwise', repr([sg[S.Pinv[i]] for i in range(S.N)]), sh)
    K = S.dense(); G, A = S.data()
    if not close(K[:n, :n], DELTASTAT * np.eye(n), 1e-12): raise Fail('(1,1) block of the KKT matrix is the static regularisation', repr(K[:n, :n]), sh)
    if not np.array_equal(K[n:n + p, :n], A): raise Fail('A block of the KKT matrix', repr((K[n:n + p, :n], A)), sh)
    if not close(K[n:n + p, n:n + p], -DELTASTAT * np.eye(p), 1e-12): raise Fail('(2,2) block of the KKT matrix is the static regularisation', repr(K[n:n + p, n:n + p]), sh)
    if not np.array_equal(K[np.ix_(S.rows, range(n))], G): raise Fail('G block of the KKT matrix', repr((K[np.ix_(S.rows, range(n))], G)), sh)
    ex = [i for pr in S.extra for i in pr]
    if ex and np.any(K[np.ix_(ex, range(n + p))]): raise Fail('the auxiliary rows of second-order cones do not touch x and y', '', sh)
    if np.any(K[np.ix_(S.rows, range(n, n + p))]): raise Fail('y and z are not coupled directly', '', sh)
    return K


def schur(S, K):
    """the z block after eliminating the auxiliary variables"""
    B = K[np.ix_(S.rows, S.rows)]
    ex = [i for pr in S.extra for i in pr]
    if ex:
        X = K[np.ix_(ex, ex)]; Y = K[np.ix_(S.rows, ex)]
        B = B - Y @ np.linalg.solve(X, Y.T)
    return B


def random_cone_point(r, S, wide=None):
    P = S.P
    if wide is None: wide = r.random() < 0.5
    f = (lambda: 10.0 ** r.uniform(-3, 3)) if wide else (lambda: 1.0)
    s = interior(r, P.l, P.q, 0); z = interior(r, P.l, P.q, 0)
    o = 0
    def sc(v):
        o = P.l; v = list(v)
        for i in range(P.l): v[i] *= f()
        for q in P.q:
            g = f()
            for i in range(o, o + q): v[i] *= g
            o += q
        return v
    s = sc(s); z = sc(z)
    if P.ne:
        t = interior(r, 0, [], P.ne); u = interior(r, 0, [], P.ne, dual=True)
        s += t; z += u
    return s, z


def set_scalings(S, s, z, mu):
    """run the real updateScalings on (s,z); -> lambda"""
    m = S.P.m
    a = arr(s); b = arr(z); l = arr([NAN] * m)
    try:
        f = S.fn('updateScalings', L, V, V, V, V, D)(S.w.C, a, b, l, mu)
        lam = getv(l, m)
        if f != 0: raise Fail('scalings exist for points inside the cones', 'updateScalings returned %d' % f, S.P.show() + ['s=%r' % s, 'z=%r' % z])
        if getv(a, m) != s or getv(b, m) != z: raise Fail('updateScalings does not change s and z', '', S.P.show())
        return lam
    finally:
        for x in (a, b, l): libc.free(x)


@scenario('scalings')
def _(lib, r):
    """W z = lambda = W^-1 s for the Nesterov-Todd scaling, and the KKT matrix receives exactly -W^2"""
    P, R = the_system(lib, r)
    try:
        S = Sys(lib, P, R); check_structure(S)
        sh = P.show()
        S.fn('kkt_init', None, V, V, V)(S.K.PKPt, S.K.PK, S.w.C)
        K = check_structure(S)
        o = P.l + sum(P.q)
        B = schur(S, K)[:o, :o]
        if not close(B, -np.eye(o), 1e-6): raise Fail('kkt_init writes -I into the (3,3) block', repr(B), sh)
        n = 0
        for rep in range(3):
            s, z = random_cone_point(r, S); mu = 10.0 ** r.uniform(-4, 1)
            lam = np.array(set_scalings(S, s, z, mu)); W, W2 = S.scaling()
            sh2 = sh + ['s=%r' % s, 'z=%r' % z]
            # reference from the definition of the scaling point, independent of the stored fields
            o = P.l
            for i in range(P.l):
                if not close(W2[i, i], s[i] / z[i], 1e-9): raise Fail('v = s/z on the LP cone', '%r' % W2[i, i], sh2)
            for k, q in enumerate(P.q):
                sk = np.array(s[o:o + q]); zk = np.array(z[o:o + q]); J = np.diag([1.0] + [-1.0] * (q - 1))
                sb = sk / math.sqrt(sk @ J @ sk); zb = zk / math.sqrt(zk @ J @ zk)
                g = math.sqrt((1 + sb @ zb) / 2); wb = (sb + J @ zb) / (2 * g)
                e2 = math.sqrt((sk @ J @ sk) / (zk @ J @ zk))
                ref = e2 * (2 * np.outer(wb, wb) - J)
                kap = 1 + np.abs(ref).max() / e2
                if np.abs(W2[o:o + q, o:o + q] - ref).max() > 1e-9 * kap ** 2 * e2: raise Fail('stored Nesterov-Todd scaling of a second-order cone', repr((W2[o:o + q, o:o + q], ref)), sh2)
                Wk = W[o:o + q, o:o + q]; lk = lam[o:o + q]
                if np.abs(Wk @ zk - lk).max() > 1e-8 * kap ** 2 * (1e-300 + np.abs(Wk).max() * np.abs(zk).max()): raise Fail('lambda = W z', repr((Wk @ zk, lk)), sh2)
                if np.abs(Wk @ lk - sk).max() > 1e-7 * kap ** 2 * (1e-300 + np.abs(Wk).max() * np.abs(lk).max()): raise Fail('W lambda = s', repr((Wk @ lk, sk)), sh2)
                o += q
            for i in range(P.l):
                if not close(lam[i] ** 2, s[i] * z[i], 1e-9): raise Fail('lambda = W z = W^-1 s on the LP cone', '%r' % lam[i], sh2)
            S.fn('kkt_update', None, V, V, V)(S.K.PKPt, S.K.PK, S.w.C)
            K = check_structure(S); B = schur(S, K)
            tol = np.zeros((P.m, P.m))
            o = P.l
            for q, sc in zip(P.q, S.soc):
                blk = W2[o:o + q, o:o + q]; mx = np.abs(blk).max()
                tol[o:o + q, o:o + q] = 1e-9 * mx * (1 + mx / sc.eta_square) + 4 * DELTASTAT * (1 + (mx / sc.eta_square)) * (1 + 1 / sc.eta_square) * 1 ; o += q
            tol += 2 * DELTASTAT + 1e-12 * np.abs(W2)
            bad = np.abs(B + W2) > tol
            if bad.any():
                i, j = np.argwhere(bad)[0]
                raise Fail('kkt_update writes -W^2 into the (3,3) block', 'entry (%d,%d): %.17g, W^2 has %.17g' % (i, j, B[i, j], W2[i, j]), sh2)
            n += 1
        return n
    finally:
        if R.w: R.cleanup(0)
        R.free()


def prepared(lib, r, S, wide=None):
    """KKT matrix at a random interior point, or the initial one; -> (isinit, W2)"""
    init = r.random() < 0.25 and S.P.ne == 0
    if init:
        S.fn('kkt_init', None, V, V, V)(S.K.PKPt, S.K.PK, S.w.C)
        return 1, np.eye(S.P.m), None, None
    s, z = random_cone_point(r, S, wide)
    set_scalings(S, s, z, 10.0 ** r.uniform(-4, 1)); W, W2 = S.scaling()
    S.fn('kkt_update', None, V, V, V)(S.K.PKPt, S.K.PK, S.w.C)
    return 0, W2, s, z


def factor_of(S):
    N = S.N; Ls = S.T.struct('spmat').from_address(S.K.L)
    jc = geti(Ls.jc, N + 1); cap = jc[N]; ir = geti(Ls.ir, cap); pr = getv(Ls.pr, cap); lnz = geti(S.K.Lnz, N)
    Lm = np.eye(N)
    for j in range(N):
        if jc[j] + lnz[j] > jc[j + 1]: raise Fail('columns of the factor stay inside their storage', 'column %d' % j, S.P.show())
        for k in range(jc[j], jc[j] + lnz[j]):
            if not j < ir[k] < N: raise Fail('the factor is strictly lower triangular', 'entry (%d,%d)' % (ir[k], j), S.P.show())
            Lm[ir[k], j] += pr[k]
    return Lm, np.array(getv(S.K.D, N))


@scenario('factor')
def _(lib, r):
    """L D L' = P K P', pivots have the prescribed signs, small pivots are regularised"""
    P, R = the_system(lib, r)
    try:
        S = Sys(lib, P, R); n = 0
        for rep in range(2):
            isinit, W2, s, z = prepared(lib, r, S, WIDE)
            sh = P.show() + ['s=%r' % s, 'z=%r' % z]
            M = S.perm_dense(); before = getv(S.M.pr, geti(S.M.jc, S.N + 1)[S.N])
            eps, delta = r.choice([(1e-14, 2e-7), (1e-14, 2e-7), (1e-14, 0.5), (1e-7, 1e-3), (1e-2, 0.5), (1e-7, 2e-7)])
            f = S.fn('kkt_factor', L, V, D, D)(S.w.KKT, eps, delta)
            if getv(S.M.pr, len(before)) != before: raise Fail('factorisation leaves the KKT matrix alone', '', sh)
            Lm, d = factor_of(S); sg = np.array(geti(S.K.Sign, S.N), float)
            if f != 1: raise Fail('the regularised KKT matrix can always be factored', 'kkt_factor returned %d' % f, sh)
            if not (np.isfinite(Lm).all() and np.isfinite(d).all()): continue   # overflow after tiny pivots
            if any(S.signs[i] != sg[S.Pinv[i]] for i in range(S.Nexp)): raise Fail('the prescribed signs are those of the quasi-definite KKT system', '%r, expected %r' % ([int(sg[S.Pinv[i]]) for i in range(S.Nexp)], S.signs), sh)
            low = sg * d < min(eps, delta) * (1 - 1e-9)
            if low.any(): raise Fail('every pivot has its prescribed sign and at least the threshold size', 'pivots %r signs %r' % (d, sg), sh)
            E = Lm @ np.diag(d) @ Lm.T - M; A = np.abs(Lm) @ np.diag(np.abs(d)) @ np.abs(Lm.T) + 1e-300
            off = np.abs(E - np.diag(np.diag(E))) > 1e-9 * A
            if off.any(): raise Fail("L D L' reproduces the off-diagonal part of the KKT matrix", repr(np.argwhere(off)[:3].tolist()), sh)
            for i in range(S.N):
                e = E[i, i]
                if abs(e) <= 1e-9 * A[i, i]: continue
                # a regularised pivot: D = sign*delta replaced a pivot not above the threshold
                if d[i] != sg[i] * delta: raise Fail("L D L' reproduces the diagonal of the KKT matrix", 'pivot %d: difference %.3g, D=%.17g' % (i, e, d[i]), sh)
                if sg[i] * (d[i] - e) > eps + 1e-9 * A[i, i]: raise Fail('only pivots below the threshold are replaced', 'pivot %d was %.17g, threshold %g' % (i, d[i] - e, eps), sh)
            n += 1
        return n
    finally:
        if R.w: R.cleanup(0)
        R.free()


WIDE = None


@scenario('kktsystem')
def _(lib, r):
    """kkt_solve returns a solution of the (unregularised, unpermuted) KKT system"""
    P, R = the_system(lib, r)
    try:
        S = Sys(lib, P, R); n, p, m = P.n, P.p, P.m; cnt = 0
        G, A = S.data()
        for rep in range(2):
            isinit, W2, s, z = prepared(lib, r, S, WIDE)
            sh = P.show() + ['s=%r' % s, 'z=%r' % z]
            cond = np.linalg.cond(S.dense())
            S.fn('kkt_factor', L, V, D, D)(S.w.KKT, 1e-13, 2e-7)
            pert = r.random() < 0.3
            if pert:   # an inexact factorisation, which iterative refinement has to make up for
                d = getv(S.K.D, S.N)
                for i, v in enumerate(d): ct.c_double.from_address(S.K.D + 8 * i).value = v * (1 + 1e-5 * r.uniform(-1, 1))
            if not P.q and r.random() < 0.5:   # factors so wrong that refinement may diverge: the best solution is kept
                f0 = r.uniform(0.1, 0.9); d = getv(S.K.D, S.N); M = S.dense(); out = []
                for i, v in enumerate(d): ct.c_double.from_address(S.K.D + 8 * i).value = v * f0
                rhs = [r.gauss(0, 1) for _ in range(S.N)]; Pb = [0.0] * S.N
                for i, v in enumerate(rhs): Pb[S.Pinv[i]] = v
                for nit in (0, 9):
                    a = arr(Pb); dx = arr([NAN] * n); dy = arr([NAN] * p); dz = arr([NAN] * m)
                    S.fn('kkt_solve', L, V, V, V, V, V, V, V, L, L, L, V, L, L)(S.w.KKT, S.w.A or None, S.w.G, a, dx, dy, dz, n, p, m, S.w.C, isinit, nit)
                    v = np.array(getv(dx, n) + getv(dy, p) + getv(dz, m)); out.append((np.abs(np.array(rhs) - M @ v).max(), 1e-6 * (1 + np.abs(M) @ np.abs(v)).max()))
                    for t in (a, dx, dy, dz): libc.free(t)
                if not out[1][0] <= out[0][0] * (1 + 1e-6) + out[1][1] + out[0][1]: raise Fail('refinement never returns a worse solution than it started from', 'residual %.3g with refinement, %.3g without' % (out[1][0], out[0][0]), sh + ['rhs=%r' % rhs])
                cnt += 1
                continue
            over = 0; nrr = 3 if pert else 2
            for rr in range(nrr):
                bx = [r.gauss(0, 1) for _ in range(n)]; by = [r.gauss(0, 1) for _ in range(p)]; bz = [r.gauss(0, 1) for _ in range(m)]
                if r.random() < 0.3: bx = [0.0] * n
                Pb = [0.0] * S.N
                for i in range(n): Pb[S.Pinv[i]] = bx[i]
                for i in range(p): Pb[S.Pinv[n + i]] = by[i]
                for i in range(m): Pb[S.Pinv[S.rows[i]]] = bz[i]
                nit = 9 if pert else r.choice([9, 9, 9, 3, 1, 0])
                a = arr(Pb); dx = arr([NAN] * n); dy = arr([NAN] * p); dz = arr([NAN] * m)
                f = S.fn('kkt_solve', L, V, V, V, V, V, V, V, L, L, L, V, L, L)(S.w.KKT, S.w.A or None, S.w.G, a, dx, dy, dz, n, p, m, S.w.C, isinit, nit)
                x, y, zz = np.array(getv(dx, n)), np.array(getv(dy, p)), np.array(getv(dz, m)); after = getv(a, S.N)
                for t in (a, dx, dy, dz): libc.free(t)
                if after != Pb: raise Fail('the right-hand side is not modified', '', sh)
                if not 0 <= f <= nit: raise Fail('number of refinement steps within the limit', '%d of %d' % (f, nit), sh)
                sh3 = sh + ['rhs=%r' % (bx + by + bz)]
                if not all(np.all(np.isfinite(t)) for t in (x, y, zz)): raise Fail('search directions are finite', '', sh3)
                ex = np.array(bx) - A.T @ y - G.T @ zz; ey = np.array(by) - A @ x; ez = np.array(bz) - G @ x + W2 @ zz
                sx = 1 + np.abs(A.T) @ np.abs(y) + np.abs(G.T) @ np.abs(zz); sy = 1 + np.abs(A) @ np.abs(x); sz = 1 + np.abs(G) @ np.abs(x) + np.abs(W2) @ np.abs(zz)
                big = max(1.0, np.abs(x).max() if n else 0, np.abs(y).max() if p else 0, np.abs(zz).max() if m else 0)
                res = max([np.abs(t).max() for t in (ex, ey, ez) if len(t)]) / (1 + big)
                if cond < 1e8 and (not pert or nit >= 9 and cond < 1e6):
                    tol = 1e-6 if nit == 0 else 1.5e-7
                    # refinement stops when it gains less than a constant factor: now and then too early, but not for every right-hand side
                    over += not res <= tol
                    if not res <= (1e-4 if pert else tol) or over == nrr: raise Fail('kkt_solve solves the KKT system [0 A\' G\'; A 0 0; G 0 -W^2] up to the static regularisation', 'residual %.3g relative to the solution (%d refinement steps allowed, %d taken)' % (res, nit, f), sh3)
                cnt += 1
        return cnt
    finally:
        if R.w: R.cleanup(0)
        R.free()


STEPMIN, STEPMAX, SIGMAMIN, SIGMAMAX = 1e-6, 0.999, 1e-4, 1.0


def soc_step(v, d):
    """largest a >= 0 with v + a d in the second-order cone (v inside)"""
    J = np.diag([1.0] + [-1.0] * (len(v) - 1))
    a, b, c = d @ J @ d, 2 * (v @ J @ d), v @ J @ v
    best = INFTY
    if d[0] < 0: best = -v[0] / d[0]
    if abs(a) < 1e-14 * (1 + abs(b)):
        roots = [-c / b] if b else []
    else:
        disc = b * b - 4 * a * c
        if disc < 0: roots = []
        else:
            q = -(b + math.copysign(math.sqrt(disc), b)) / 2
            roots = [q / a] + ([c / q] if q else [])
    for t in roots:
        if t > 0: best = min(best, t)
    return best


@scenario('linesearch')
def _(lib, r):
    """the line search returns the largest step to the boundary of the symmetric cones, clipped to its limits"""
    P, R = the_system(lib, r)
    try:
        S = Sys(lib, P, R); m = P.m; cnt = 0
        o = P.l + sum(P.q)
        for rep in range(6):
            lam = interior(r, P.l, P.q, 0) + [r.gauss(0, 1) for _ in range(3 * P.ne)]
            sc = r.choice([0.3, 1, 1, 3, 10])
            ds = [sc * r.gauss(0, 1) for _ in range(m)]; dz = [sc * r.gauss(0, 1) for _ in range(m)]
            if r.random() < 0.2: ds = [abs(t) if i < P.l else t for i, t in enumerate(ds)]
            if r.random() < 0.2: dz = [abs(t) if i < P.l else t for i, t in enumerate(dz)]
            if r.random() < 0.1: ds = [1e7 * t for t in ds]
            tau, kap = r.uniform(0.1, 2), r.uniform(0.1, 2); dt, dk = r.gauss(0, 1) * sc, r.gauss(0, 1) * sc
            a, b, c = arr(lam), arr(ds), arr(dz)
            al = S.fn('lineSearch', D, V, V, V, D, D, D, D, V, V)(a, b, c, tau, dt, kap, dk, S.w.C, S.w.KKT)
            same = getv(a, m) == lam and getv(b, m) == ds and getv(c, m) == dz
            for t in (a, b, c): libc.free(t)
            sh = P.show() + ['lambda=%r' % lam, 'ds=%r' % ds, 'dz=%r' % dz, 'tau=%r dtau=%r kap=%r dkap=%r' % (tau, dt, kap, dk)]
            if not same: raise Fail('the line search does not change its arguments', '', sh)
            ref = STEPMAX
            if dt < 0: ref = min(ref, -tau / dt)
            if dk < 0: ref = min(ref, -kap / dk)
            for v in (ds, dz):
                for i in range(P.l):
                    if v[i] < 0: ref = min(ref, -lam[i] / v[i])
                k = P.l
                for q in P.q:
                    ref = min(ref, soc_step(np.array(lam[k:k + q]), np.array(v[k:k + q]))); k += q
            ref = max(ref, STEPMIN)
            if not STEPMIN <= al <= STEPMAX: raise Fail('step lengths stay within their limits', '%r' % al, sh)
            if abs(al - ref) > 1e-7 * ref + 1e-9: raise Fail('the line search returns the largest step to the boundary of the symmetric cones', '%.17g, expected %.17g' % (al, ref), sh)
            cnt += 1
        return cnt
    finally:
        if R.w: R.cleanup(0)
        R.free()


FIELDS = 'step step_aff sigma mu'.split()


def iterate(lib, P, k, st):
    """state of the solver after k iterations (tolerances that are never met)"""
    R = Run(lib, P)
    if not R.setup(**st): R.free(); raise Fail('a well formed problem is set up', 'ECOS_setup returned NULL', P.show())
    try:
        R.st.maxit = k
        f = R.solve(); w = R.pw
        d = dict(flag=f, iter=R.info.iter, tau=w.tau, kap=w.kap, rx=np.array(getv(w.rx, P.n)), ry=np.array(getv(w.ry, P.p)), rz=np.array(getv(w.rz, P.m)), rt=w.rt,
                 s=np.array(R.s), z=np.array(R.z), x=np.array(R.x), y=np.array(R.y), D=w.D)
        for g in FIELDS: d[g] = getattr(R.info, g)
        C = lib.types.struct('stats').from_address(w.best_info); d['biter'] = C.iter; d['current'] = not (k > 0 and C.iter < R.info.iter and w.tau == w.best_tau and w.kap == w.best_kap)
        K = lib.types.struct('kkt').from_address(w.KKT)
        d['size'] = max([1.0] + [abs(t) for f, c in (('dx2', P.n), ('dy2', P.p), ('dz2', P.m), ('dx1', P.n), ('dy1', P.p), ('dz1', P.m)) for t in getv(getattr(K, f), c)])
        return d
    finally:
        if R.w: R.cleanup(0)
        R.free()




@scenario('newtonstep')
def _(lib, r):
    """a step of the solver reduces all linear residuals by the factor 1 - step*(1-sigma) and stays in the cones"""
    P = gen_any(r)
    if P.wild: raise Skip('no structure')
    k = r.randint(0, 12)
    st = dict(feastol=1e-13, abstol=1e-13, reltol=1e-13, feastol_inacc=1e-13, abstol_inacc=1e-13, reltol_inacc=1e-13)
    a = iterate(lib, P, k, st); b = iterate(lib, P, k + 1, st)
    sh = P.show() + ['maxit=%d' % k]
    cnt = 0
    for d, kk in ((a, k), (b, k + 1)):
        if d['flag'] not in (MAXIT, OPT, OPT + INACC): continue
        if kk:
            if not SIGMAMIN <= d['sigma'] <= SIGMAMAX: raise Fail('centering parameter within its limits', '%r' % d['sigma'], sh)
        if not (d['tau'] > 0 and d['kap'] > 0): raise Fail('tau and kappa stay positive', '%r %r' % (d['tau'], d['kap']), sh)
        bad = []
        for nm, v in (('s', d['s']), ('z', d['z'])):
            slack = 1e-13 * (1 + np.abs(v).max())
            for i in range(P.l):
                if not v[i] > -slack: bad.append('%s[%d]=%.17g' % (nm, i, v[i]))
            for kd, bl in blocks(P, list(v)):
                if kd == 'soc' and not soc_margin(bl) > -slack: bad.append('%s block %r' % (nm, bl))
                if kd == 'exp' and (expdist(bl) if nm == 's' else expdualdist(bl)) > 1e-13: bad.append('%s block %r' % (nm, bl))
        if bad: raise Fail('iterates stay inside the cones', '; '.join(bad)[:300], sh)
        cnt += 1
    if a['flag'] == b['flag'] == MAXIT and a['iter'] == k and b['iter'] == k + 1:
        f = 1 - b['step'] * (1 - b['sigma'])
        sz = b['size'] * (1 + b['step'])
        e = max([0.0] + [np.abs(b[g] - f * a[g]).max() for g in ('rx', 'ry', 'rz') if len(a[g])] + [0])
        et = abs(b['rt'] - f * a['rt'])
        if e > 1e-5 * sz: raise Fail('a step scales the residuals of the embedding by 1 - step*(1-sigma)', 'off by %.3g (direction of size %.3g)' % (e, sz), sh)
        if et > 1e-11 * sz: raise Fail('a step scales the gap residual of the embedding by 1 - step*(1-sigma)', 'off by %.3g (direction of size %.3g)' % (et, sz), sh)
        if not 0 < b['step'] <= STEPMAX * 0.99 * (1 + 1e-12): raise Fail('step length within its limits', '%r' % b['step'], sh)
        if a['current'] and b['current'] and b['step'] > 2e-6:
            g = 0.01 * (1 - 1e-6); bad = []
            for nm in 'sz':
                u = a['tau'] * a[nm]; v = b['tau'] * b[nm] - g * u; slack = 1e-11 * (np.abs(v).max() + np.abs(u).max())
                for i in range(P.l):
                    if v[i] < -slack: bad.append('%s[%d]' % (nm, i))
                for kd, bl in blocks(P, list(v)):
                    if kd == 'soc' and soc_margin(bl) < -slack: bad.append('%s block %r' % (nm, bl))
            if b['tau'] < g * a['tau'] * (1 - 1e-9): bad.append('tau')
            if b['kap'] < g * a['kap'] * (1 - 1e-9): bad.append('kap')
            if bad: raise Fail('a step keeps at least 1-gamma of the distance to the boundary', '; '.join(map(str, bad))[:300], sh)
            cnt += 1
    return cnt + 1


def rand_matrix(r, m, n, upper=False):
    dens = r.choice([0.0, 0.1, 0.3, 0.6, 1.0])
    jc = [0]; ir = []
    for j in range(n):
        rows = [i for i in range(m) if r.random() < dens and not (upper and i > j)]
        if r.random() < 0.3: r.shuffle(rows)
        ir += rows; jc.append(len(ir))
    pr = [r.choice([0.0, -0.0, 1.0, float('inf')]) if r.random() < 0.1 else r.gauss(0, 1) * 10 ** r.uniform(-8, 8) for _ in ir]
    return jc, ir, pr


def entries(jc, ir, pr):
    return [(ir[k], j, pr[k]) for j in range(len(jc) - 1) for k in range(jc[j], jc[j + 1])]


@scenario('sparsetools')
def _(lib, r):
    """transposing, copying and symmetrically permuting compressed-column matrices: exactly the same entries, moved"""
    T = lib.types; dll = lib.dll; S = T.struct('spmat')
    for nm, res, at in (('ecoscreateSparseMatrix', V, (L, L, L, V, V, V)), ('transposeSparseMatrix', V, (V, V)), ('copySparseMatrix', V, (V,)), ('newSparseMatrix', V, (L, L, L)),
                        ('freeSparseMatrix', None, (V,)), ('permuteSparseSymmetricMatrix', None, (V, V, V, V)), ('pinv', None, (L, V, V))):
        f = getattr(dll, nm); f.restype = res; f.argtypes = list(at)
    cnt = 0; CAN = -987654321

    def show(m, n, d): return ['%d x %d' % (m, n), 'column pointers %r' % (d[0],), 'row indices %r' % (d[1],), 'values %r' % (d[2],)]

    def make(m, n, d): return dll.ecoscreateSparseMatrix(m, n, len(d[1]), arr(d[0], ct.c_long), arr(d[1], ct.c_long), arr(d[2]))

    def look(a):
        s = S.from_address(a); jc = geti(s.jc, s.n + 1)
        return s.m, s.n, s.nnz, jc, geti(s.ir, s.nnz), getv(s.pr, s.nnz)

    def wellformed(what, v, m, n, nnz, sh):
        if v[:3] != (m, n, nnz): raise Fail('%s has the right dimensions' % what, '%r' % (v[:3],), sh)
        if v[3][0] != 0 or v[3][n] != nnz or any(a > b for a, b in zip(v[3], v[3][1:])): raise Fail('%s has proper column pointers' % what, '%r' % v[3], sh)
        if any(not 0 <= i < m for i in v[4]): raise Fail('%s has row indices within range' % what, '%r' % v[4], sh)

    for rep in range(4):
        m, n = r.randint(0, 7), r.randint(0, 7)
        d = rand_matrix(r, m, n); nnz = len(d[1]); sh = show(m, n, d); M = make(m, n, d)
        mp = arr([CAN] * (nnz + 2), ct.c_long)
        A = dll.transposeSparseMatrix(M, mp); B = dll.copySparseMatrix(M)
        at = look(A); bt = look(B); mm = geti(mp, nnz + 2)
        if look(M)[3:] != d: raise Fail('the source matrix is unchanged', '', sh)
        wellformed('the transpose', at, n, m, nnz, sh)
        if sorted((j, i, repr(x)) for i, j, x in entries(*at[3:])) != sorted((i, j, repr(x)) for i, j, x in entries(*d)): raise Fail('the transpose has the entries of the matrix', '%r' % (at,), sh)
        if mm[nnz:] != [CAN, CAN]: raise Fail('the index map stays within its array', '', sh)
        if nnz:
            if sorted(mm[:nnz]) != list(range(nnz)): raise Fail('the index map of the transpose is a permutation', '%r' % mm[:nnz], sh)
            te = entries(*at[3:])
            for k, (i, j, x) in enumerate(entries(*d)):
                if (te[mm[k]][1], te[mm[k]][0], repr(te[mm[k]][2])) != (i, j, repr(x)): raise Fail('the index map sends every entry to its place in the transpose', 'entry %d' % k, sh)
        wellformed('the copy', bt, m, n, nnz, sh)
        if repr(bt[3:]) != repr(d): raise Fail('the copy equals the matrix', '%r' % (bt,), sh)
        for x in (A, B, M): dll.freeSparseMatrix(x)
        libc.free(mp); cnt += 1
        # symmetric permutation (upper triangle; entries below the diagonal are ignored)
        n = r.randint(1, 8); up = r.random() < 0.8
        d = rand_matrix(r, n, n, upper=up); sh = show(n, n, d); M = make(n, n, d)
        keep = [e for e in entries(*d) if e[0] <= e[1]]
        if len(keep) != len(d[1]): C = dll.newSparseMatrix(n, n, len(keep))
        else: C = dll.newSparseMatrix(n, n, len(d[1]))
        P = list(range(n)); r.shuffle(P)
        p = arr(P, ct.c_long); q = arr([CAN] * (n + 1), ct.c_long)
        dll.pinv(n, p, q); Q = geti(q, n + 1)
        sh = sh + ['permutation %r' % P]
        if any(Q[P[i]] != i for i in range(n)) or Q[n] != CAN: raise Fail('the inverse permutation undoes the permutation', '%r' % Q, sh)
        withmap = r.random() < 0.8
        pk = arr([CAN] * (len(d[1]) + 2), ct.c_long)
        dll.permuteSparseSymmetricMatrix(M, q, C, pk if withmap else None)
        cv = look(C); pm = geti(pk, len(d[1]) + 2)
        wellformed('the permuted matrix', cv, n, n, len(keep), sh)
        if repr(look(M)[3:]) != repr(d): raise Fail('the source matrix is unchanged', '', sh)
        ce = entries(*cv[3:])
        if any(i > j for i, j, x in ce): raise Fail('the permuted matrix stores its upper triangle', '%r' % (ce,), sh)
        want = sorted((min(Q[i], Q[j]), max(Q[i], Q[j]), repr(x)) for i, j, x in keep)
        if sorted((i, j, repr(x)) for i, j, x in ce) != want: raise Fail('the permuted matrix has the entries of the matrix', '%r' % (ce,), sh)
        if withmap:
            if pm[len(d[1]):] != [CAN, CAN]: raise Fail('the index map stays within its array', '', sh)
            used = []
            for k, (i, j, x) in enumerate(entries(*d)):
                if i > j: continue
                t = pm[k]; used.append(t)
                if not 0 <= t < len(keep) or (ce[t][0], ce[t][1], repr(ce[t][2])) != (min(Q[i], Q[j]), max(Q[i], Q[j]), repr(x)):
                    raise Fail('the index map sends every entry to its place in the permuted matrix', 'entry %d -> %d' % (k, t), sh)
            if sorted(used) != list(range(len(keep))): raise Fail('the index map of the permutation is one to one', '%r' % used, sh)
        for x in (C, M): dll.freeSparseMatrix(x)
        for x in (p, q, pk): libc.free(x)
        cnt += 1
    return cnt
