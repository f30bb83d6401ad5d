"""End-to-end scenarios: interrupts, equilibration, exponential cones (bounded)."""
import ctypes as ct, math
from concrete import libc
from e2e import scenario, Fail, Skip
from e2e_solve import *
from e2e_solve import NAN

SIGINT_ = 2


class SigAction(ct.Structure):
    _fields_ = [('handler', ct.c_void_p), ('mask', ct.c_ulong * 16), ('flags', ct.c_int), ('restorer', ct.c_void_p)]


def disposition():
    a = SigAction(); libc.sigaction(SIGINT_, None, ct.byref(a)); return a


def install(h, flags):
    a = SigAction(); a.handler = h; a.flags = flags
    old = SigAction(); libc.sigaction(SIGINT_, ct.byref(a), ct.byref(old))
    return old


HITS = [0]
PYH = ct.CFUNCTYPE(None, ct.c_int)(lambda s: HITS.__setitem__(0, HITS[0] + 1))


@scenario('interrupt')
def _(lib, r):
    """an interrupt ends the solve at the next poll like an iteration limit, and the caller's handler is back afterwards"""
    P = gen_any(r); st = settings(r)
    at = ct.c_int.in_dll(lib.dll, 'verif_int_at'); polls = ct.c_int.in_dll(lib.dll, 'verif_polls')
    k = r.choice([-1, 0, 1, 2, 3, 4, 6, 9])
    mine = r.choice([1, ct.cast(PYH, ct.c_void_p).value]); fl = r.choice([0, 0x10000000, 0x40000000])
    old = install(mine, fl)
    try:
        def check(when):
            d = disposition()
            if d.handler != mine or (d.flags & ~0x04000000) != fl: raise Fail("the caller's interrupt handler is back " + when, 'handler %r flags %#x' % (d.handler, d.flags), P.show())

        def body(R):
            check('after setup')
            maxit = R.st.maxit
            at.value = k; polls.value = 0
            f = R.solve()
            at.value = -1
            np = polls.value
            check('after solve')
            pt = (list(R.x), list(R.y), list(R.z), list(R.s))
            info = {n: getattr(R.info, n) for n in 'iter pcost dcost pres dres pinfres dinfres gap relgap mu kapovert'.split()}
            if np < R.info.iter: raise Fail('the solver polls for interrupts once per iteration', '%d polls, %d iterations' % (np, R.info.iter), P.show())
            if k >= 0 and R.info.iter > k: raise Fail('an interrupt stops the solver', 'interrupted in iteration %d, stopped after %d' % (k, R.info.iter), P.show())
            # reference: a fresh workspace with the iteration limit at the interrupt
            R2 = Run(lib, P)
            try:
                R2.setup(**st)
                R2.st.maxit = min(maxit, k) if k >= 0 else maxit
                g = R2.solve()
                if f == SIGINT:
                    if k < 0 or np <= k: raise Fail('the interrupt code is returned only after an interrupt', 'exit -4 without interrupt', P.show())
                    if g != MAXIT: raise Fail('an interrupt acts like an iteration limit at that point', 'exit %d, with maxit=%d exit %d' % (f, k, g), P.show())
                elif f == MAXIT and k >= 0 and np == k + 1 and maxit != k: raise Fail('an interrupted solve returns the interrupt code', 'exit %d' % f, P.show())
                elif f == MAXIT and k >= 0 and np == k + 1: raise Fail('an interrupted solve returns the interrupt code', 'exit %d' % f, P.show())
                elif f != g: raise Fail('an interrupt changes nothing but the point where the solver stops', 'exit %d, reference %d' % (f, g), P.show())
                for a, b, nm in zip(pt, (R2.x, R2.y, R2.z, R2.s), 'xyzs'):
                    if any(not (u == v or (u != u and v != v)) for u, v in zip(a, b)): raise Fail('an interrupted solve returns the iterate of the iteration limit', '%s: %r vs %r' % (nm, a, b), P.show())
                R2.cleanup(0)
            finally:
                R2.free()
            # the interrupt is consumed: the next solve is undisturbed
            h = R.solve(); check('after the next solve')
            if h == SIGINT: raise Fail('an interrupt affects one solve only', 'next solve: exit -4', P.show())
            if HITS[0]: raise Fail("interrupts during a solve do not reach the caller's handler", '%d calls' % HITS[0], P.show())
            R.cleanup(0)
            check('after cleanup')
            check_userdata(R, 'after cleanup')
            return 8
        HITS[0] = 0
        return with_run(lib, P, body, **st)
    finally:
        at.value = -1
        libc.sigaction(SIGINT_, ct.byref(old), None)


@scenario('handler')
def _(lib, r):
    """the interrupt module by itself: flag cleared on entry, raised by SIGINT, previous action restored"""
    d = lib.dll
    for f in ('init_ctrlc', 'remove_ctrlc'): getattr(d, f).restype = None
    chk = lib.dll.check_ctrlc; chk.restype = ct.c_int
    mine = r.choice([0, 1, ct.cast(PYH, ct.c_void_p).value]); fl = r.choice([0, 0x10000000, 0x40000000])
    old = install(mine, fl)
    try:
        for _ in range(r.randint(1, 3)):
            d.init_ctrlc()
            if chk() != 0: raise Fail('no interrupt is pending after installing the handler', 'flag %d' % chk(), [])
            n = r.choice([0, 1, 2])
            for _ in range(n): getattr(libc, 'raise')(SIGINT_)
            if (chk() != 0) != (n > 0): raise Fail('the poll reports an interrupt exactly when one arrived', '%d signals, flag %d' % (n, chk()), [])
            if (chk() != 0) != (n > 0): raise Fail('polling does not clear the interrupt', '', [])
            d.remove_ctrlc()
            a = disposition()
            if a.handler != (mine or None) or (a.flags & ~0x04000000) != fl: raise Fail('the previous action is restored', 'handler %r flags %#x' % (a.handler, a.flags), [])
        return 6
    finally:
        libc.sigaction(SIGINT_, ct.byref(old), None)


# ------------------------------------------------------------------ equilibration
def matrices(R):
    w = R.pw; S = R.lib.types.struct('spmat')
    out = []
    for k, a in (('G', w.G), ('A', w.A)):
        if a:
            o = S.from_address(a); jc = geti(o.jc, o.n + 1); out.append((k, o.m, o.n, jc, geti(o.ir, jc[-1]), getv(o.pr, jc[-1])))
    return out


def check_equilibration(R, when):
    P = R.P; w = R.pw
    xe = getv(w.xequil, P.n); ae = getv(w.Aequil, P.p); ge = getv(w.Gequil, P.m)
    for nm, v in (('xequil', xe), ('Aequil', ae), ('Gequil', ge)):
        for i, t in enumerate(v):
            if not (t > 0) or math.isinf(t): raise Fail('scalings are positive ' + when, '%s[%d]=%r' % (nm, i, t), P.show())
    o = P.l
    for q in list(P.q) + [3] * P.ne:
        if len(set(ge[o:o + q])) > 1: raise Fail('one scaling per cone ' + when, 'Gequil%r' % ge[o:o + q], P.show())
        o += q
    n = 0
    def same(a, b, what):
        if abs(a - b) > 1e-13 * max(abs(a), abs(b)): raise Fail('scaled data times the scalings are the user data ' + when, '%s: %r, user %r' % (what, a, b), P.show())
    for k, m, nn, jc, ir, pr in matrices(R):
        M = P.G if k == 'G' else P.A; e = ge if k == 'G' else ae
        seen = 0
        for j in range(nn):
            for t in range(jc[j], jc[j + 1]):
                same(pr[t] * xe[j] * e[ir[t]], M[ir[t]][j], '%s(%d,%d)' % (k, ir[t], j)); n += 1
    for i, (v, t) in enumerate(zip(getv(w.h, P.m), P.h)): same(v * ge[i], t, 'h[%d]' % i)
    for i, (v, t) in enumerate(zip(getv(w.b, P.p), P.b)): same(v * ae[i], t, 'b[%d]' % i)
    for i, (v, t) in enumerate(zip(getv(w.c, P.n), P.c)): same(v, t, 'c[%d]' % i)
    return n + P.m


@scenario('equilibration')
def _(lib, r):
    P = gen_wild(r) if r.random() < 0.4 else gen_any(r, ne=r.choice([0, 0, 1, 2]))
    k = r.random()

    def body(R):
        n = check_equilibration(R, 'after setup')
        if k < 0.5: R.solve(); check_equilibration(R, 'after solve')
        return n
    return with_run(lib, P, body, maxit=r.choice([0, 3, 100]))


# ------------------------------------------------------------------ exponential cones
@scenario('exponential')
def _(lib, r):
    """problems with exponential cones: certificates of the returned point, verdict of strictly feasible problems"""
    ne = r.choice([1, 1, 2, 3])
    k = r.random()
    P = gen_feasible(r, ne=ne) if k < 0.7 else gen_pinf(r, ne=ne) if k < 0.85 else gen_dinf(r, ne=ne)
    P.wild = False
    st = settings(r) if r.random() < 0.3 else {}

    def body(R):
        S = read_settings(R)
        f = R.solve()
        n = check_certificate(P, R, S, R.info)
        if k < 0.7 and f in (PINF, DINF, PINF + INACC, DINF + INACC): raise Fail('feasible problems are not declared infeasible', 'exit %d' % f, P.show())
        return n + 1
    return with_run(lib, P, body, **st)
