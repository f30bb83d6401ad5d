"""Run-time evaluation of contract terms on concrete memory.

Reals are evaluated as (value, magnitude): magnitude bounds the sum of absolute
values that went into the value, so that a comparison is decided only when it is
not a matter of rounding (otherwise the sample is indeterminate and discarded),
and values are compared relative to it.
"""
import math
from terms import *

RTOL = 2e-9


class Indeterminate(Exception):
    pass


class Undefined(Exception):
    pass


INFV = float('inf')


def close(a, b, rtol=1e-8):
    """(v,m) pairs equal up to rounding"""
    va, ma = a; vb, mb = b
    if va == vb: return True
    if va != va and vb != vb: return True
    if va != va or vb != vb: return False
    if math.isinf(va) or math.isinf(vb): return False
    m = max(ma, mb)
    if math.isinf(m) or m != m: return True
    return abs(va - vb) <= rtol * m + 1e-290


class Ev:
    def __init__(self, read):
        self.read = read            # read(name, sort, idx) -> int | float | bool
        self.memo = {}
        self.cache = {}

    def __call__(self, t, env=None):
        return self.ev(t, env or {})

    def iv(self, t, env=None):
        v = self.ev(t, env or {})
        return v

    def ev(self, t, env):
        closed = t.h == 0
        if closed:
            r = self.memo.get(t)
            if r is not None:
                if isinstance(r, Exception): raise r
                return r
        try:
            r = self.ev1(t, env)
        except (Indeterminate, Undefined) as e:
            if closed and not env: self.memo[t] = e
            raise
        if closed and not (t.fv & env.keys()) : self.memo[t] = r
        return r

    def ev1(self, t, env):
        op = t.op
        ev = self.ev
        if op == 'const':
            v = t.args[0]
            if t.sort == 'I': return int(v)
            if t.sort == 'B': return bool(v)
            f = float(v)
            return (f, abs(f))
        if op in ('var', 'bv'):
            try: return env[t.args[0]]
            except KeyError:
                if t.args[0] == 'INF': return (INFV, INFV)
                if t.args[0] == 'NAN': return (float('nan'), 0.0)
                raise Undefined(t.args[0])
        if op == 'sel':
            idx = tuple(ev(x, env) for x in t.args[1:])
            key = (t.args[0], idx, t.sort)
            r = self.cache.get(key)
            if r is None:
                v = self.read(t.args[0], t.sort, idx)
                r = (v, abs(v)) if t.sort == 'R' else v
                self.cache[key] = r
            return r
        if op == 'poly':
            if t.sort == 'I':
                s = 0
                for m, c in t.args:
                    p = int(c)
                    for a, e in m:
                        p *= ev(a, env) ** e
                    s += p
                return s
            s = 0.0; mg = 0.0
            for m, c in t.args:
                p = float(c); q = abs(p)
                if any(a.op == 'ite' and isind(a) and ev(a, env)[0] == 0 for a, e in m): continue
                for a, e in m:
                    v, w = ev(a, env)
                    for _ in range(e): p *= v; q *= w
                s += p; mg += q
            return (s, mg)
        if op == 'toreal':
            v = ev(t.args[0], env)
            return (float(v), abs(float(v)))
        if op == 'inv':
            v, m = ev(t.args[0], env)
            if v == 0: return (0.0, 0.0) if m == 0 else (0.0, INFV)
            if abs(v) <= RTOL * m: return (1 / v, INFV)
            return (1 / v, abs(1 / v) * (m / abs(v)))
        if op == 'ite':
            try:
                c = ev(t.args[0], env)
            except Indeterminate:
                a = ev(t.args[1], env); b = ev(t.args[2], env)
                if t.sort == 'R' and close(a, b, 1e-9): return (a[0], max(a[1], b[1]))
                if t.sort != 'R' and a == b: return a
                raise
            return ev(t.args[1] if c else t.args[2], env)
        if op in ('le0', 'lt0', 'eq0'):
            x = t.args[0]
            v = ev(x, env)
            if x.sort == 'I':
                return v <= 0 if op == 'le0' else v < 0 if op == 'lt0' else v == 0
            v, m = v
            if v != v:
                if 'INF' in x.fv: return op != 'lt0'      # infinity compared with infinity
                if x.op == 'poly' and all(ev(a, env)[0] == ev(a, env)[0] for mn, c in x.args for a, e in mn): return op != 'lt0'
                return False
            if math.isinf(v): return v < 0
            if m != 0 and abs(v) <= RTOL * m:
                if x.op == 'sel' : pass
                elif op == 'eq0' and v == 0 and x.op != 'poly': return True
                else: raise Indeterminate('comparison at rounding level')
            return v <= 0 if op == 'le0' else v < 0 if op == 'lt0' else v == 0
        if op == 'and' or op == 'or':
            bad = None; dec = (op == 'or')
            # guards first: integer conditions decide definedness
            for a in sorted(t.args, key=lambda a: (hasreads(a), a.id)):
                try:
                    if ev(a, env) == dec: return dec
                except (Indeterminate, Undefined) as e: bad = bad or e
            if bad: raise bad
            return not dec
        if op == 'not': return not ev(t.args[0], env)
        if op == 'sum':
            N = ev(t.args[0], env); b = t.args[1]; k = '#%d.0' % t.args[2]
            e2 = dict(env)
            if t.sort == 'R':
                s = 0.0; mg = 0.0
                for i in range(max(N, 0)):
                    e2[k] = i
                    v, m = ev(b, e2)
                    s += v; mg += m
                return (s, mg)
            s = 0
            for i in range(max(N, 0)):
                e2[k] = i
                s += ev(b, e2)
            return s
        if op == 'fold':
            which, h, N, inits, bs = t.args
            N = ev(N, env)
            cur = [ev(x, env) for x in inits]
            e2 = dict(env)
            for i in range(max(N, 0)):
                e2['#%d.0' % h] = i
                for j, c in enumerate(cur): e2['#%d.%d' % (h, j + 1)] = c
                cur = [ev(b, e2) for b in bs]
            return cur[which]
        if op in ('all', 'ex'):
            return self.quant(t, env)
        if op == 'app':
            f = t.args[0]
            a = [ev(x, env) for x in t.args[1:]]
            return APPS[f](*a)
        raise Undefined(op)

    def quant(self, t, env):
        h, sorts, b = t.args
        names = ['#%d.%d' % (h, j) for j in range(len(sorts))]
        want = (t.op == 'ex')
        parts = list(b.args) if b.op == ('and' if want else 'or') else [b]
        cons = constraints(t, parts, names, want)
        bad = [None]

        def rec(j, e):
            if j == len(names):
                try: return self.ev(b, e)
                except Indeterminate as x:
                    bad[0] = x; return not want
            lo, hi = {}, {}
            for _ in range(len(names) - j + 1):
                for co, rest in cons:
                    # sum co[v]*v + rest <= 0
                    try: k = self.ev(rest, e)
                    except Undefined: continue
                    for v, a in co.items():
                        if v in e: k += a * e[v]
                    free = {v: a for v, a in co.items() if v not in e}
                    for v, a in free.items():
                        s = k; ok = True
                        for u, c in free.items():
                            if u == v: continue
                            w = (lo if c > 0 else hi).get(u)
                            if w is None: ok = False; break
                            s += c * w
                        if not ok: continue
                        if a > 0:
                            x = (-s) // a; hi[v] = min(hi.get(v, x), x)
                        else:
                            x = -((-s) // (-a)); lo[v] = max(lo.get(v, x), x)
            n = names[j]
            if n not in lo or n not in hi: raise Undefined('unbounded quantifier')
            for v in range(lo[n], hi[n] + 1):
                e[n] = v
                r = rec(j + 1, e)
                del e[n]
                if r == want: return want
            return not want
        e = {k: v for k, v in env.items() if k not in names}
        r = rec(0, e)
        if r != want and bad[0] is not None: raise bad[0]
        return r


_cons = {}


def constraints(t, parts, names, want):
    """linear integer constraints (co, rest): sum co*v + rest <= 0 that an instance must satisfy to matter"""
    r = _cons.get(t)
    if r is not None: return r
    r = []
    ns = set(names)
    for p in parts:
        c = p if want else not_(p)
        if c.op == 'eq0' and c.args[0].sort == 'I': cs = [c.args[0], neg(c.args[0])]
        elif c.op == 'le0' and c.args[0].sort == 'I': cs = [c.args[0]]
        else: continue
        for q in cs:
            d = dict(q.args) if q.op == 'poly' else {((q, 1),): 1}
            co = {}; rest = ZI; ok = True
            for m, k in d.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'bv' and m[0][0].args[0] in ns: co[m[0][0].args[0]] = int(k)
                elif any(a.fv & ns for a, e in m): ok = False
                else:
                    tt = const(k, 'I')
                    for a, e in m:
                        for _ in range(e): tt = mul(tt, a)
                    rest = add(rest, tt)
            if ok and co: r.append((co, rest))
    _cons[t] = r
    return r


def hasreads(t):
    """0: pure integer condition on plain variables, 1: reads memory"""
    return 0 if t.op in ('le0', 'eq0') and t.args[0].sort == 'I' and not hasidx(t.args[0]) else 1


_hi = {}


def hasidx(t):
    r = _hi.get(t)
    if r is None:
        if t.op == 'sel': r = len(t.args) > 1
        elif t.op == 'poly': r = any(hasidx(a) for m, c in t.args for a, e in m)
        else: r = any(hasidx(a) for a in t.args if isinstance(a, T))
        _hi[t] = r
    return r


def _f1(fn, dfn):
    """unary real function; dfn(x) bounds the derivative"""
    def g(x):
        v, m = x
        try: y = fn(v)
        except (ValueError, OverflowError): return (float('nan'), INFV)
        try: d = dfn(v)
        except (ValueError, OverflowError, ZeroDivisionError): d = INFV
        e = m * d if m else 0.0
        return (y, max(abs(y), e) if e == e else INFV)
    return g


def _sqrt(x):
    v, m = x
    if v < 0: return (float('nan'), INFV)
    s = math.sqrt(v)
    if s == 0: return (0.0, 0.0 if m == 0 else INFV)
    return (s, max(s, m / (2 * s)))


def _floor(x):
    v, m = x
    f = math.floor(v)
    if v != f and min(v - f, f + 1 - v) <= RTOL * m: raise Indeterminate('floor')
    return f


APPS = {'sqrt': _sqrt, 'exp': _f1(math.exp, lambda v: math.exp(v)), 'log': _f1(math.log, lambda v: 1 / v),
        'floor': _floor, 'isnan': lambda x: x[0] != x[0], 'isinf': lambda x: math.isinf(x[0]),
        'pow': lambda a, b: (a[0] ** b[0], abs(a[0] ** b[0]) * 4)}
