"""Hash-consed term language of the verifier.

Sorts: 'I' (mathematical integers), 'R' (reals), 'B' (booleans).  Arithmetic is
kept in a polynomial normal form, sums and folds bind one index and are kept
modulo renaming of that index, so that most equalities are decided by identity
and only the rest reaches the SMT solver.

  const v | var n | bv h | sel A idx.. | app f args.. | poly | ite c a b
  inv x | sum N body | fold w N inits bodies | toreal i | and/or/not | le0/lt0/eq0 p
  all body | ex body

Conventions (all sound for total functions): x/y = x*inv(y), inv(0)=0.
"""
from fractions import Fraction
import itertools, sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'h', 'fv', 'aux')

    def __repr__(self):
        return show(self)

    # ---- operator overloading (for specs)
    def __add__(a, b): return add(a, lift(b, a.sort))
    def __radd__(a, b): return add(lift(b, a.sort), a)
    def __sub__(a, b): return sub(a, lift(b, a.sort))
    def __rsub__(a, b): return sub(lift(b, a.sort), a)
    def __mul__(a, b): return mul(a, lift(b, a.sort))
    def __rmul__(a, b): return mul(lift(b, a.sort), a)
    def __neg__(a): return neg(a)
    def __truediv__(a, b): return div(toreal(a), toreal(lift(b, a.sort)))
    def __rtruediv__(a, b): return div(toreal(lift(b, a.sort)), toreal(a))
    def __lt__(a, b): return lt(a, lift(b, a.sort))
    def __le__(a, b): return le(a, lift(b, a.sort))
    def __gt__(a, b): return lt(lift(b, a.sort), a)
    def __ge__(a, b): return le(lift(b, a.sort), a)
    def __and__(a, b): return and_(a, b)
    def __or__(a, b): return or_(a, b)
    def __invert__(a): return not_(a)
    def __bool__(a): raise TypeError('symbolic truth value of %r' % a)
    def eq(a, b): return eq(a, lift(b, a.sort))
    def ne(a, b): return not_(eq(a, lift(b, a.sort)))


_tab = {}
_cnt = itertools.count()
EMPTY = frozenset()


def _mk(op, args, sort, h, fv):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.args = args; t.sort = sort; t.id = next(_cnt); t.h = h; t.fv = fv; t.aux = None
        _tab[key] = t
    return t


def _mkn(op, args, sort):
    h = 0; fv = EMPTY
    for a in args:
        if a.h > h: h = a.h
        if a.fv: fv = fv | a.fv if fv else a.fv
    return _mk(op, args, sort, h, fv)


def const(v, sort):
    if sort != 'B':
        if type(v) is not int:
            v = Fraction(v)
            if v.denominator == 1: v = int(v)
    return _mk('const', (v,), sort, 0, EMPTY)


TRUE = const(True, 'B'); FALSE = const(False, 'B')
ZI = const(0, 'I'); ZR = const(0, 'R'); OI = const(1, 'I'); OR_ = const(1, 'R')


def lift(v, sort='I'):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return const(v, sort if sort != 'B' else 'I')
    if isinstance(v, float):
        return const(Fraction(v), 'R')
    if isinstance(v, Fraction):
        return const(v, sort if sort != 'B' else 'R')
    raise TypeError(v)


def I(v): return const(v, 'I')
def R(v): return const(Fraction(v) if not isinstance(v, str) else Fraction(v), 'R')


def var(name, sort):
    return _mk('var', (name,), sort, 0, frozenset((name,)))


_fresh = itertools.count()


def fresh(prefix, sort):
    return var('%s!%d' % (prefix, next(_fresh)), sort)


def freshname(prefix):
    return '%s!%d' % (prefix, next(_fresh))


def bv(h, sort, j=0):
    n = '#%d.%d' % (h, j)
    return _mk('bv', (n,), sort, 0, frozenset((n,)))


def sel(name, sort, *idx):
    h = 0; fv = frozenset((name,))
    for a in idx:
        if a.h > h: h = a.h
        fv = fv | a.fv
    return _mk('sel', (name,) + idx, sort, h, fv)


def app(f, sort, *args):
    h = 0; fv = EMPTY
    for a in args:
        if a.h > h: h = a.h
        fv = fv | a.fv
    if f == 'sqrt' and args[0].op == 'const' and args[0].args[0] in (0, 1):
        return args[0]
    return _mk('app', (f,) + args, sort, h, fv)


# ------------------------------------------------------------- polynomials
def _poly(t):
    """dict monomial -> coefficient; monomial = tuple of (atom, exponent) sorted by id"""
    if t.op == 'const':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): 1}


def _mono_sort(sort, m):
    return sort


def _cn(c):
    return c if type(c) is int or c.denominator != 1 else int(c)


def _from(d, sort):
    d = {m: _cn(c) for m, c in d.items() if c}
    if not d:
        return ZI if sort == 'I' else ZR
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    h = 0; fv = set()
    for m, c in items:
        for a, e in m:
            if a.h > h: h = a.h
            fv |= a.fv
    return _mk('poly', items, sort, h, frozenset(fv))


def _mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    return _mnorm(d)


def _mnorm(d):
    # x^p * inv(x)^q
    for a in list(d):
        if a.op == 'inv' and a in d:
            b = a.args[0]
            if b in d:
                p, q = d[b], d[a]
                if p > q:
                    del d[a]; d[b] = p - q
                elif p < q:
                    del d[b]; d[a] = q - p
                else:
                    d[a] = d[b] = 1
        elif a.op == 'ite' and d[a] > 1 and isind(a):
            d[a] = 1
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def _samesort(a, b):
    if a.sort == b.sort:
        return a, b, a.sort
    if a.sort == 'B': a = b2i(a)
    if b.sort == 'B': b = b2i(b)
    if a.sort == b.sort:
        return a, b, a.sort
    return toreal(a), toreal(b), 'R'


def add(a, b):
    a, b, s = _samesort(a, b)
    if a.op == 'const' and a.args[0] == 0: return b
    if b.op == 'const' and b.args[0] == 0: return a
    d = _poly(a)
    for m, c in (b.args if b.op == 'poly' else _poly(b).items()):
        d[m] = d.get(m, 0) + c
    return _from(d, s)


def scale_(c, a):
    if c == 0: return ZI if a.sort == 'I' else ZR
    if c == 1: return a
    return _from({m: c * k for m, k in _poly(a).items()}, a.sort)


def neg(a):
    if a.sort == 'B': a = b2i(a)
    return scale_(-1, a)


def sub(a, b):
    a, b, s = _samesort(a, b)
    if a is b: return ZI if s == 'I' else ZR
    return add(a, neg(b))


MAXEXPAND = 400


def mul(a, b):
    a, b, s = _samesort(a, b)
    if a.op == 'const': return scale_(a.args[0], b)
    if b.op == 'const': return scale_(b.args[0], a)
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > MAXEXPAND:
        # keep the product opaque
        return _from({_mnorm({a: 1, b: 1} if a is not b else {a: 2}): 1}, s)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _from(d, s)


def inv(a):
    a = toreal(a)
    if a.op == 'const':
        return const(Fraction(0) if a.args[0] == 0 else 1 / Fraction(a.args[0]), 'R')
    if a.op == 'inv':
        return a.args[0]
    if a.op == 'poly' and len(a.args) == 1:
        (m, c), = a.args
        d = {}
        for x, e in m:
            ix = x.args[0] if x.op == 'inv' else _mkn('inv', (x,), 'R')
            d[ix] = d.get(ix, 0) + e
        return _from({_mnorm(d): 1 / Fraction(c)}, 'R')
    if a.op == 'poly':
        # normalise leading coefficient
        c = a.args[0][1]
        if c != 1:
            c = Fraction(c)
            return scale_(1 / c, _mkn('inv', (scale_(1 / c, a),), 'R'))
    return _mkn('inv', (a,), 'R')


def div(a, b):
    return mul(toreal(a), inv(toreal(b)))


def toreal(a):
    if a.sort == 'R': return a
    if a.sort == 'B': a = b2i(a)
    if a.op == 'const': return const(a.args[0], 'R')
    if a.op == 'ite': return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    d = {}
    for m, c in _poly(a).items():
        mm = {}
        for x, e in m:
            mm[_mkn('toreal', (x,), 'R')] = e
        k = _mnorm(mm)
        d[k] = d.get(k, 0) + c
    return _from(d, 'R')


def b2i(a):
    return ite(a, OI, ZI)


# ------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    r = a.aux
    if r is None: r = a.aux = _not(a)
    return r


def _not(a):
    if a.op == 'le0':       # not (p<=0)  ==  -p < 0
        return lt0(neg(a.args[0]))
    if a.op == 'lt0':
        return le0(neg(a.args[0]))
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    return _mkn('not', (a,), 'B')


def _flat(op, xs, unit, zero):
    out = {}
    st = list(xs)
    for x in st:
        x = lift(x)
        if x.sort != 'B':
            x = ne0(x)
        if x.op == op:
            for y in x.args: out[y] = 1
        elif x is zero:
            return None
        elif x is not unit:
            out[x] = 1
    for x in out:
        if not_(x) in out:
            return None
    return out


def and_(*xs):
    o = _flat('and', xs, TRUE, FALSE)
    if o is None: return FALSE
    if not o: return TRUE
    if len(o) == 1: return next(iter(o))
    return _mkn('and', tuple(sorted(o, key=lambda t: t.id)), 'B')


def or_(*xs):
    o = _flat('or', xs, FALSE, TRUE)
    if o is None: return TRUE
    if not o: return FALSE
    if len(o) == 1: return next(iter(o))
    return _mkn('or', tuple(sorted(o, key=lambda t: t.id)), 'B')


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    return and_(implies(a, b), implies(b, a))


def ne0(x):
    """C truth value"""
    if x.sort == 'B': return x
    if x.op == 'ite':
        a, b = x.args[1], x.args[2]
        if a.op in ('const', 'ite') and b.op in ('const', 'ite'):
            return ite(x.args[0], ne0(a), ne0(b))
    return not_(eq0(x))


def _content(p):
    """scale so that the leading coefficient is +-1 (returns scaled poly)"""
    items = p.args if p.op == 'poly' else tuple(_poly(p).items())
    if p.sort == 'I':
        from math import gcd
        g = 0
        for m, c in items:
            if m != ():
                g = gcd(g, int(c))
        if g > 1:
            return g
        return 1
    for m, c in items:
        if m != ():
            return abs(c)
    return 1


def le0(p):
    if p.op == 'const':
        return TRUE if p.args[0] <= 0 else FALSE
    if p.op == 'ite' and p.args[1].op == 'const' and p.args[2].op == 'const':
        return ite(p.args[0], le0(p.args[1]), le0(p.args[2]))
    c = _content(p)
    if c != 1:
        if p.sort == 'I':
            d = _poly(p); k = d.pop((), 0)
            q = _from({m: x // c for m, x in d.items()}, 'I')
            # q*c + k <= 0  <=>  q <= floor(-k/c)
            fl = (-k) // c
            p = sub(q, const(fl, 'I'))
        else:
            p = scale_(1 / Fraction(c), p)
        if p.op == 'const':
            return TRUE if p.args[0] <= 0 else FALSE
    return _mkn('le0', (p,), 'B')


def lt0(p):
    if p.op == 'const':
        return TRUE if p.args[0] < 0 else FALSE
    if p.sort == 'I':
        return le0(add(p, OI))
    if p.op == 'ite' and p.args[1].op == 'const' and p.args[2].op == 'const':
        return ite(p.args[0], lt0(p.args[1]), lt0(p.args[2]))
    c = _content(p)
    if c != 1:
        p = scale_(1 / Fraction(c), p)
    return _mkn('lt0', (p,), 'B')


def eq0(p):
    if p.sort == 'B':
        return not_(p)
    if p.op == 'const':
        return TRUE if p.args[0] == 0 else FALSE
    if p.op == 'ite' and p.args[1].op == 'const' and p.args[2].op == 'const':
        return ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    if p.op == 'inv':
        return eq0(p.args[0])
    items = p.args if p.op == 'poly' else tuple(_poly(p).items())
    if p.sort == 'R':
        lead = next(c for m, c in items if m != ())
        if lead != 1:
            p = scale_(1 / Fraction(lead), p)
    else:
        g = _content(p)
        lead = next(c for m, c in items if m != ())
        s = -1 if lead < 0 else 1
        k = dict(items).get((), 0)
        if g > 1 and k % g != 0 and all(len(m) <= 10 for m, c in items):
            return FALSE
        p = scale_(Fraction(s, g), p)
    return _mkn('eq0', (p,), 'B')


def le(a, b):
    a, b, s = _samesort(a, b)
    return le0(sub(a, b))


def lt(a, b):
    a, b, s = _samesort(a, b)
    return lt0(sub(a, b))


def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B' and b.sort == 'B':
        return iff(a, b)
    a, b, s = _samesort(a, b)
    if a is b: return TRUE
    return eq0(sub(a, b))


def ite(c, a, b):
    c = c if c.sort == 'B' else ne0(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort != b.sort:
        a, b, _ = _samesort(a, b)
        if a is b: return a
    if a.sort == 'B':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    # one polarity for comparisons
    elif c.op in ('le0', 'lt0'):
        n = not_(c)
        if n.id < c.id:
            c, a, b = n, b, a
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if a.sort == 'R':
        # ite(c, mono, 0) = mono * [c]
        if b is ZR and a.op != 'const' and a.op != 'ite' and (a.op != 'poly' or len(a.args) == 1):
            return mul(a, ite(c, OR_, ZR))
        if a is ZR and b.op != 'const' and b.op != 'ite' and (b.op != 'poly' or len(b.args) == 1):
            return mul(b, ite(c, ZR, OR_))
    return _mkn('ite', (c, a, b), a.sort)


def isind(a):
    """0/1 valued atom"""
    return a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const' and \
        {a.args[1].args[0], a.args[2].args[0]} == {0, 1}


def max_(a, b):
    a, b, _ = _samesort(a, b)
    return ite(lt(a, b), b, a)


def min_(a, b):
    a, b, _ = _samesort(a, b)
    return ite(lt(b, a), b, a)


def abs_(a):
    return ite(lt0(a), neg(a), a)


def pow_(a, n):
    r = None
    for _ in range(n):
        r = a if r is None else mul(r, a)
    return r


# ------------------------------------------------------------- binders
def _bind(tmps, bodies):
    """replace the temporaries by canonical bound variables"""
    h = 1 + max(b.h for b in bodies)
    m = {t.args[0]: bv(h, t.sort, j) for j, t in enumerate(tmps)}
    return h, tuple(subst(b, m) for b in bodies)


def _close_fv(fv, h):
    pre = '#%d.' % h
    return frozenset(x for x in fv if not x.startswith(pre))


def _rawsum(N, tmp, body):
    if tmp.args[0] not in body.fv:
        n = ite(lt(ZI, N), N, ZI)
        return mul(toreal(n) if body.sort == 'R' else n, body)
    h, (b,) = _bind([tmp], [body])
    fv = _close_fv(N.fv | b.fv, h)
    return _mk('sum', (N, b, h), body.sort, max(h, N.h), fv)


def sum_tmp(N, tmp, body):
    if N.op == 'const':
        n = int(N.args[0])
        if n <= 0: return const(0, body.sort)
        if n <= 6:
            r = None
            for i in range(n):
                x = subst(body, {tmp.args[0]: I(i)})
                r = x if r is None else add(r, x)
            return r
    if body.sort == 'B': body = b2i(body)
    d = _poly(body)
    tn = tmp.args[0]
    r = const(0, body.sort)
    groups = {}
    for m, c in d.items():
        out = []; inn = []
        for a, e in m:
            (inn if tn in a.fv else out).append((a, e))
        groups.setdefault(tuple(inn), []).append((tuple(out), c))
    for inn, outs in groups.items():
        ib = _from({inn: 1}, body.sort)
        s = _rawsum(N, tmp, ib)
        k = _from(dict(outs), body.sort) if len(outs) == len(dict(outs)) else None
        r = add(r, mul(k, s))
    return r


def sum_(lo, hi, fn):
    lo = lift(lo); hi = lift(hi)
    tmp = fresh('s', 'I')
    body = lift(fn(add(lo, tmp)), 'R')
    return sum_tmp(sub(hi, lo), tmp, body)


def sumbody(t, i):
    """body of a sum term at index i"""
    return subst(t.args[1], {'#%d.0' % t.args[2]: i})


def fold_tmp(which, N, inits, tmp, accs, bodies):
    """accs/bodies/inits: tuples; value of component `which` after N steps"""
    if N.op == 'const':
        n = int(N.args[0])
        cur = list(inits)
        if n <= 0: return cur[which]
        if n <= 6:
            for i in range(n):
                m = {tmp.args[0]: I(i)}
                for a, c in zip(accs, cur): m[a.args[0]] = c
                cur = [subst(b, m) for b in bodies]
            return cur[which]
    h, bs = _bind([tmp] + list(accs), list(bodies))
    # make the height marker present even if the index does not occur
    fv = N.fv
    for x in inits: fv = fv | x.fv
    for b in bs: fv = fv | b.fv
    fv = _close_fv(fv, h)
    H = max([h, N.h] + [x.h for x in inits])
    return _mk('fold', (which, h, N, tuple(inits), bs), inits[which].sort, H, fv)


def foldstep(t, i, accvals):
    which, h, N, inits, bs = t.args
    m = {'#%d.0' % h: i}
    for j, v in enumerate(accvals): m['#%d.%d' % (h, j + 1)] = v
    return tuple(subst(b, m) for b in bs)


def fold1(init, lo, hi, fn):
    lo = lift(lo); hi = lift(hi)
    tmp = fresh('f', 'I'); acc = fresh('a', init.sort)
    return fold_tmp(0, sub(hi, lo), (init,), tmp, (acc,), (lift(fn(add(lo, tmp), acc), init.sort),))


def foldmax(init, lo, hi, fn):
    return fold1(init, lo, hi, lambda i, a: max_(a, fn(i)))


def foldmin(init, lo, hi, fn):
    return fold1(init, lo, hi, lambda i, a: min_(a, fn(i)))


def quant(op, tmps, body):
    tmps = [t for t in tmps if t.args[0] in body.fv]
    if not tmps:
        return body
    h, (b,) = _bind(tmps, [body])
    fv = _close_fv(b.fv, h)
    return _mk(op, (h, tuple(t.sort for t in tmps), b), 'B', h, fv)


def forall_tmp(tmps, body): return quant('all', tmps, body)
def exists_tmp(tmps, body): return quant('ex', tmps, body)


def forall(lo, hi, fn):
    t = fresh('q', 'I')
    lo = lift(lo); hi = lift(hi)
    return quant('all', [t], implies(and_(le(lo, t), lt(t, hi)), fn(t)))


def exists(lo, hi, fn):
    t = fresh('q', 'I')
    lo = lift(lo); hi = lift(hi)
    return quant('ex', [t], and_(le(lo, t), lt(t, hi), fn(t)))


def openq(t, vals):
    h, sorts, b = t.args
    return subst(b, {'#%d.%d' % (h, j): v for j, v in enumerate(vals)})


# ------------------------------------------------------------- substitution
def subst(t, vmap, amap=None, memo=None):
    """vmap: variable name -> term.  amap: array name -> function(idx tuple) -> term"""
    if memo is None: memo = {}
    keys = set(vmap)
    if amap: keys |= set(amap)
    return _sub(t, vmap, amap or {}, keys, memo)


def _sub(t, vm, am, keys, memo):
    if t.fv.isdisjoint(keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ('var', 'bv'):
        r = vm.get(t.args[0], t)
    elif op == 'sel':
        idx = tuple(_sub(x, vm, am, keys, memo) for x in t.args[1:])
        f = am.get(t.args[0])
        r = f(idx) if f is not None else sel(t.args[0], t.sort, *idx)
    elif op == 'poly':
        acc = {}
        simple = True
        r = None
        for m, c in t.args:
            if all(a.fv.isdisjoint(keys) for a, e in m):
                acc[m] = acc.get(m, 0) + c
                continue
            p = const(c, t.sort)
            for a, e in m:
                a2 = _sub(a, vm, am, keys, memo)
                for _ in range(e):
                    p = mul(p, a2)
            for mm, cc in _poly(p).items():
                acc[mm] = acc.get(mm, 0) + cc
        r = _from(acc, t.sort)
    elif op == 'sum':
        N, b, hh = t.args
        tmp = fresh('s', 'I')
        N2 = _sub(N, vm, am, keys, memo)
        b2 = subst(b, {'#%d.0' % hh: tmp})
        b2 = _sub(b2, vm, am, keys, {})
        r = sum_tmp(N2, tmp, b2)
    elif op == 'fold':
        which, h, N, inits, bs = t.args
        tmp = fresh('f', 'I')
        accs = tuple(fresh('a', x.sort) for x in inits)
        m = {'#%d.0' % h: tmp}
        for j, a in enumerate(accs): m['#%d.%d' % (h, j + 1)] = a
        b2 = tuple(subst(b, m) for b in bs)
        b2 = tuple(_sub(b, vm, am, keys, {}) for b in b2)
        r = fold_tmp(which, _sub(N, vm, am, keys, memo), tuple(_sub(x, vm, am, keys, memo) for x in inits), tmp, accs, b2)
    elif op in ('all', 'ex'):
        h, sorts, b = t.args
        tmps = [fresh('q', s) for s in sorts]
        b2 = subst(b, {'#%d.%d' % (h, j): v for j, v in enumerate(tmps)})
        r = quant(op, tmps, _sub(b2, vm, am, keys, {}))
    else:
        a = t.args
        if op == 'app':
            r = app(a[0], t.sort, *[_sub(x, vm, am, keys, memo) for x in a[1:]])
        else:
            xs = [_sub(x, vm, am, keys, memo) for x in a]
            if op == 'ite': r = ite(*xs)
            elif op == 'and': r = and_(*xs)
            elif op == 'or': r = or_(*xs)
            elif op == 'not': r = not_(xs[0])
            elif op == 'le0': r = le0(xs[0])
            elif op == 'lt0': r = lt0(xs[0])
            elif op == 'eq0': r = eq0(xs[0])
            elif op == 'inv': r = inv(xs[0])
            elif op == 'toreal': r = toreal(xs[0])
            else: raise AssertionError(op)
    memo[t] = r
    return r


def t_bh(t):
    """height of the bound index of a sum term: stored implicitly as the body's height"""
    return t.args[2]


def rebuild(t, f, memo):
    """bottom-up rewriting with f applied on every (non-binder) node; binders are kept closed"""
    raise NotImplementedError


# ------------------------------------------------------------- printing
def show(t, d=0):
    op = t.op
    if d > 12: return '...'
    s = lambda x: show(x, d + 1)
    if op == 'const':
        v = t.args[0]
        if isinstance(v, Fraction):
            return str(int(v)) if v.denominator == 1 else (str(float(v)))
        return str(v)
    if op in ('var', 'bv'): return t.args[0]
    if op == 'sel':
        return '%s[%s]' % (t.args[0], ','.join(s(x) for x in t.args[1:])) if len(t.args) > 1 else t.args[0]
    if op == 'app': return '%s(%s)' % (t.args[0], ', '.join(s(x) for x in t.args[1:]))
    if op == 'poly':
        out = []
        for m, c in t.args:
            fs = [(s(a) + ('^%d' % e if e != 1 else '')) for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, show(const(c, t.sort)))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(s(x) for x in t.args)
    if op == 'inv': return '1/%s' % s(t.args[0])
    if op == 'toreal': return s(t.args[0])
    if op == 'sum': return 'SUM(#%d.0<%s: %s)' % (t_bh(t), s(t.args[0]), s(t.args[1]))
    if op == 'fold':
        return 'FOLD%d(#%d.0<%s; %s; %s)' % (t.args[0], t.args[1], s(t.args[2]), ', '.join(s(x) for x in t.args[3]), ', '.join(s(x) for x in t.args[4]))
    if op in ('and', 'or'): return '(' + (' %s ' % op).join(s(x) for x in t.args) + ')'
    if op == 'not': return '!' + s(t.args[0])
    if op == 'le0': return '%s <= 0' % s(t.args[0])
    if op == 'lt0': return '%s < 0' % s(t.args[0])
    if op == 'eq0': return '%s == 0' % s(t.args[0])
    if op in ('all', 'ex'): return '%s#%d(%s)' % (op, t.args[0], s(t.args[2]))
    return op
