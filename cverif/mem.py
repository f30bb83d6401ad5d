"""Array values: layered functional arrays, resolved at read time."""
from terms import *
import terms as tm


class SegReg:
    """prefix functions P(k) with their segment inverse seg(L,e)"""
    def __init__(self):
        self.byname = {}
        self.bykey = {}

    def get(self, k, P, L):
        """P: term in variable k (var name k). returns callable e -> term"""
        # abstract params
        h, (b,) = tm._bind([k], [P])
        from smt import template
        key, params = template(b)
        name = self.bykey.get((key, h))
        if name is None:
            name = 'seg%d' % len(self.byname)
            self.bykey[(key, h)] = name
            self.byname[name] = True
        SEG[name, tuple(params)] = (h, b)
        return lambda e: app(name, 'I', *(list(params) + [L, e]))


SEG = {}
SEGS = SegReg()
PERM = {}       # array name -> (domain size term or None)


def seg_axiom(t):
    """axioms for an application seg(params, L, e)"""
    name = t.args[0]
    params, L, e = t.args[1:-2], t.args[-2], t.args[-1]
    d = SEG.get((name, tuple(params)))
    if d is None:
        # parameters were substituted: rebuild by substituting holes
        for (n2, ps2), (h, b) in list(SEG.items()):
            if n2 == name:
                d = (h, _refill(b, ps2, params)); break
    h, b = d
    P = lambda k: subst(b, {'#%d.0' % h: k})
    return implies(and_(le(P(ZI), e), lt(e, P(L))),
                   and_(le(ZI, t), lt(t, L), le(P(t), e), lt(e, P(add(t, OI)))))


def _refill(b, old, new):
    from smt import closed
    m = dict(zip(old, new))

    def go(t):
        if t in m: return m[t]
        if closed(t): return t
        if t.op == 'bv': return t
        if t.op == 'poly':
            # closed part as a whole may be a parameter
            rest = {}; parts = const(0, t.sort)
            for mm, c in t.args:
                if all(closed(a) for a, e in mm): rest[mm] = c
                else:
                    p = const(c, t.sort)
                    for a, e in mm:
                        for _ in range(e): p = mul(p, go(a))
                    parts = add(parts, p)
            if rest:
                r = tm._from(rest, t.sort)
                parts = add(parts, m.get(r, r))
            return parts
        if t.op == 'sum':
            tmp = fresh('s', 'I')
            return tm.sum_tmp(go(t.args[0]), tmp, subst(go(t.args[1]), {'#%d.0' % t.args[2]: tmp}))
        if t.op == 'sel': return sel(t.args[0], t.sort, *[go(x) for x in t.args[1:]])
        if t.op == 'app': return app(t.args[0], t.sort, *[go(x) for x in t.args[1:]])
        if t.op == 'ite': return ite(*[go(x) for x in t.args])
        raise NotImplementedError(t.op)
    return go(b)


# ------------------------------------------------------------------ arrays
class Arr:
    def read(self, idx):
        m = self.memo
        r = m.get(idx)
        if r is None:
            r = m[idx] = self._read(idx)
        return r


class Base(Arr):
    def __init__(self, name, sort, nd, prefix=()):
        self.name = name; self.sort = sort; self.nd = nd; self.prefix = tuple(prefix); self.memo = {}

    def _read(self, idx):
        return sel(self.name, self.sort, *(self.prefix + tuple(idx)))

    def subst(self, vm, am):
        if self.name in am:
            f = am[self.name]
            if isinstance(f, Arr): return f
            return Fun(lambda idx, f=f, p=self.prefix: f(p + tuple(idx)), self.sort, self.nd)
        if not self.prefix: return self
        return Base(self.name, self.sort, self.nd, [subst(p, vm, am) for p in self.prefix])

    def __repr__(self): return 'Base(%s)' % self.name


class Fun(Arr):
    """value given by a function (used for closed views)"""
    def __init__(self, f, sort, nd):
        self.f = f; self.sort = sort; self.nd = nd; self.memo = {}

    def _read(self, idx): return self.f(idx)

    def subst(self, vm, am):
        return Fun(lambda idx: subst_under(self.f, idx, vm, am), self.sort, self.nd)


def subst_under(f, idx, vm, am):
    # protect the index terms from the substitution
    tmps = [fresh('u', i.sort) for i in idx]
    r = subst(f(tuple(tmps)), vm, am)
    return subst(r, {t.args[0]: i for t, i in zip(tmps, idx)})


class Store(Arr):
    def __init__(self, prev, idx, val):
        self.prev = prev; self.idx = tuple(idx); self.val = val; self.sort = prev.sort; self.nd = prev.nd; self.memo = {}

    def _read(self, e):
        c = and_(*[eq(a, b) for a, b in zip(self.idx, e)])
        if c is TRUE: return self.val
        return ite(c, self.val, self.prev.read(e))

    def subst(self, vm, am):
        return Store(self.prev.subst(vm, am), [subst(i, vm, am) for i in self.idx], subst(self.val, vm, am))

    def __repr__(self): return 'Store(%r,%r,%r)' % (self.prev, self.idx, self.val)


class IteA(Arr):
    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b; self.sort = a.sort; self.nd = a.nd; self.memo = {}

    def _read(self, e): return ite(self.c, self.a.read(e), self.b.read(e))

    def subst(self, vm, am): return IteA(subst(self.c, vm, am), self.a.subst(vm, am), self.b.subst(vm, am))

    def __repr__(self): return 'IteA(%r,%r,%r)' % (self.c, self.a, self.b)


class Map(Arr):
    """for binders b0<N0, b1<N1(b0).. with guard: prev[idx(b)] := val(b)  (distinct positions)"""
    def __init__(self, prev, binders, ranges, guard, idx, val):
        self.prev = prev; self.binders = list(binders); self.ranges = list(ranges); self.guard = guard
        self.idx = tuple(idx); self.val = val; self.sort = prev.sort; self.nd = prev.nd; self.memo = {}

    def inverse(self, e):
        """-> [(guard on e, {binder: term})] or None"""
        return solve(self.idx, e, self.binders, self.ranges)

    def _read(self, e):
        alts = self.inverse(e)
        if alts is None:
            raise Unsupported('cannot invert write pattern %r over %r' % (self.idx, self.binders))
        out = []
        for g, m in alts:
            c, vm = self.cond(g, m)
            if c is FALSE: continue
            out.append((c, subst(self.val, vm)))
            if c is TRUE or ENTAILS(c):
                out[-1] = (TRUE, out[-1][1]); break
        if out and out[-1][0] is TRUE:
            r = out.pop()[1]
        else:
            r = self.prev.read(e)
        for c, v in reversed(out): r = ite(c, v, r)
        return r

    def cond(self, g, m):
        vm = {b.args[0]: m[b] for b in self.binders}
        conds = [g]
        for b, N in zip(self.binders, self.ranges):
            conds += [le(ZI, m[b]), lt(m[b], subst(N, vm))]
        conds.append(subst(self.guard, vm))
        return and_(*conds), vm

    def idx_open(self):
        self.obs = [fresh('d', 'I') for b in self.binders]
        return tuple(subst(i, {b.args[0]: o for b, o in zip(self.binders, self.obs)}) for i in self.idx)

    def distinct_goal(self):
        """(hyps, goal) or None if trivial/impossible"""
        e = self.idx_open()
        r = solve_once(self.idx, e, self.binders, self.ranges, False)
        if r is None: return None
        vm = {b.args[0]: o for b, o in zip(self.binders, self.obs)}
        hyps = []
        for b, N, o in zip(self.binders, self.ranges, self.obs):
            hyps += [le(ZI, o), lt(o, subst(N, vm))]
        hyps.append(subst(self.guard, vm))
        g, m = r
        return hyps, and_(g, *[eq(m[b], o) for b, o in zip(self.binders, self.obs)])

    def subst(self, vm, am):
        nb = [fresh('b', 'I') for b in self.binders]
        r = {b.args[0]: n for b, n in zip(self.binders, nb)}
        vm2 = dict(vm)
        for x in r: vm2.pop(x, None)
        f = lambda t: subst(subst(t, r), vm2, am)
        return Map(self.prev.subst(vm, am), nb, [f(N) for N in self.ranges], f(self.guard), [f(i) for i in self.idx], f(self.val))

    def __repr__(self): return 'Map(%r,%r<%r,%r,[%r]:=%r)' % (self.prev, self.binders, self.ranges, self.guard, self.idx, self.val)


class PFold(Arr):
    """pointwise recurrence: value at e after N steps of acc := step(k,acc,e), starting at prev[e]"""
    def __init__(self, prev, k, N, es, acc, step):
        self.prev = prev; self.k = k; self.N = N; self.es = tuple(es); self.acc = acc; self.step = step
        self.sort = prev.sort; self.nd = prev.nd; self.memo = {}

    def _read(self, e):
        vm = {v.args[0]: x for v, x in zip(self.es, e)}
        st = subst(self.step, vm)
        return pfold(self.prev.read(e), self.k, self.N, self.acc, st)

    def subst(self, vm, am):
        nk = fresh('k', 'I'); na = fresh('a', self.sort); ne = [fresh('e', 'I') for _ in self.es]
        r = {self.k.args[0]: nk, self.acc.args[0]: na}
        r.update({a.args[0]: b for a, b in zip(self.es, ne)})
        f = lambda t: subst(subst(t, r), vm, am)
        return PFold(self.prev.subst(vm, am), nk, subst(self.N, vm, am), ne, na, f(self.step))

    def __repr__(self): return 'PFold(%r,%r<%r,%r)' % (self.prev, self.k, self.N, self.step)


def pfold(init, k, N, acc, step):
    if acc.args[0] in step.fv and step.sort in ('R', 'I'):
        d = sub(step, acc)
        if acc.args[0] not in d.fv:
            return add(init, tm.sum_tmp(N, k, d))
        d2 = push_acc(step, acc)
        if d2 is not None:
            return add(init, tm.sum_tmp(N, k, d2))
    return tm.fold_tmp(0, N, (init,), k, (acc,), (step,))


def push_acc(step, acc):
    """step == acc + d with d free of acc, looking through ite; or None"""
    if step is acc: return const(0, acc.sort)
    if step.op == 'ite':
        a = push_acc(step.args[1], acc); b = push_acc(step.args[2], acc)
        if a is None or b is None or acc.args[0] in step.args[0].fv: return None
        return ite(step.args[0], a, b)
    d = sub(step, acc)
    if acc.args[0] not in d.fv: return d
    # acc inside indicator products: collect
    if step.op == 'poly':
        tot = const(0, step.sort); ca = const(0, step.sort)
        for m, c in step.args:
            occ = [(a, e) for a, e in m if acc.args[0] in a.fv]
            if not occ:
                tot = add(tot, tm._from({m: c}, step.sort)); continue
            if len(occ) == 1 and occ[0] == (acc, 1):
                rest = tuple(x for x in m if x[0] is not acc)
                ca = add(ca, tm._from({rest: c}, step.sort)); continue
            if len(occ) == 1 and occ[0][0].op == 'ite' and occ[0][1] == 1 and len(m) == 1 and c == 1:
                x = push_acc(occ[0][0], acc)
                if x is None: return None
                tot = add(tot, x); ca = add(ca, const(1, step.sort)); continue
            return None
        if ca.op == 'const' and ca.args[0] == 1: return tot
        # [c] + [not c] == 1
        if _is_one(ca): return tot
    return None


def _is_one(ca):
    d = tm._poly(ca)
    d = {m: c for m, c in d.items()}
    if len(d) == 2:
        ms = list(d.items())
        if all(len(m) == 1 and c == 1 and isind(m[0][0]) for m, c in ms):
            a, b = ms[0][0][0][0], ms[1][0][0][0]
            ca_ = a.args[0] if a.args[1].args[0] == 1 else not_(a.args[0])
            cb_ = b.args[0] if b.args[1].args[0] == 1 else not_(b.args[0])
            return ca_ is not_(cb_)
    return False


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ inversion of index patterns
def coeffs(p, names):
    """p linear in the given variables: ({name: coeff}, rest) or None"""
    cs = {}; rest = {}
    for m, c in tm._poly(p).items():
        hit = [(a, e) for a, e in m if not a.fv.isdisjoint(names)]
        if not hit:
            rest[m] = c; continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var':
            cs[m[0][0].args[0]] = cs.get(m[0][0].args[0], 0) + c
        else:
            rest[m] = c      # depends on binders non-linearly (kept in rest)
    return cs, tm._from(rest, p.sort)


ENTAILS = lambda c: False
HINT = [True, False]      # [hints allowed, a hint was used]


def solve(idx, e, binders, ranges):
    """list of (guard, {binder: term}): candidates for the binders with idx(binders)==e.
    The last entry is the generic inverse; earlier ones are syntactic unifications, valid
    because positions are pairwise different (a separate obligation of every Map)."""
    HINT[0] = True; HINT[1] = False
    r = solve_once(idx, e, binders, ranges, True)
    used = HINT[1]
    if not used: return None if r is None else [r]
    g = solve_once(idx, e, binders, ranges, False)
    out = [x for x in (r, g) if x is not None]
    return out or None


def solve_once(idx, e, binders, ranges, hints):
    HINT[0] = hints
    known = {}
    guard = []
    todo = list(zip(idx, e))
    names = {b.args[0]: (b, N) for b, N in zip(binders, ranges)}
    while todo:
        progress = False
        for n, (p, x) in enumerate(todo):
            p = subst(p, {b.args[0]: t for b, t in known.items()})
            unk = {b for b in p.fv if b in names and names[b][0] not in known}
            if not unk:
                guard.append(eq(p, x)); todo.pop(n); progress = True; break
            r = solve1(p, x, unk, names, known)
            if r is None: continue
            g, m = r
            guard.append(g); known.update(m); todo.pop(n); progress = True; break
        if not progress: return None
    if len(known) < len(binders): return None
    return and_(*guard), known


def solve1(p, x, unk, names, known):
    ks = {b.args[0]: t for b, t in known.items()}
    # permutation array
    if p.op == 'sel' and p.args[0] in PERM and len(p.args) == 2:
        if HINT[0] and x.op == 'sel' and x.args[0] == p.args[0]:
            r = solve1(p.args[1], x.args[1], unk, names, known)
            if r is not None:
                HINT[1] = True
                return r
        inv = ginv(p.args[0], x)
        r = solve1(p.args[1], inv, unk, names, known)
        if r is None: return None
        g, m = r
        return and_(g, eq(sel(p.args[0], 'I', inv), x)), m
    cs, rest = coeffs(p, unk)
    if not cs or (len(cs) == 1 and any(n in rest.fv for n in unk)) or any(n in rest.fv for n in unk):
        # segmented pattern: rest depends on an outer binder
        outer = [n for n in unk if n in rest.fv]
        if len(outer) != 1: return None
        ob, oN = names[outer[0]]
        oN = subst(oN, ks)
        inner = [n for n in unk if n != outer[0]]
        base = subst(p, {n: ZI for n in inner})           # start of the segment (+offset)
        # split the base in a part independent of the outer binder and P(outer)
        dep = {}; ind = {}
        for m, c in tm._poly(base).items():
            (dep if any(outer[0] in a.fv for a, e in m) else ind).setdefault(m, c)
        P = tm._from(dep, 'I'); a = tm._from(ind, 'I')
        return solve_seg(P, sub(x, a), ob, oN, inner, names, ks, p, x)
    if len(cs) == 1:
        (n, c), = cs.items()
        b, N = names[n]
        d = sub(x, rest)
        if c == 1: return TRUE, {b: d}
        if c == -1: return TRUE, {b: neg(d)}
        if c < 0: c = -c; d = neg(d)
        q = exactdiv(d, int(c))
        if q is not None: return TRUE, {b: q}
        t = app('idiv', 'I', d, I(int(c)))
        return eq(mul(I(int(c)), t), d), {b: t}
    if len(cs) == 2:
        # outer stride c, inner unit with constant range <= c
        (n1, c1), (n2, c2) = sorted(cs.items(), key=lambda kv: -abs(kv[1]))
        if c2 == 1 and c1 > 1:
            b1, N1 = names[n1]; b2, N2 = names[n2]
            N2 = subst(N2, ks)
            if N2.op == 'const' and N2.args[0] <= c1:
                d = sub(x, rest)
                # d = c1*q + r syntactically
                q, r = splitdiv(d, int(c1))
                if q is not None:
                    return TRUE, {b1: q, b2: r}
                t = app('idiv', 'I', d, I(int(c1)))
                return TRUE, {b1: t, b2: sub(d, mul(I(int(c1)), t))}
    return None


def exactdiv(d, c):
    if all(k % c == 0 for m, k in tm._poly(d).items()):
        return tm._from({m: k // c for m, k in tm._poly(d).items()}, 'I')
    return None


def splitdiv(d, c):
    """d = c*q + r with r a constant in [0,c) or a single variable part not divisible"""
    q = {}; r = {}
    for m, k in tm._poly(d).items():
        if m == ():
            q[m] = k // c; r[m] = k % c
        elif k % c == 0:
            q[m] = k // c
        else:
            r[m] = k
    if any(m != () for m in r):
        return None, None
    return tm._from(q, 'I'), tm._from(r, 'I')


def ginv(name, x):
    return app('ginv:' + name, 'I', x)


def solve_seg(P, x, ob, oN, inner, names, ks, p, x0):
    """P(ob) <= x < P(ob+1) style segments"""
    k = ob
    # candidate prefix functions: (i) P is an accumulated sum  (ii) P is array jc[k]
    offs = ZI
    P0 = P
    # normalise: the prefix function must satisfy seg uniqueness; strip terms like p(k)+const that only shift within the segment
    pref = {}; shift = {}
    hassum = any(len(m) == 1 and m[0][0].op == 'sum' for m, c in tm._poly(P).items())
    for m, c in tm._poly(P).items():
        if len(m) == 1 and m[0][1] == 1 and c > 0 and (m[0][0].op == 'sum' or (not hassum and c == 1 and m[0][0].op == 'sel' and _isprefix(m[0][0], ob))):
            pref[m] = c
        elif len(m) == 1 and m[0][1] == 1 and c > 0 and (m[0][0] is ob or _ismax0(m[0][0], ob)):
            pref[m] = c
        else:
            shift[m] = c
    if not pref: return None
    if all(m == ((ob, 1),) or _ismax0(m[0][0], ob) for m in pref): return None
    Pp = tm._from(pref, 'I')
    # sums may be written with an inner shift; the increment of Pp must cover the written positions
    seg = SEGS.get(ob, Pp, oN)
    # unification: x contains the same family at another argument
    cand = None
    for m, c in tm._poly(x).items():
        if c == 1 and len(m) == 1:
            a = m[0][0]
            for m2 in pref:
                b = m2[0][0]
                if b is ob: continue
                if a.op == 'sum' and b.op == 'sum':
                    t = _unify_sum(b, a, ob)
                    if t is not None: cand = t
                elif a.op == 'sel' and b.op == 'sel' and a.args[0] == b.args[0] and len(a.args) == 2 and \
                        b.args[1] is ob:
                    cand = a.args[1]
    def finish(t):
        g = []
        m = {ob: t}
        st = subst(p, {ob.args[0]: t})
        if not inner:
            g.append(eq(st, x0))
            return and_(*g), m
        if len(inner) == 1:
            r = solve1(st, x0, {inner[0]}, names, dict())
            if r is None: return None
            g2, m2 = r
            m.update(m2); g.append(g2)
            return and_(*g), m
        return None
    if len(inner) > 1: return None
    if cand is not None and HINT[0]:
        HINT[1] = True
        return finish(cand)
    # generic inverse; the shift may move the position inside the segment, so use the raw position
    return finish(seg(x))


def _ismax0(a, ob):
    return a is ite(le(ob, ZI), ZI, ob)


def _isprefix(a, ob):
    return len(a.args) == 2 and a.args[1] is ob


def _unify_sum(pat, a, ob):
    """pat = sum with bound ob (+const); a = same body, other bound"""
    if pat.args[1] is not a.args[1]: return None
    N = pat.args[0]
    if N is ob: return a.args[0]
    d = sub(N, ob)
    if ob.args[0] not in d.fv: return sub(a.args[0], d)
    return None


def perm_axiom(t):
    """P a permutation of [0,n): for x in range, ginv(x) in range and P(ginv(x))==x"""
    name = t.args[0][5:]
    if name in INJ: return TRUE
    n = PERM[name]
    x = t.args[1]
    return implies(and_(le(ZI, x), lt(x, n)), and_(le(ZI, t), lt(t, n), eq(sel(name, 'I', t), x)))


INJ = set()


def inj_facts(name, n):
    """hypotheses stating that the first n entries of array `name` are pairwise different"""
    k = fresh('p', 'I')
    P = sel(name, 'I', k)
    return [forall_tmp([k], implies(and_(le(ZI, k), lt(k, n)), eq(app('ginv:' + name, 'I', P), k)))]


def perm_facts(name, n):
    """hypotheses stating that array `name` is a permutation of [0,n)"""
    k = fresh('p', 'I')
    P = sel(name, 'I', k)
    return [forall_tmp([k], implies(and_(le(ZI, k), lt(k, n)), and_(le(ZI, P), lt(P, n), eq(app('ginv:' + name, 'I', P), k))))]
