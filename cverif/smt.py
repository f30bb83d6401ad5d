"""Discharge of verification conditions: instantiation of quantified facts,
axioms for sums/folds/sqrt, translation to z3, and model extraction."""
import z3, time, os
clock = time.process_time     # budgets are counted in CPU time of the process
from fractions import Fraction
import terms as tm
from terms import *

z3.set_param('smt.random_seed', 1)


def closed(t):
    for x in t.fv:
        if x[0] == '#':
            return False
    return True


# ------------------------------------------------------------------ templates
def template(body):
    """abstract closed subterms of a binder body: (key, [params])"""
    params = []
    pidx = {}

    def hole(t):
        if t not in pidx:
            pidx[t] = len(params); params.append(t)
        return ('?', pidx[t], t.sort)

    def go(t):
        if t.op == 'const':
            return ('c', t.args[0], t.sort)
        if closed(t):
            return hole(t)
        if t.op == 'bv':
            return t.args[0]
        if t.op == 'poly':
            rest = {}; parts = []
            for m, c in t.args:
                if all(closed(a) for a, e in m):
                    rest[m] = c
                else:
                    parts.append((tuple(sorted(((go(a), e) for a, e in m), key=repr)), c))
            k = tuple(sorted(parts, key=repr))
            if rest:
                r = tm._from(rest, t.sort)
                k += ((go(r),),)
            return ('poly', k, t.sort)
        if t.op == 'sum':
            return ('sum', go(t.args[0]), go(t.args[1]), t.args[2])
        if t.op == 'fold':
            return ('fold', t.args[0], t.args[1], go(t.args[2]), tuple(go(x) for x in t.args[3]), tuple(go(x) for x in t.args[4]))
        if t.op in ('all', 'ex'):
            return (t.op, t.args[0], go(t.args[2]))
        return (t.op,) + tuple(go(a) if isinstance(a, T) else a for a in t.args) + (t.sort,)
    return go(body), params


class Query:
    def __init__(self, hyps, goal, rounds=2, ext=False, maxinst=600, deadline=None, last=False, wild=False):
        self.wild = wild
        self.last = last; self.haslast = False
        self.hyps = list(hyps)
        self.goal = goal
        self.rounds = rounds
        self.ext = ext
        self.maxinst = maxinst
        self.ground = []          # quantifier-free formulas (positive)
        self.gset = set()
        self.quants = {}          # all-term -> guard var (T bool)
        self.qdone = set()
        self.sels = {}            # head -> set of ground applications
        self.sums = {}            # ground sum terms
        self.folds = {}
        self.apps = {}
        self.seen = set()
        self.pending = []
        self.ninst = 0
        self.nsk = 0
        self.qn = {}
        self.deadline = deadline
        self.monodone = set()

    # ---------- formulas: NNF with named quantifiers
    def addf(self, f):
        """assert formula f"""
        if f.sort != 'B': f = ne0(f)
        if f is TRUE: return
        if f.op == 'and':
            for x in f.args: self.addf(x)
            return
        if f.op == 'all':
            self.addq(f, None)
            return
        f = self.pos(f)
        if f is TRUE: return
        if f.op == 'and':
            for x in f.args: self.addf(x)
            return
        if f in self.gset: return
        self.gset.add(f)
        self.ground.append(f)
        self.scan(f)

    def hasq(self, t, memo={}):
        r = memo.get(t.id)
        if r is None:
            if t.op in ('all', 'ex'): r = True
            elif t.op in ('const', 'var', 'bv'): r = False
            elif t.op == 'poly': r = any(self.hasq(a) for m, c in t.args for a, e in m)
            elif t.op == 'sum': r = self.hasq(t.args[0])
            elif t.op == 'fold': r = self.hasq(t.args[2]) or any(self.hasq(a) for a in t.args[3])
            else: r = any(self.hasq(a) for a in t.args if isinstance(a, T))
            memo[t.id] = r
        return r

    def pos(self, f):
        """positive occurrence: replace quantifiers by guarded names / skolems"""
        if not self.hasq(f): return f
        op = f.op
        if op == 'all':
            return self.addq(f, True)
        if op == 'ex':
            return self.pos(self.skolem(f))
        if op == 'and': return and_(*[self.pos(x) for x in f.args])
        if op == 'or': return or_(*[self.pos(x) for x in f.args])
        if op == 'not': return self.neg(f.args[0])
        if op == 'ite':
            c, a, b = f.args
            return and_(or_(self.neg(c), self.pos(a)), or_(self.pos(c), self.pos(b)))
        # quantifier inside a term: name it in both polarities
        return self.terms_q(f)

    def neg(self, f):
        if not self.hasq(f): return not_(f)
        op = f.op
        if op == 'all':
            h, s, b = f.args
            vs = [fresh('sk', x) for x in s]
            return self.pos(not_(openq(f, vs)))
        if op == 'ex':
            h, s, b = f.args
            vs = [fresh('qn', x) for x in s]
            return self.pos(forall_tmp(vs, not_(openq(f, vs))))
        if op == 'and': return or_(*[self.neg(x) for x in f.args])
        if op == 'or': return and_(*[self.neg(x) for x in f.args])
        if op == 'not': return self.pos(f.args[0])
        if op == 'ite':
            c, a, b = f.args
            return and_(or_(self.neg(c), self.neg(a)), or_(self.pos(c), self.neg(b)))
        return not_(self.terms_q(f))

    def skolem(self, f):
        h, s, b = f.args
        return openq(f, [fresh('sk', x) for x in s])

    def terms_q(self, f):
        """replace closed quantified formulas nested in terms by a boolean b <=> Q"""
        qs = []

        def find(t):
            if not self.hasq(t): return
            if t.op in ('all', 'ex'):
                qs.append(t); return
            if t.op == 'poly':
                for m, c in t.args:
                    for a, e in m: find(a)
            elif t.op == 'sum': find(t.args[0])
            elif t.op == 'fold':
                find(t.args[2]); [find(a) for a in t.args[3]]
            else:
                for a in t.args:
                    if isinstance(a, T): find(a)
        find(f)
        m = {}
        for q in qs:
            if not closed(q): continue
            b = self.qn.get(q)
            if b is None:
                b = self.qn[q] = fresh('qb', 'B')
                self.pending.append(or_(not_(b), q))
                self.pending.append(or_(b, not_(q) if q.op != 'all' else self._notall(q)))
            m[q] = b
        return self.replace(f, m)

    def _notall(self, q):
        vs = [fresh('qn', x) for x in q.args[1]]
        return exists_tmp(vs, not_(openq(q, vs)))

    def replace(self, f, m):
        def go(t):
            if t in m: return m[t]
            if not self.hasq(t): return t
            if t.op == 'poly':
                r = const(0, t.sort)
                for mm, c in t.args:
                    p = const(c, t.sort)
                    for a, e in mm:
                        for _ in range(e): p = mul(p, go(a))
                    r = add(r, p)
                return r
            a = [go(x) if isinstance(x, T) else x for x in t.args]
            o = t.op
            if o == 'ite': return ite(*a)
            if o == 'and': return and_(*a)
            if o == 'or': return or_(*a)
            if o == 'not': return not_(a[0])
            if o == 'le0': return le0(a[0])
            if o == 'lt0': return lt0(a[0])
            if o == 'eq0': return eq0(a[0])
            if o == 'toreal': return toreal(a[0])
            if o == 'inv': return inv(a[0])
            if o == 'sel': return sel(a[0], t.sort, *a[1:])
            if o == 'app': return app(a[0], t.sort, *a[1:])
            return t
        return go(f)

    def addq(self, q, named):
        if q in self.quants:
            g = self.quants[q][0]
            if g is None or named is None:
                self.quants[q] = (None, self.quants[q][1])
                if g is not None and named is None:
                    self.addf(g)
                return TRUE if g is None else g
            return g
        g = None if named is None else fresh('qg', 'B')
        self.quants[q] = (g, self.patterns(q))
        return g if g is not None else TRUE

    # ---------- triggers
    def patterns(self, q):
        h, sorts, b = q.args
        names = ['#%d.%d' % (h, j) for j in range(len(sorts))]
        ns = set(names)
        cands = []

        def go(t, inb):
            if t.fv.isdisjoint(ns): return
            if t.op in ('sel', 'app'):
                # (arguments over inner bound variables match anything)
                if self.wild and t.op == 'sel' or not any(x[0] == '#' and x not in ns for x in t.fv):
                    ok = True; vs = set()
                    for a in t.args[1:]:
                        inter = a.fv & ns
                        if inter:
                            if any(x[0] == '#' and x not in ns for x in a.fv): ok = False; break
                            v = self.affine(a, ns)
                            if v is None: ok = False; break
                            vs.add(v[0])
                    if ok and vs:
                        cands.append((t, vs))
                for a in t.args[1:]: go(a, inb)
                return
            if t.op == 'poly':
                for m, c in t.args:
                    for a, e in m: go(a, inb)
                return
            if t.op == 'sum':
                go(t.args[0], inb); go(t.args[1], True); return
            if t.op == 'fold':
                go(t.args[2], inb)
                for x in t.args[3]: go(x, inb)
                for x in t.args[4]: go(x, True)
                return
            for a in t.args:
                if isinstance(a, T): go(a, inb)
        go(b, False)
        # minimal sets of patterns covering all variables
        used = {n for n in names if n in b.fv}
        pats = []
        seenp = set()
        for t, vs in cands:
            if vs == used:
                key = (t.args[0], tuple(t.args[1:]))
                if key not in seenp:
                    seenp.add(key); pats.append((t,))
        if not pats and len(used) == 2:
            for t, vs in cands:
                for t2, vs2 in cands:
                    if len(vs) == 1 and len(vs2) == 1 and vs | vs2 == used and (list(vs)[0] < list(vs2)[0]):
                        pats.append((t, t2))
        return names, pats

    def affine(self, a, ns):
        """a = +-v + rest  ->  (v, sign, rest)"""
        if a.op == 'bv':
            return (a.args[0], 1, None)
        if a.op != 'poly': return None
        v = None; rest = {}
        for m, c in a.args:
            hit = [x for x, e in m if not x.fv.isdisjoint(ns)]
            if hit:
                if v is not None or len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'bv' or c.__class__ is not int:
                    return None
                v = (m[0][0].args[0], int(c))
            else:
                rest[m] = c
        if v is None: return None
        r = tm._from(rest, a.sort)
        return (v[0], v[1], r)

    def match(self, pat, g, ns):
        """bindings making pat == g modulo linear arithmetic on each argument"""
        out = {}
        for a, x in zip(pat.args[1:], g.args[1:]):
            if a.fv.isdisjoint(ns):
                continue          # left to the solver's congruence (arguments may be equal)
            v = self.affine(a, ns)
            n, s, rest = v
            val = x if rest is None else sub(x, rest)
            if s < 0: val = neg(val)
            if abs(s) != 1:
                import mem
                val = mem.exactdiv(val, abs(s))
                if val is None: return None
            if not closed(val): return None
            if n in out and out[n] is not val: return None
            out[n] = val
        return out

    # ---------- scanning
    def scan(self, t):
        st = [t]
        while st:
            t = st.pop()
            if t in self.seen: continue
            self.seen.add(t)
            op = t.op
            if op in ('const', 'var', 'bv'):
                continue
            if op == 'sel':
                if closed(t): self.sels.setdefault((t.args[0], len(t.args)), {})[t] = 1
                st.extend(t.args[1:])
            elif op == 'app':
                if closed(t):
                    self.sels.setdefault((t.args[0], len(t.args)), {})[t] = 1
                    self.apps[t] = 1
                st.extend(t.args[1:])
            elif op == 'poly':
                for m, c in t.args:
                    for a, e in m: st.append(a)
            elif op == 'sum':
                if closed(t): self.sums[t] = 1
                st.append(t.args[0])
                # closed subterms of the body are parameters
                _, ps = template(t.args[1])
                st.extend(ps)
            elif op == 'fold':
                if closed(t): self.folds[t] = 1
                st.append(t.args[2]); st.extend(t.args[3])
                for x in t.args[4]:
                    st.extend(template(x)[1])
            elif op == 'inv':
                if closed(t): self.apps[t] = 1
                st.append(t.args[0])
            elif op in ('all', 'ex'):
                pass
            else:
                for a in t.args:
                    if isinstance(a, T): st.append(a)

    def flush(self):
        while self.pending:
            p = self.pending; self.pending = []
            for f in p: self.addf(f)

    # ---------- axioms of interpreted terms
    def axioms(self, done):
        new = []
        for t in list(self.apps):
            if t in done: continue
            done.add(t)
            if t.op == 'inv':
                x = t.args[0]
                new.append(or_(eq0(x), eq(mul_(x, t), OR_)))
                new.append(or_(not_(eq0(x)), eq0(t)))
                new.append(iff(lt(ZR, x), lt(ZR, t)))
                new.append(iff(lt0(x), lt0(t)))
                continue
            f = t.args[0]
            if f == 'sqrt':
                x = t.args[1]
                new.append(or_(lt0(x), and_(le(ZR, t), eq(mul(t, t), x))))
                new.append(or_(le0(x), lt(ZR, t)))
            elif f == 'floor':
                x = t.args[1]
                new.append(le(toreal(t), x)); new.append(lt(x, add(toreal(t), OR_)))
            elif f == 'trunc':
                x = t.args[1]; r = toreal(t)
                new.append(ite(lt0(x), and_(le(x, r), lt(r, x + 1)), and_(le(r, x), lt(x, r + 1))))
            elif f.startswith('seg'):
                import mem
                new.append(mem.seg_axiom(t))
            elif f.startswith('ginv:'):
                import mem
                new.append(mem.perm_axiom(t))
            elif f == 'exp':
                new.append(lt(ZR, t))
            elif f == 'idiv':
                a, b = t.args[1:]
                if b.op == 'const' and b.args[0] > 0:
                    new.append(and_(le(mul(b, t), a), lt(a, mul(b, t) + b)))
        sums = list(self.sums)
        fam = {}
        for s in sums:
            N, b, h = s.args
            key = (template(b)[0], h, s.sort)
            fam.setdefault(b, []).append(s)
            if s in done: continue
            done.add(s)
            new.append(or_(lt(ZI, N), eq0(s)))
            sk = fresh('sn', 'I')
            bd = sumbody(s, sk)
            new.append(or_(le(const(0, s.sort), s), and_(le(ZI, sk), lt(sk, N), lt0(bd))))
            new.append(or_(le(s, const(0, s.sort)), and_(le(ZI, sk), lt(sk, N), lt(const(0, s.sort), sumbody(s, sk)))) if self.ext else TRUE)
        for b, ss in fam.items():
            for i, s in enumerate(ss):
                for s2 in ss[i + 1:]:
                    if (s, s2) in done: continue
                    done.add((s, s2))
                    N, M = s.args[0], s2.args[0]
                    d = sub(M, N)
                    if d.op == 'const':
                        if d.args[0] < 0:
                            s_, s2_, N_, d_ = s2, s, M, -int(d.args[0])
                        else:
                            s_, s2_, N_, d_ = s, s2, N, int(d.args[0])
                        if d_ <= 4:
                            tot = s_
                            for j in range(d_): tot = add(tot, sumbody(s_, add(N_, I(j))))
                            new.append(or_(lt0(N_), eq(s2_, tot)))
                        continue
                    if s.sort == 'I':
                        for a, sa, c, sc in ((N, s, M, s2), (M, s2, N, s)):
                            sk = fresh('sm', 'I')
                            new.append(or_(lt0(a), le(c, a), le(add(sa, sumbody(sa, a)), sc),
                                           and_(le(a, sk), lt(sk, c), lt0(sumbody(sa, sk)))))
                    new.append(or_(not_(eq(N, M)), eq(s, s2)))
        if self.ext:
            n = 0
            for i, s in enumerate(sums):
                for s2 in sums[i + 1:]:
                    if s.sort != s2.sort or s.args[1] is s2.args[1]: continue
                    if (s, s2, 'x') in done: continue
                    n += 1
                    if n > 60: break
                    done.add((s, s2, 'x'))
                    sk = fresh('sx', 'I')
                    new.append(or_(not_(eq(s.args[0], s2.args[0])), eq(s, s2),
                                   and_(le(ZI, sk), lt(sk, s.args[0]), not_(eq(sumbody(s, sk), sumbody(s2, sk))))))
        folds = list(self.folds)
        fam = {}
        for s in folds:
            w, h, N, inits, bs = s.args
            fam.setdefault((w, h, inits, bs), []).append(s)
            if s in done: continue
            done.add(s)
            new.append(or_(lt(ZI, N), eq(s, inits[w])))
            if len(inits) == 1 and s.sort in ('R', 'I'):
                # induction lemmas: monotone, bounded by the initial value
                sk = fresh('fn', 'I'); a = fresh('fa', s.sort)
                st = foldstep(s, sk, (a,))[0]
                new.append(or_(le(inits[0], s), and_(le(ZI, sk), lt(sk, N), lt(st, a))))
                sk = fresh('fn', 'I'); a = fresh('fa', s.sort)
                st = foldstep(s, sk, (a,))[0]
                new.append(or_(le(s, inits[0]), and_(le(ZI, sk), lt(sk, N), lt(a, st))))
                if self.ext: new += self.fold_mono(s)
                if self.last: new += self.fold_last(s)
        for key, ss in fam.items():
            for i, s in enumerate(ss):
                for s2 in ss[i + 1:]:
                    if (s, s2) in done: continue
                    done.add((s, s2))
                    w, h, N, inits, bs = s.args
                    M = s2.args[2]
                    d = sub(M, N)
                    if d.op == 'const' and abs(d.args[0]) == 1:
                        lo_, hi_ = (s, s2) if d.args[0] == 1 else (s2, s)
                        w, h, N, inits, bs = lo_.args
                        comps = [fold_at(lo_, j) for j in range(len(inits))]
                        st = foldstep(lo_, N, comps)[w]
                        new.append(or_(lt0(N), eq(hi_, st)))
                    else:
                        new.append(or_(not_(eq(N, M)), eq(s, s2)))
        if self.ext:
            n = 0
            for i, s in enumerate(folds):
                for s2 in folds[i + 1:]:
                    w, h, N, inits, bs = s.args
                    w2, h2, N2, inits2, bs2 = s2.args
                    if s.sort != s2.sort or len(bs) != len(bs2) or w != w2: continue
                    if any(x.sort != y.sort for x, y in zip(inits, inits2)): continue
                    if bs == bs2 and inits == inits2: continue
                    if (s, s2, 'x') in done: continue
                    n += 1
                    if n > 40: break
                    done.add((s, s2, 'x'))
                    sk = fresh('fx', 'I')
                    ac = [fresh('fa', x.sort) for x in inits]
                    st1 = foldstep(s, sk, ac); st2 = foldstep(s2, sk, ac)
                    new.append(or_(not_(eq(N, N2)), eq(s, s2), *([not_(eq(x, y)) for x, y in zip(inits, inits2)] +
                               [and_(le(ZI, sk), lt(sk, N), or_(*[not_(eq(x, y)) for x, y in zip(st1, st2)]))])))
        for f in new: self.addf(f)
        self.flush()
        return len([x for x in new if x is not TRUE])

    def fold_last(self, s):
        """fold that keeps or replaces its value: either never replaced, or replaced last at some step k"""
        w, h, N, inits, bs = s.args
        if any(x.startswith('lk!') for x in N.fv): return []
        k = fresh('lk', 'I'); a = fresh('la', s.sort)
        cv = choice_form(foldstep(s, k, (a,))[0], a)
        if cv is None or cv[1] is None: return []
        self.haslast = True
        C, v = cv
        at = lambda e: subst(C, {k.args[0]: e, a.args[0]: fold_with(s, e)})
        j1 = fresh('j', 'I'); j2 = fresh('j', 'I')
        never = and_(eq(s, inits[0]), forall_tmp([j1], or_(lt0(j1), le(N, j1), not_(at(j1)))))
        last = and_(le(ZI, k), lt(k, N), at(k), eq(s, subst(v, {a.args[0]: fold_with(s, k)})), forall_tmp([j2], or_(le(j2, k), le(N, j2), not_(at(j2)))))
        return [or_(le(N, ZI), never, last)]

    def fold_mono(self, s):
        """single-accumulator folds: at every skolem index j, fold(j+1)=step(j,fold(j)); monotone steps bound the result"""
        w, h, N, inits, bs = s.args
        if s in self.monodone: return []
        self.monodone.add(s)
        out = []
        js = {x for hd in self.sels.values() for t in hd for x in t.args[1:] if isinstance(x, T) and x.op == 'var' and x.sort == 'I' and x.args[0].startswith(('sk', 'w!', 'e!'))}
        for j in sorted(js, key=lambda x: x.id)[:6]:
            mk = lambda n: tm._mk('fold', (0, h, n, inits, bs), s.sort, s.h, (s.fv - N.fv) | n.fv) if False else fold_with(s, n)
            f0 = mk(j); f1 = mk(add(j, OI))
            out.append(or_(lt0(j), eq(f1, foldstep(s, j, (f0,))[0])))
            for up in (True, False):
                sk = fresh('fm', 'I'); a = fresh('fa', s.sort)
                st = foldstep(s, sk, (a,))[0]
                good = le(f1, s) if up else le(s, f1)
                bad = lt(st, a) if up else lt(a, st)
                out.append(or_(lt0(j), le(N, j), good, and_(lt(j, sk), lt(sk, N), bad)))
        return out

    def instantiate(self):
        n = 0
        for q, (g, (names, pats)) in list(self.quants.items()):
            ns = set(names)
            for pat in pats:
                if len(pat) == 1:
                    p = pat[0]
                    for t in list(self.sels.get((p.args[0], len(p.args)), ())):
                        b = self.match(p, t, ns)
                        if b is None: continue
                        n += self.inst(q, g, names, b)
                else:
                    p, p2 = pat
                    for t in list(self.sels.get((p.args[0], len(p.args)), ())):
                        b = self.match(p, t, ns)
                        if b is None: continue
                        for t2 in list(self.sels.get((p2.args[0], len(p2.args)), ())):
                            b2 = self.match(p2, t2, ns)
                            if b2 is None: continue
                            if any(k in b and b[k] is not v for k, v in b2.items()): continue
                            n += self.inst(q, g, names, dict(b, **b2))
                if self.ninst > self.maxinst: return n
        self.flush()
        return n

    def inst(self, q, g, names, b):
        vals = tuple(b.get(x) for x in names)
        key = (q, vals)
        if key in self.qdone: return 0
        self.qdone.add(key)
        sorts = q.args[1]
        vs = [v if v is not None else const(0, s) for v, s in zip(vals, sorts)]
        f = openq(q, vs)
        if g is not None: f = or_(not_(g), f)
        self.ninst += 1
        self.addf(f)
        return 1

    def prepare(self):
        for h in self.hyps: self.addf(h)
        self.addf(not_(self.goal) if not self.hasq(self.goal) else self.neg(self.goal))
        self.flush()
        done = set()
        for r in range(self.rounds):
            n = self.axioms(done)
            n += self.instantiate()
            if n == 0 or self.ninst > self.maxinst: break
            if self.deadline and clock() > self.deadline: break
        self.axioms(done)


def choice_form(t, a):
    """t as: if C then v else a, with v free of a -> (C, v); None if it has another form"""
    if t is a: return FALSE, None
    if a.args[0] not in t.fv: return TRUE, t
    if t.op == 'ite' and a.args[0] not in ():
        x = choice_form(t.args[1], a); y = choice_form(t.args[2], a)
        if x is None or y is None: return None
        c = t.args[0]
        C = or_(and_(c, x[0]), and_(not_(c), y[0]))
        v = x[1] if y[1] is None else y[1] if x[1] is None else ite(c, x[1], y[1])
        return C, v
    return None


def mul_(x, t):
    """x*inv(x) without normalisation surprises"""
    return mul(x, t)


def fold_at(s, j):
    w, h, N, inits, bs = s.args
    return tm._mk('fold', (j, h, N, inits, bs), inits[j].sort, s.h, s.fv)


# ------------------------------------------------------------------ z3
class Z3Tr:
    def __init__(self):
        self.memo = {}
        self.fn = {}
        self.ctx = z3.Context()
        self.S = {'I': z3.IntSort(self.ctx), 'R': z3.RealSort(self.ctx), 'B': z3.BoolSort(self.ctx)}
        self.tmpl = {}

    def func(self, name, doms, rng):
        k = (name, tuple(doms), rng)
        f = self.fn.get(k)
        if f is None:
            nm = name + '/' + ''.join(doms)
            f = z3.Function(nm, *([self.S[d] for d in doms] + [self.S[rng]])) if doms else z3.Const(name, self.S[rng])
            self.fn[k] = f
        return f

    def num(self, v, sort):
        if sort == 'I': return z3.IntVal(int(v), self.ctx)
        v = Fraction(v)
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator), self.ctx)

    def tr(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        op = t.op
        if op == 'const':
            r = z3.BoolVal(t.args[0], self.ctx) if t.sort == 'B' else self.num(t.args[0], t.sort)
        elif op in ('var', 'bv'):
            r = z3.Const(t.args[0], self.S[t.sort])
        elif op in ('sel', 'app'):
            a = [self.tr(x) for x in t.args[1:]]
            f = self.func(('@' if op == 'sel' else '') + t.args[0], [x.sort for x in t.args[1:]], t.sort)
            r = f(*a) if a else f
        elif op == 'poly':
            parts = []
            for m, c in t.args:
                conds = []
                fs = []
                for a, e in m:
                    if a.sort == 'R' and isind(a):
                        pos = a.args[1].args[0] == 1
                        z = self.tr(a.args[0])
                        conds.append(z if pos else z3.Not(z))
                        continue
                    za = self.tr(a)
                    fs.extend([za] * e)
                p = None
                for x in fs: p = x if p is None else p * x
                if p is None: p = self.num(c, t.sort)
                elif c != 1: p = self.num(c, t.sort) * p
                if conds:
                    p = z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], p, self.num(0, t.sort))
                parts.append(p)
            r = parts[0] if len(parts) == 1 else z3.Sum(*parts)
        elif op == 'ite':
            r = z3.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
        elif op == 'inv':
            f = self.func('inv', ['R'], 'R')
            r = f(self.tr(t.args[0]))
        elif op == 'toreal':
            r = z3.ToReal(self.tr(t.args[0]))
        elif op == 'sum':
            key, ps = template(t.args[1])
            r = self.binder('sum', (key, t.args[2]), [t.args[0]] + ps, t.sort)
        elif op == 'fold':
            w, h, N, inits, bs = t.args
            keys = []; ps = []
            for b in bs:
                k, p = template(b)
                keys.append((k, len(p))); ps += p
            r = self.binder('fold%d' % w, (h, tuple(keys)), [N] + list(inits) + ps, t.sort)
        elif op == 'and': r = z3.And(*[self.tr(x) for x in t.args])
        elif op == 'or': r = z3.Or(*[self.tr(x) for x in t.args])
        elif op == 'not': r = z3.Not(self.tr(t.args[0]))
        elif op == 'le0': r = self.cmp0(t.args[0], lambda a, b: a <= b)
        elif op == 'lt0': r = self.cmp0(t.args[0], lambda a, b: a < b)
        elif op == 'eq0': r = self.cmp0(t.args[0], lambda a, b: a == b)
        elif op in ('all', 'ex'):
            key, ps = template(t.args[2])
            r = self.binder(t.op, (t.args[0], key), ps, 'B')
        else:
            raise AssertionError(op)
        self.memo[t] = r
        return r

    def cmp0(self, p, f):
        # move negative monomials to the right: keeps congruence-friendly shapes
        if p.op == 'poly':
            pos = {m: c for m, c in p.args if c > 0}
            ng = {m: -c for m, c in p.args if c < 0}
            return f(self.tr(tm._from(pos, p.sort)), self.tr(tm._from(ng, p.sort)))
        return f(self.tr(p), self.num(0, p.sort))

    def binder(self, kind, key, params, sort):
        k = (kind, key, sort)
        n = self.tmpl.setdefault(k, len(self.tmpl))
        a = [self.tr(x) for x in params]
        f = self.func('%s_%d' % (kind, n), [x.sort for x in params], sort)
        return f(*a) if a else f


class Result:
    __slots__ = ('status', 'model', 'time', 'backend', 'tr', 'info', 'query')

    def __init__(self, status, time=0, backend='', model=None, tr=None, info='', query=None):
        self.status = status; self.model = model; self.time = time; self.backend = backend; self.tr = tr; self.info = info
        self.query = query


TR = [None]
LASTRL = [0]
RATE = 3000000


def run_z3(q, timeout, seed=1):
    if TR[0] is None: TR[0] = Z3Tr()
    tr = TR[0]            # translations are shared by the queries of one obligation
    s = z3.SimpleSolver(ctx=tr.ctx)
    if os.environ.get('CV_RL'): s.set('timeout', int(timeout * 1000))
    else:
        # a deterministic resource limit (about RATE units per second), so that the verdict does not depend on the load of the machine
        s.set('rlimit', int(timeout * RATE)); s.set('timeout', int(timeout * 6000))
    s.set('random_seed', seed)
    for f in q.ground: s.add(tr.tr(f))
    t0 = clock()
    r = s.check()
    dt = clock() - t0
    if os.environ.get('CV_RL'):
        st = s.statistics()
        try: rl = st.get_key_value('rlimit count')
        except Exception: rl = 0
        print('RL %.2f %d %s' % (dt, rl - LASTRL[0], r)); LASTRL[0] = rl
    if r == z3.unsat: return Result('unsat', dt, 'z3')
    if r == z3.sat: return Result('sat', dt, 'z3', s.model(), tr, query=q)
    return Result('unknown', dt, 'z3', info=s.reason_unknown(), query=q)


DEFS = {}          # defining facts of named arrays: fact -> name
_NM = {}


def names_in(t):
    """named arrays that t reads"""
    r = _NM.get(t)
    if r is None:
        s = set()
        if t.op == 'sel' and t.args[0].startswith('nm:'): s.add(t.args[0])
        if t.op == 'poly':
            for m, c in t.args:
                for a, e in m: s |= names_in(a)
        else:
            for a in t.args:
                if isinstance(a, T): s |= names_in(a)
                elif isinstance(a, tuple):
                    for x in a:
                        if isinstance(x, T): s |= names_in(x)
        r = _NM[t] = frozenset(s)
    return r


def levels(hyps, goal):
    """subsets of the hypotheses, with more and more definitions of named arrays unfolded"""
    defs = {}
    base = []
    for h in hyps:
        n = DEFS.get(h)
        if n is None: base.append(h)
        else: defs.setdefault(n, []).append(h)
    if not defs: return [hyps]
    out = []
    S = set(names_in(goal))
    got = []
    for lev in range(4):
        out.append([h for h in base if names_in(h) <= S] + [h for n in got for h in defs[n]])
        new = [n for n in sorted(S) if n in defs and n not in got]
        if not new: break
        got += new
        for n in new:
            for h in defs[n]: S |= names_in(h)
    if len(out[-1]) < len(hyps): out.append(hyps)
    return out


def prove(hyps, goal, budget=20.0):
    """-> Result; status unsat == proved"""
    if goal is TRUE:
        return Result('unsat', 0, 'normal-form')
    t0 = clock()
    if unrolled(hyps, goal) is TRUE: return Result('unsat', clock() - t0, 'normal-form')
    ls = levels(hyps, goal)
    if len(ls) > 1:
        for h in ls:
            r = prove_(h, goal, 3.0, light=True)
            r.time = clock() - t0
            if r.status == 'unsat': return r
    for i, h in enumerate(ls):
        r = prove_(h, goal, budget if i == len(ls) - 1 else budget / 4)
        r.time = clock() - t0
        if r.status == 'unsat': break
    return r


def prove_(hyps, goal, budget=20.0, light=False):
    TR[0] = None
    t0 = clock()
    last = None
    plan = ((2, False, 1.0), ('wild', False, 1.0), ('last', None, 10.0), ('split', None, 4.0), (3, True, 2.0), ('split', None, budget), (3, True, budget / 2), (5, True, budget))
    if hasreal(goal) and size(goal) > 600: plan = tuple(x for x in plan if x != ('split', None, 4.0) and x != (3, True, 2.0))     # large algebraic goals: cases first
    if light: plan = ((2, False, 1.0), ('last', None, 1.0))
    for rounds, ext, tmo in plan:
        if rounds == 'wild':
            if hasreal(goal): continue
            q = Query(hyps, goal, rounds=3, ext=False, maxinst=600, deadline=clock() + budget, wild=True)
            q.prepare()
            r = run_z3(q, tmo); r.time = clock() - t0
            if r.status == 'unsat': return r
            continue
        if rounds == 'last':
            for rd, ex in ((2, False), (3, True)):
                q = Query(hyps, goal, rounds=rd, ext=ex, maxinst=300 * rd, deadline=clock() + budget, last=True)
                q.prepare()
                if not q.haslast: break
                r = run_z3(q, tmo); r.time = clock() - t0
                if r.status == 'unsat': return r
            continue
        if rounds == 'split':
            sp = Split(clock() + tmo)
            try:
                ok = sp.start(list(hyps), goal)
            except NotImplementedError:
                ok = False
            if ok: return Result('unsat', clock() - t0, 'z3, %d cases' % sp.n)
            continue
        q = Query(hyps, goal, rounds=rounds, ext=ext, maxinst=300 * rounds, deadline=clock() + budget)
        q.prepare()
        r = run_z3(q, tmo)
        r.time = clock() - t0
        if r.status == 'unsat':
            return r
        last = r
        if clock() - t0 > budget * 2: break
    return last


def fold_with(s, n):
    """the same fold over another number of steps"""
    w, h, N, inits, bs = s.args
    k = fresh('k', 'I'); accs = tuple(fresh('a', x.sort) for x in inits)
    return tm.fold_tmp(w, n, inits, k, accs, foldstep(s, k, accs))


def unrolled(hyps, goal):
    """goal with sum_{i<n+1} f(i) written as sum_{i<n} f(i) + f(n) where both sums occur and 0 <= n is provable"""
    if goal.op in ('all', 'ex'): return goal
    sums = {}
    seen = set()

    def go(t):
        if t in seen: return
        seen.add(t)
        if t.op == 'poly':
            for m, c in t.args:
                for a, e in m: go(a)
            return
        if t.op == 'sum' and closed(t): sums.setdefault((t.args[1], t.args[2]), []).append(t)
        if t.op in ('sum', 'fold', 'all', 'ex'): return
        for a in t.args:
            if isinstance(a, T): go(a)
    go(goal)
    m = {}
    for (b, h), l in sums.items():
        for s in l:
            for u in l:
                if u is not s and sub(s.args[0], u.args[0]) is const(1, 'I') and quick([x for x in hyps if not hasreal(x)], le(ZI, u.args[0])):
                    m[s] = add(u, sumbody(s, u.args[0])); break
    if m: goal = replace(goal, m)
    if goal is not TRUE and hasreal(goal) and any(True for _ in sums): goal = replace(goal, {}, signs=True)
    return goal


def quick(hyps, goal, tmo=0.5):
    """cheap entailment test used to simplify terms (its result is re-checked by the obligations)"""
    q = Query(hyps, goal, rounds=2, ext=False, maxinst=200, deadline=clock() + 1)
    q.prepare()
    return run_z3(q, tmo).status == 'unsat'


# ------------------------------------------------------------------ proof by cases
def negative(t):
    """leading coefficient below zero"""
    if t.op == 'const': return t.args[0] < 0
    return t.op == 'poly' and t.args[0][1] < 0


def replace(t, m, memo=None, signs=False):
    """replace closed subterms (keys of m) and re-simplify; signs: case distinctions are made with a positive first value"""
    memo = {} if memo is None else memo

    def go(t):
        r = m.get(t)
        if r is not None: return r
        op = t.op
        if op in ('const', 'var', 'bv'): return t
        r = memo.get(t)
        if r is not None: return r
        if op == 'sel': r = sel(t.args[0], t.sort, *[go(x) for x in t.args[1:]])
        elif op == 'app': r = app(t.args[0], t.sort, *[go(x) for x in t.args[1:]])
        elif op == 'poly':
            r = const(0, t.sort)
            for mm, c in t.args:
                p = const(c, t.sort)
                for a, e in mm:
                    x = go(a)
                    for _ in range(e): p = mul(p, x)
                r = add(r, p)
        elif op == 'ite':
            x = go(t.args[1]); y = go(t.args[2])
            if signs and x.sort == 'R' and negative(x if x.op != 'const' or x.args[0] != 0 else y): r = neg(ite(go(t.args[0]), neg(x), neg(y)))
            else: r = ite(go(t.args[0]), x, y)
        elif op == 'inv': r = inv(go(t.args[0]))
        elif op == 'toreal': r = toreal(go(t.args[0]))
        elif op == 'and': r = and_(*[go(x) for x in t.args])
        elif op == 'or': r = or_(*[go(x) for x in t.args])
        elif op == 'not': r = not_(go(t.args[0]))
        elif op == 'le0': r = le0(go(t.args[0]))
        elif op == 'lt0': r = lt0(go(t.args[0]))
        elif op == 'eq0': r = eq0(go(t.args[0]))
        elif op == 'sum':
            v = fresh('rb', 'I')
            b = sumbody(t, v)
            r = tm.sum_tmp(go(t.args[0]), v, go(b))
        elif op == 'fold':
            w, h, N, inits, bs = t.args
            k = fresh('rk', 'I'); ac = tuple(fresh('ra', x.sort) for x in inits)
            st = foldstep(t, k, ac)
            r = tm.fold_tmp(w, go(N), tuple(go(x) for x in inits), k, ac, tuple(go(b) for b in st))
        elif op in ('all', 'ex'):
            vs = [fresh('rq', s) for s in t.args[1]]
            r = tm.quant(op, vs, go(openq(t, vs)))
        else: r = t
        memo[t] = r
        return r
    return go(t)


DEEP = [False]


def conditions(t, acc, seen):
    """closed ite conditions of t (not below binders), in post-order"""
    if t in seen: return
    seen.add(t)
    op = t.op
    if op in ('const', 'var', 'bv', 'all', 'ex'): return
    if op == 'sum':
        conditions(t.args[0], acc, seen)
        if DEEP[0]: conditions(t.args[1], acc, seen)
        return
    if op == 'fold':
        conditions(t.args[2], acc, seen)
        for x in t.args[3]: conditions(x, acc, seen)
        return
    if op == 'poly':
        for m, c in t.args:
            for a, e in m: conditions(a, acc, seen)
        return
    for a in t.args:
        if isinstance(a, T): conditions(a, acc, seen)
    if op == 'ite' and closed(t.args[0]) and t.args[0] not in acc:
        acc.append(t.args[0])


_isint = {}


def hasreal(t):
    r = _isint.get(t)
    if r is None:
        if t.sort == 'R': r = True
        elif t.op == 'poly': r = any(hasreal(a) for m, c in t.args for a, e in m)
        elif t.op in ('const', 'var', 'bv'): r = False
        elif t.op == 'fold': r = hasreal(t.args[2]) or any(hasreal(x) for x in t.args[3] + t.args[4])
        else: r = any(hasreal(a) for a in t.args if isinstance(a, T))
        _isint[t] = r
    return r


def apps_in(t, pref, acc, seen):
    if t in seen: return
    seen.add(t)
    if t.op == 'app' and t.args[0].startswith(pref) and closed(t): acc.append(t)
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m: apps_in(a, pref, acc, seen)
    else:
        for a in t.args:
            if isinstance(a, T): apps_in(a, pref, acc, seen)
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T): apps_in(x, pref, acc, seen)


def int_vars(t, acc, seen):
    if t in seen: return
    seen.add(t)
    if t.op == 'var' and t.sort == 'I': acc.add(t)
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m: int_vars(a, acc, seen)
    else:
        for a in t.args:
            if isinstance(a, T): int_vars(a, acc, seen)


def size(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = 1
        if t.op == 'poly': r += sum(size(a) for m, c in t.args for a, e in m)
        else:
            for a in t.args:
                if isinstance(a, T): r += size(a)
                elif isinstance(a, tuple): r += sum(size(x) for x in a if isinstance(x, T))
        memo[t] = r
    return r


def aliases(hyps):
    """top-level equations between plain integer symbols, as a rewriting"""
    m = {}
    def find(x):
        while x in m: x = m[x]
        return x
    st = list(hyps)
    while st:
        h = st.pop()
        if h.op == 'and': st.extend(h.args); continue
        if h.op != 'eq0' or h.args[0].sort != 'I' or h.args[0].op != 'poly': continue
        p = h.args[0].args
        if len(p) != 2: continue
        (m1, c1), (m2, c2) = p
        if len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1 or c1 + c2 != 0: continue
        a, b = m1[0][0], m2[0][0]
        if not all(x.op == 'var' or (x.op == 'sel' and len(x.args) == 1) for x in (a, b)): continue
        a, b = find(a), find(b)
        if a is b: continue
        if (len(a.args[0]), a.args[0]) < (len(b.args[0]), b.args[0]): a, b = b, a
        m[a] = b
    return {a: find(a) for a in m}


def elim(c):
    """an equation that determines an element index symbol: the substitution"""
    if c.op != 'eq0' or c.args[0].sort != 'I' or c.args[0].op != 'poly': return None
    p = c.args[0]
    for m, k in p.args:
        if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op == 'var' and m[0][0].args[0].startswith(('e!', 'sk!')):
            v = m[0][0]
            r = sub(v, p) if k == 1 else add(v, p)
            if v.args[0] not in r.fv: return {v.args[0]: r}
    return None


def rangesimp(hyps, t, decide, deadline):
    """decide conditions below sum binders using the range of the bound index"""
    memo = {}

    def inner(x, acc, seen, v):
        if x in seen or v.args[0] not in x.fv: return
        seen.add(x)
        if x.op == 'poly':
            for m, c in x.args:
                for a, e in m: inner(a, acc, seen, v)
            return
        if x.op == 'sum': inner(x.args[0], acc, seen, v); inner(x.args[1], acc, seen, v); return
        for a in x.args:
            if isinstance(a, T): inner(a, acc, seen, v)
        if x.op == 'ite' and closed(x.args[0]) and x.args[0] not in acc: acc.append(x.args[0])

    def hassum(x):
        return x.op == 'sum' or (x.op == 'poly' and any(hassum(a) for m, c in x.args for a, e in m)) or \
            (x.op not in ('poly', 'fold', 'all', 'ex') and any(hassum(a) for a in x.args if isinstance(a, T)))

    def go(x, hy):
        if x.op in ('const', 'var', 'bv') or not hassum(x): return x
        key = (x, len(hy))
        r = memo.get(key)
        if r is not None: return r
        if x.op == 'sum':
            v = fresh('sk', 'I')
            b = sumbody(x, v)
            h2 = hy + [le(ZI, v), lt(v, x.args[0])]
            acc = []
            inner(b, acc, set(), v)
            m = {}
            for c in acc:
                if hasreal(c) or clock() > deadline: continue
                d = decide([y for y in h2 if not hasreal(y)], c)
                if d is not None: m[c] = d; m[not_(c)] = not_(d)
            if m: b = replace(b, m)
            b = go(b, h2)
            r = tm.sum_tmp(x.args[0], v, b)
        elif x.op == 'poly':
            r = const(0, x.sort)
            for mm, c in x.args:
                p = const(c, x.sort)
                for a, e in mm:
                    y = go(a, hy)
                    for _ in range(e): p = mul(p, y)
                r = add(r, p)
        elif x.op in ('fold', 'all', 'ex'): r = x
        else:
            m = {a: go(a, hy) for a in x.args if isinstance(a, T)}
            m = {a: b for a, b in m.items() if a is not b}
            r = replace(x, m) if m else x
        memo[key] = r
        return r
    return go(t, list(hyps))


class Split:
    def __init__(self, deadline):
        self.deadline = deadline; self.n = 0

    def start(self, hyps, goal):
        al = aliases(hyps)
        if al:
            memo = {}
            hyps = [replace(h, al, memo) for h in hyps]
            goal = replace(goal, al, memo)
        hyps, goal = self.opened(hyps, goal)
        g2 = rangesimp(hyps, goal, self.decide, self.deadline)
        return self.prove(hyps, g2)

    def opened(self, hyps, goal):
        """universal goals at fresh indices, with their integer side conditions as hypotheses"""
        while goal.op in ('all', 'or'):
            if goal.op == 'all':
                goal = openq(goal, [fresh('sk', s) for s in goal.args[1]]); continue
            side = [a for a in goal.args if not hasreal(a) and a.op not in ('all', 'and')]
            rest = [a for a in goal.args if a not in side]
            if not side or not rest: break
            hyps = hyps + [not_(a) for a in side]
            goal = or_(*rest)
        return hyps, goal

    def decide(self, hyps, c):
        h = hyps if hasreal(c) else [x for x in hyps if not hasreal(x)]
        try:
            if quick(h, c, 1.0): return TRUE
            if quick(h, not_(c), 1.0): return FALSE
        except NotImplementedError: pass
        return None

    def prove(self, hyps, goal, depth=0):
        self.n += 1
        if clock() > self.deadline or self.n > 400 or depth > 40: return False
        if goal is TRUE: return True
        if goal.op == 'and':
            return all(self.prove(hyps, g, depth + 1) for g in goal.args)
        if goal.op in ('all', 'or'):
            h2, g2 = self.opened(hyps, goal)
            if g2 is not goal: return self.prove(h2, rangesimp(h2, g2, self.decide, self.deadline), depth + 1)
        acc = []
        conditions(goal, acc, set())
        if not acc:
            DEEP[0] = True
            try: conditions(goal, acc, set())
            finally: DEEP[0] = False
        if acc:
            def rank(c):
                s = []
                apps_in(c, ('seg', 'ginv'), s, set())
                inner = []
                conditions(c, inner, set())
                return (len(inner) > 0, len(s) > 0, hasreal(c), size(c))
            c = min(acc, key=rank)
            d = None
            if not hasreal(c): d = self.decide(hyps, c)
            if d is not None:
                return self.prove(hyps + [c if d is TRUE else not_(c)], self.repl(goal, c, d), depth + 1)
            e = elim(c)
            if e is None: tr = self.prove(hyps + [c], self.repl(goal, c, TRUE), depth + 1)
            else:
                g1 = self.repl(goal, c, TRUE)
                tr = self.prove([subst(h, e) for h in hyps], subst(g1, e), depth + 1)
            return tr and \
                self.prove(hyps + [not_(c)], self.repl(goal, c, FALSE), depth + 1)
        if depth:
            g2 = rangesimp(hyps, goal, self.decide, self.deadline)
            if g2 is not goal: return self.prove(hyps, g2, depth + 1)
        # inverse terms: identify equal ones
        segs = []
        apps_in(goal, ('seg', 'ginv'), segs, set())
        if segs:
            vs = set(); int_vars(goal, vs, set())
            hi = [x for x in hyps if not hasreal(x)]
            for s in sorted(segs, key=size, reverse=True):
                cands = sorted((v for v in vs if v.args[0].startswith(('k@', 'w!', 'sk', 'b!', 'd!'))), key=lambda v: v.args[0]) + \
                    [x for x in segs if x is not s and x.args[0] == s.args[0] and size(x) <= size(s)]
                for x in cands:
                    if clock() > self.deadline: return False
                    if quick(hi, eq(s, x), 1.0):
                        return self.prove(hyps + [eq(s, x)], replace(goal, {s: x}), depth + 1)
        r = self.leaf(hyps, goal)
        return r

    def repl(self, goal, c, v):
        m = {c: v, not_(c): not_(v)}
        # conjuncts of a true conjunction / disjuncts of a false disjunction are known too
        if v is TRUE and c.op == 'and':
            for x in c.args: m[x] = TRUE; m[not_(x)] = FALSE
        if v is FALSE and c.op == 'or':
            for x in c.args: m[x] = FALSE; m[not_(x)] = TRUE
        return replace(goal, m)

    def leaf(self, hyps, goal):
        if goal is FALSE or not hasreal(goal):
            h = [x for x in hyps if not hasreal(x)]
            if quick(h, goal, 2.0): return True
        for ext in (False, True):
            q = Query(hyps, goal, rounds=2 + ext, ext=ext, maxinst=300, deadline=clock() + 4)
            q.prepare()
            if run_z3(q, 3).status == 'unsat': return True
        return False
