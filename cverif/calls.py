"""Calls: library functions, contracts at call sites, inlining."""
from terms import *
import terms as tm
from mem import *
from symex import *
import symex
from contract import Piece

PURE = {'printf', 'fprintf', 'fflush', 'puts', 'putchar', 'sprintf', 'snprintf', '__printf_chk', 'perror', 'fputs'}


def do_call(E, n, st):
    ks = E.kids(n)
    callee = ks[0]
    f = E.ev(callee, st)
    args_n = ks[1:]
    if not isinstance(f, FuncRef) or f.name == '?':
        raise Unsupported('call through a pointer, line %s' % line_of(n))
    name = f.name
    if name in PURE:
        for a in args_n: E.ev(a, st)
        E.externs.add(name)
        return E.skolem('io', n)
    E.line = line_of(n) or E.line
    args = [E.ev(a, st) for a in args_n]
    b = BUILTINS.get(name)
    if b is not None and E.prog.func(name) is None:
        E.externs.add(name)
        return b(E, n, st, args)
    fn = E.prog.func(name)
    if fn is None:
        raise Unsupported('call of external function %s' % name)
    c = E.contracts.get(name) if name not in E.noContract else None
    if c is not None:
        E.used.add(name)
        return apply_contract(E, n, st, c, args)
    if getattr(E, 'noinline', None) and name in E.noinline:
        raise Unsupported('no contract for ' + name)
    E.inlined.add(name)
    s, r = E.inline(fn, args, st, str(n['id']))
    if s is None: raise Unsupported('callee does not return')
    st.mem = s.mem; st.ptrs = s.ptrs; st.pc = s.pc
    return r


# ------------------------------------------------------------------ library
def b_sqrt(E, n, st, a):
    x = toreal(a[0])
    return app('sqrt', 'R', x)


def b_unary(name):
    return lambda E, n, st, a: app(name, 'R', toreal(a[0]))


def b_fabs(E, n, st, a): return abs_(toreal(a[0]))


def b_isnan(E, n, st, a): return b2i(E.isnan(toreal(a[0])))


def b_isinf(E, n, st, a):
    if getattr(E, 'infmode', False): return b2i(or_(eq(toreal(a[0]), var('INF', 'R')), eq(toreal(a[0]), neg(var('INF', 'R')))))
    return b2i(app('isinf', 'B', toreal(a[0]))) if E.nanmode else ZI


def b_floor(E, n, st, a): return toreal(app('floor', 'I', toreal(a[0])))
def b_ceil(E, n, st, a): return toreal(neg(app('floor', 'I', neg(toreal(a[0])))))


def elems(t):
    """number of elements in a byte count that is a multiple of a sizeof"""
    d = tm._poly(t); out = {}; so = None
    for m, c in d.items():
        hit = [x for x in m if x[0].op == 'app' and x[0].args[0].startswith('sizeof:')]
        if len(hit) != 1 or hit[0][1] != 1: return None, None
        if so is not None and so is not hit[0][0]: return None, None
        so = hit[0][0]
        out[tuple(x for x in m if x is not hit[0])] = c
    return tm._from(out, 'I'), so


def b_malloc(E, n, st, a):
    nb = a[0] if len(a) == 1 else mul(a[0], a[1])
    cnt, so = elems(nb)
    path = 'H:%s%s' % (n['id'], ''.join('/' + c for c in E.callstack))
    idx = tuple(E.loopidx)
    st.mem['live:' + path] = ZI if False else OI
    if so is None: raise Unsupported('allocation size')
    name = so.args[0][7:]
    if name in E.prog.records and name not in ARRAY_STRUCTS:
        return Ptr(path, idx, ZI, arr=False)
    E.extents[path + '[]'] = lambda ix, cnt=cnt: cnt
    if len(a) == 2:
        E.initzero.add(path + '[]')
    return Ptr(path + '[]', idx, ZI)


def b_free(E, n, st, a):
    p = a[0]
    if isinstance(p, PIte) or p.path is None: return ZI
    return ZI


def b_memcpy(E, n, st, a):
    d, s, nb = a
    cnt, so = elems(nb)
    if cnt is None or isinstance(d, PIte) or isinstance(s, PIte): raise Unsupported('memcpy')
    sort = 'R' if so.args[0] in ('sizeof:double', 'sizeof:float') else 'I'
    src = E.read_arr(st, s.path, sort, len(s.idx) + 1); dst = E.read_arr(st, d.path, sort, len(d.idx) + 1)
    b = fresh('b', 'I')
    for p in (s, d):
        E.oblige('memcpy within bounds of ' + p.path, FALSE if p.path not in E.extents else
                 or_(le(cnt, ZI), and_(le(ZI, p.off), le(add(p.off, cnt), E.extents[p.path](p.idx)))), st)
    E.note_write(d.path)
    st.mem[d.path] = Map(dst, [b], [cnt], TRUE, d.idx + (add(d.off, b),), src.read(s.idx + (add(s.off, b),)))
    return d


def b_memset(E, n, st, a):
    d, v, nb = a
    cnt, so = elems(nb)
    if cnt is None or v is not ZI: raise Unsupported('memset')
    sort = 'R' if so.args[0] in ('sizeof:double', 'sizeof:float') else 'I'
    dst = E.read_arr(st, d.path, sort, len(d.idx) + 1)
    b = fresh('b', 'I')
    E.note_write(d.path)
    st.mem[d.path] = Map(dst, [b], [cnt], TRUE, d.idx + (add(d.off, b),), const(0, sort))
    return d


def b_havocint(E, n, st, a): return E.skolem('ext', n)


def b_havocreal(E, n, st, a): return E.skolem('extr', n, 'R')


def b_huge(E, n, st, a): return INF


def b_sig(E, n, st, a):
    return ZI


BUILTINS = {
    'sqrt': b_sqrt, 'exp': b_unary('exp'), 'log': b_unary('log'), 'fabs': b_fabs, 'fmax': lambda E, n, st, a: max_(*a),
    'fmin': lambda E, n, st, a: min_(*a), 'pow': lambda E, n, st, a: app('pow', 'R', *a),
    '__builtin_isnan': b_isnan, 'isnan': b_isnan, '__isnan': b_isnan, '__builtin_isinf_sign': b_isinf, 'isinf': b_isinf,
    '__isinf': b_isinf, '__builtin_isinf': b_isinf,
    'floor': b_floor, 'ceil': b_ceil, 'malloc': b_malloc, 'calloc': b_malloc, 'free': b_free, 'memcpy': b_memcpy,
    'memset': b_memset, 'rand': b_havocint, 'srand': b_havocint, 'time': b_havocint, 'clock': b_havocint,
    'clock_gettime': b_havocint, 'gettimeofday': b_havocint,
    '__builtin_huge_val': b_huge, '__builtin_inff': b_huge, '__builtin_inf': b_huge,
    '__builtin_nanf': lambda E, n, st, a: NAN, '__builtin_nan': lambda E, n, st, a: NAN, 'nan': lambda E, n, st, a: NAN,
    'labs': lambda E, n, st, a: abs_(a[0]), 'abs': lambda E, n, st, a: abs_(a[0]),
}


# ------------------------------------------------------------------ contract at a call site
class View:
    """callee names -> caller locations"""
    def __init__(self, E, st, c, args):
        self.E = E; self.c = c; self.roots = {}
        self.types = {}
        for (name, kind, ty), a in zip(c.params, args):
            self.types[name] = ty
            if kind == 'scalar': a = E.coerce(a, ty)
            self.roots[name] = a

    def steps(self, path):
        """'w.C.soc[].q[]' -> root, ['.C', '.soc', '[]', '.q', '[]']"""
        import re
        m = re.match(r'^([^.\[]+)(.*)$', path)
        return m.group(1), re.findall(r'\.[A-Za-z_0-9]+|\[\]', m.group(2))

    def locate(self, st, path, idx):
        """-> list of (guard, Loc) (null pointers dropped)"""
        E = self.E
        if path.startswith('G:'): return [(TRUE, Loc(path, tuple(idx), CType('int')))]
        root, toks = self.steps(path)
        ty = self.types[root]
        cur = [(TRUE, self.roots[root], ty)]     # values: pointer (with type ptr) or Loc
        idx = list(idx)
        for t in toks:
            nxt = []
            i = idx.pop(0) if t == '[]' else None
            for g, v, ty in cur:
                if isinstance(v, Loc):
                    if t == '[]':
                        # load the pointer stored here
                        if v.ty.kind == 'arr':
                            p = Ptr(v.path + '[]', v.idx, ZI); nxt += self.dr(st, g, p, v.ty.to, i)
                        else:
                            p = E.load_ptr(st, v)
                            nxt += self.dr(st, g, p, v.ty.to, i)
                    else:
                        if v.ty.kind == 'ptr':
                            for g2, l, ty2 in self.dr(st, g, E.load_ptr(st, v), v.ty.to, None):
                                nxt.append((g2, self.fld(l, t), None))
                        else:
                            nxt.append((g, self.fld(v, t), None))
                else:
                    for g2, l, ty2 in self.dr(st, g, v, ty.to, i):
                        if t == '[]': nxt.append((g2, l, None))
                        else: nxt.append((g2, self.fld(l, t), None))
            cur = nxt
        out = []
        for g, v, ty in cur:
            if not isinstance(v, Loc): raise Unsupported('location ' + path)
            out.append((g, v))
        return out

    def fld(self, l, t):
        rec = self.E.prog.records[l.ty.name]
        for f, ty in rec:
            if f == t[1:]: return Loc(l.path + t, l.idx, ty)
        raise Unsupported('field ' + t)

    def dr(self, st, g, p, to, i):
        if isinstance(p, PIte):
            return self.dr(st, and_(g, p.c), p.a, to, i) + self.dr(st, and_(g, not_(p.c)), p.b, to, i)
        if p.path is None: return []
        off = p.off if i is None else add(p.off, i)
        if p.path.endswith('[]'): return [(g, Loc(p.path, p.idx + (off,), to), None)]
        return [(g, Loc(p.path, p.idx, to), None)]

    def read(self, st, name, sort, idx):
        E = self.E
        if name.startswith('nn:'):
            return self.nonnull(st, name[3:], idx)
        if name.startswith('nan:'):
            x = self.read(st, name[4:], 'R', idx)
            return symex.isnan(x, E.nanmode)
        if name in self.roots and self.types[name].kind in ('int', 'real'):
            return self.roots[name]
        ls = self.locate(st, name, idx)
        if not ls: return sel('null:' + name, sort, *idx)
        r = None
        q = E.quiet
        E.quiet = 1
        try:
            for g, l in reversed(ls):
                v = E.load(st, l)
                r = v if r is None else ite(g, v, r)
        finally:
            E.quiet = q
        return r

    def nonnull(self, st, path, idx=()):
        root, toks = self.steps(path)
        if not toks: return self.E.nonnull(self.roots[root])
        ls = self.locate(st, path, idx)
        r = FALSE
        for g, l in ls:
            r = or_(r, and_(g, self.E.nonnull(self.E.load_ptr(st, l))))
        return r

    def amap(self, st, names, post=None, ret=None):
        m = {}
        for nm, sort in names:
            if nm == "ret'":
                m[nm] = lambda idx: ret
            elif nm.endswith("'"):
                m[nm] = lambda idx, nm=nm[:-1], s=sort: self.read(post, nm, s, idx)
            elif nm.split(':')[0] in ('null', 'undef'):
                continue
            else:
                m[nm] = lambda idx, nm=nm, s=sort: self.read(st, nm, s, idx)
        return m


def selnames(t, acc=None, seen=None):
    """{(name, sort)} of all sel terms in t"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        if x.op == 'sel': acc.add((x.args[0], x.sort))
        if x.op == 'poly':
            for m, c in x.args:
                for a, e in m: stack.append(a)
        else:
            for a in x.args:
                if isinstance(a, T): stack.append(a)
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, T): stack.append(b)
    return acc


def apply_contract(E, n, st, c, args):
    V = View(E, st, c, args)
    pre = st.copy()
    sort_names = {}

    def tr(t, post=None, ret=None):
        nm = selnames(t)
        return subst(t, {}, V.amap(pre, nm, post, ret))
    callid = '%s%s' % (n['id'], ''.join('/' + x for x in E.callstack))
    if not E.quiet:
        check_footprint(E, V, pre, c, tr)
        for label, t in c.requires_:
            E.oblige('precondition of %s: %s' % (c.name, label), tr(t), pre)
    # scalars and arrays
    newvals = []
    for path, pieces in c.sets.items():
        for pc in pieces:
            ps = [fresh('b', 'I') for _ in pc.binders]
            m = {b.args[0]: x for b, x in zip(pc.binders, ps)}
            f = lambda t: tr(subst(t, m))
            newvals.append((path, ps, [f(r) for r in pc.ranges], f(pc.guard), [f(i) for i in pc.idx], f(pc.val)))
    writes = []
    for path, bs, rs, g, idx, val in newvals:
        for g2, l in V.locate(pre, path, idx):
            writes.append((l, bs, rs, and_(g, g2), val))
    for path, pres in c.havocs.items():
        for pre_idx in pres:
            if path in c.ext:
                k = len(selidx(c, path)) if False else None
                nlead = depth(path) - 1
                bs = []; rs = []
                lead = list(pre_idx)
                full = lead
                # havoc the whole region for the given leading indices (or all of them)
                while len(full) < nlead:
                    sub_path = prefix(path, len(full) + 1)
                    N = tr(c.ext[sub_path](*full)) if sub_path in c.ext else ZI
                    b = fresh('b', 'I'); bs.append(b); rs.append(N); full = full + [b]
                N = tr(lift(c.ext[path](*full)))
                b = fresh('b', 'I'); bs.append(b); rs.append(N)
                sort = 'R' if V_elem(E, V, pre, path, full + [b]).kind == 'real' else 'I'
                val = sel('hv:%s:%s' % (callid, path), sort, *(list(E.loopidx) + full + [b]))
                for g2, l in V.locate(pre, path, full + [b]):
                    writes.append((l, bs, rs, g2, val))
            else:
                for g2, l in V.locate(pre, path, pre_idx):
                    s = sort_of(l.ty)
                    val = sel('hv:%s:%s' % (callid, path), s, *(list(E.loopidx) + list(pre_idx)))
                    writes.append((l, [], [], g2, val))
    for l, bs, rs, g, val in writes:
        E.note_write(l.path)
        s = sort_of(l.ty)
        if s is None: raise Unsupported('contract write to %s' % l.path)
        if not l.idx:
            old = E.load(st, l)
            st.mem[l.path] = ite(g, val, old)
            E.types.setdefault(l.path, (s, 0))
        else:
            a = E.read_arr(st, l.path, s, len(l.idx))
            if bs:
                st.mem[l.path] = Map(a, bs, rs, g, l.idx, val)
            else:
                x = Store(a, l.idx, val)
                st.mem[l.path] = x if g is TRUE else IteA(g, x, a)
    if E.naming() and E.toplevel():
        for p in sorted({l.path for l, _, _, _, _ in writes if l.idx}): E.name_array(st, p, n)
    for path, spec in c.ptrsets.items():
        for g, l in V.locate(pre, path, ()):
            if spec[0] == 'null': v = NULL
            elif spec[4] is not TRUE: raise Unsupported('call of %s: conditional pointer' % c.name)
            else:
                ls = V.locate(pre, spec[1], list(tr(i) for i in spec[2]) + [tr(spec[3])])
                v = None
                for g3, l3 in reversed(ls):
                    p = Ptr(l3.path, l3.idx[:-1], l3.idx[-1])
                    v = p if v is None else pite(g3, p, v)
                if v is None: v = NULL
            E.store(st, l, v)
    ret = None
    if c.rty.kind in ('int', 'real'):
        so = 'R' if c.rty.kind == 'real' else 'I'
        if c.ret is not None:
            ret = tr(c.ret)
            if ret.sort == 'B': ret = b2i(ret)
            if so == 'R': ret = toreal(ret)
        else:
            ret = sel('ret@' + callid, so, *E.loopidx)
    for label, t in c.ensures_:
        E.fact(tr(t, st, ret), st)
    E.calls.append((c.name, callid, V, pre, st, ret))
    return ret


def V_elem(E, V, st, path, idx):
    for g, l in V.locate(st, path, idx): return l.ty
    return CType('real')


def depth(path): return path.count('[]')


def prefix(path, k):
    """path up to and including the k-th '[]'"""
    pos = -1
    for _ in range(k): pos = path.index('[]', pos + 1)
    return path[:pos + 2]


def selidx(c, path): return ()


def names_nn(t):
    if t.op == 'sel' and t.args[0].startswith('nn:'): return True
    return any(names_nn(a) for a in t.args if isinstance(a, T)) if t.op != 'poly' else any(names_nn(a) for m, k in t.args for a, e in m)


def check_footprint(E, V, st, c, tr):
    regs = []
    seen = set()
    for path, f in c.ext.items():
        nd = depth(path)
        bs = [fresh('x', 'I') for _ in range(nd - 1)]
        hyps = []
        full = []
        for j, b in enumerate(bs):
            sp = prefix(path, j + 1)
            hyps += [le(ZI, b)]
            if sp in c.ext: hyps.append(lt(b, tr(lift(c.ext[sp](*full)))))
            full.append(b)
        n = tr(lift(f(*full)))
        if n is ZI: continue
        present = []
        # parts of an object that may be absent are required only when it is there
        for anc, cond in c.nullable.items():
            if path.startswith(anc + '.') and '[]' not in anc and '.' in anc and not names_nn(lift(cond)):
                hyps = hyps + [tr(lift(cond))]; present.append((anc, tr(lift(cond))))
        try:
            ls = V.locate(st, path, full + [ZI])
        except KeyError:
            raise Unsupported('footprint of %s: %s' % (c.name, path))
        nnp = path[:-2]
        nul = nnp in c.nullable
        for anc, cond in present:
            if anc in seen: continue
            seen.add(anc)
            g_ = or_(*[g for g, l in ls]) if ls else FALSE
            E.oblige('footprint of %s: %s is absent when the contract says so' % (c.name, anc), implies(g_, cond), st)
        if not ls and not nul:
            E.oblige('footprint of %s: %s is not null' % (c.name, path), le(n, ZI), st, extra=hyps)
        gall = FALSE
        for g, l in ls:
            gall = or_(gall, g)
            if not l.path.endswith('[]'): raise Unsupported('footprint ' + path)
            e = E.extents.get(l.path)
            if e is None:
                E.oblige('footprint of %s: %s known at the call' % (c.name, path), le(n, ZI), st, extra=hyps + [g]); continue
            have = e(l.idx[:-1])
            off = l.idx[-1]
            goal = or_(le(n, ZI), and_(le(ZI, off), le(add(off, n), have)))
            if goal is not TRUE:
                E.oblige('footprint of %s: %s lies within its object' % (c.name, path), goal, st, extra=hyps + [g])
            regs.append((path, l, n, g, full, hyps))
        if ls and not nul and gall is not TRUE:
            E.oblige('footprint of %s: %s is not null' % (c.name, path), or_(gall, le(n, ZI)), st, extra=hyps)
    # separation: written regions must not overlap any other region of the footprint
    written = set(c.sets) | set(c.havocs)
    for i, (p1, l1, n1, g1, f1, h1) in enumerate(regs):
        for (p2, l2, n2, g2, f2, h2) in regs[i + 1:]:
            if p1 == p2 or l1.path != l2.path: continue
            if p1 not in written and p2 not in written: continue
            if any({p1, p2} == {a + '[]', b + '[]'} for a, b in c.aliases): 
                # allowed when exactly equal
                if l1.idx == l2.idx: continue
            dj = [not_(eq(a, b)) for a, b in zip(l1.idx[:-1], l2.idx[:-1])]
            o1, o2 = l1.idx[-1], l2.idx[-1]
            goal = or_(*(dj + [le(add(o1, n1), o2), le(add(o2, n2), o1), le(n1, ZI), le(n2, ZI)]))
            E.oblige('call of %s: %s and %s do not overlap' % (c.name, p1, p2), goal, st, extra=h1 + h2 + [g1, g2])
