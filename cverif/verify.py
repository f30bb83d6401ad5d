"""Verification of one function against its contract: generate all obligations, discharge them."""
import sys, time, traceback, os
sys.setrecursionlimit(200000)
from terms import *
import terms as tm
import mem, smt
from mem import *
import symex
from symex import *
from contract import Contracts, Piece
import calls
from calls import depth, prefix

FILES = ['src/spla.c', 'src/splamm.c', 'src/cone.c', 'src/equil.c', 'src/expcone.c', 'src/wright_omega.c', 'src/kkt.c',
         'src/ecos.c', 'src/preproc.c', 'src/ctrlc.c', 'src/timer.c', 'ecos_bb/ecos_bb.c', 'ecos_bb/ecos_bb_preproc.c',
         'external/ldl/src/ldl.c']


class Obl:
    __slots__ = ('func', 'name', 'line', 'hyps', 'goal', 'status', 'time', 'backend', 'info', 'model')

    def __init__(self, func, name, line, hyps, goal):
        self.func = func; self.name = name; self.line = line; self.hyps = hyps; self.goal = goal
        self.status = None; self.time = 0; self.backend = ''; self.info = ''; self.model = None

    @property
    def id(self): return '%s/%s@%s' % (self.func, self.name, self.line)


def spec_array(E, path, base, pieces):
    a = base
    for pc in pieces:
        if pc.binders: a = Map(a, pc.binders, pc.ranges, pc.guard, pc.idx, pc.val)
        else:
            x = Store(a, pc.idx, pc.val)
            a = x if pc.guard is TRUE else IteA(pc.guard, x, a)
    return a


def bind_params(E, c, st):
    args = []
    for name, kind, ty in c.params:
        if kind == 'scalar':
            args.append(sel(name, sort_of(ty)))
        elif kind == 'arr':
            p = Ptr(name + '[]', (), ZI)
            if name in c.alias:
                p = Ptr(c.alias[name], (), ZI)
            if name in c.nullable: p = pite(c.nullable[name], p, NULL)
            args.append(p)
        elif kind == 'struct':
            p = E.defptr(name, (), ty.to)
            if name in c.nullable: p = pite(c.nullable[name], p, NULL)
            args.append(p)
        elif kind == 'pp':
            args.append(Ptr(name, (), ZI, arr=False))
        else: raise Unsupported('parameter kind')
    return args


def generate(prog, contracts, name, alias=None, opts=None):
    """-> (Engine, [Obl]) ; raises Unsupported"""
    c = contracts.get(name)
    E = Engine(prog, contracts, name)
    E.noContract = {name} | set(c.inline_callees)
    E.nanmode = c.nan; E.infmode = getattr(c, "inf", False)
    c0 = c
    amap_alias = {}
    if alias is not None:
        # second run: parameter `a` is the same array as `b`
        a, b = alias
        amap_alias = {a + '[]': b + '[]'}
    fn = c.fn
    st = State()
    al = dict(c.alias)
    E.alias = {}
    for p, tgt in al.items():
        E.alias[p] = Ptr(tgt, (), ZI) if isinstance(tgt, str) else tgt
    E.nullable = dict(c.nullable)
    ren = (lambda t: rename_sel(t, amap_alias)) if amap_alias else (lambda t: t)
    for p, f in c.ext.items():
        if p in amap_alias: continue
        E.extents[p] = (lambda idx, f=f: lift(f(*idx)))
    args = []
    for (nm, kind, ty), a in zip(c.params, bind_params(E, c, st)):
        if alias and nm == alias[0]: a = Ptr(alias[1] + '[]', (), ZI)
        args.append(a)
    E.callstack = []
    fr = E.enter(fn, args, st, '')
    E.frames.append(fr)
    for nmp, n in c.perms.items():
        mem.PERM[nmp] = n
        E.facts += perm_facts(nmp, n)
    for nmp, n in c.injs.items():
        mem.PERM[nmp] = n; mem.INJ.add(nmp)
        E.facts += mem.inj_facts(nmp, n)
    for label, t in c.requires_: E.fact(ren(t))
    for p, f in c.ext.items():
        # extents are non-negative
        nd = depth(p)
        if nd == 1: E.fact(le(ZI, lift(f())))
    E.nreq = len(E.facts)
    o = E.run(E.body_of(fn), st)
    exits = list(o.ret) + ([o.fall] if o.fall is not None else [])
    exits = [s for s in exits if FALSE not in s.pc]
    if len(exits) > 10: exits = [E.merge_list(exits)]
    obls = [Obl(name, kind, line, hyps, goal) for kind, hyps, goal, line in E.obls]
    E.line = None
    for xi, s in enumerate(exits):
        tag = '' if len(exits) == 1 else ' (exit %d)' % (xi + 1)
        obls += exit_goals(E, c, s, tag, name, ren, amap_alias)
    if not exits:
        obls.append(Obl(name, 'function returns', None, list(E.facts), FALSE))
    return E, obls


def rename_sel(t, m):
    return subst(t, {}, {a: (lambda idx, b=b, s=s: sel(b, s, *idx)) for a, b in m.items() for s in ('R',)})


def exit_goals(E, c, s, tag, fname, ren=lambda t: t, am=None):
    out = []
    am = am or {}

    def goal(label, g, extra=()):
        if g is TRUE:
            out.append(Obl(fname, label + tag, None, None, TRUE)); return
        out.append(Obl(fname, label + tag, None, list(E.facts) + list(s.pc) + list(extra), g))

    def primed(t):
        """primed names are values of the final state"""
        m = {}
        for nm, so in calls.selnames(t):
            if nm == "ret'": m[nm] = lambda idx: s.ret
            elif nm.endswith("'"):
                def rd(idx, nm=nm[:-1], so=so):
                    if idx:
                        return E.read_arr(s, nm, so, len(idx)).read(tuple(idx))
                    return s.mem.get(nm, sel(nm, so))
                m[nm] = rd
        return subst(t, {}, m)
    # return value
    if c.ret is not None:
        r = s.ret
        want = ren(c.ret)
        if want.sort == 'B': want = b2i(want)
        if r is None: goal('returns a value', FALSE)
        elif isinstance(r, (Ptr, PIte)): raise Unsupported('pointer result')
        else:
            if r.sort == 'R': want = toreal(want)
            goal('return value', eq(r, want))
    sets = {}
    for p, pcs in c.sets.items():
        q = am.get(p, p)
        sets.setdefault(q, [])
        sets[q] += [Piece(x.binders, [ren(r) for r in x.ranges], ren(x.guard), [ren(i) for i in x.idx], ren(x.val)) for x in pcs]
    hav = {am.get(p, p): v for p, v in c.havocs.items()}
    paths = set(sets) | {p for p in s.mem if not p.startswith(('L:', 'H:', 'live:', 'undef:'))}
    for p in sorted(paths):
        if p in c.skip_paths: continue
        if p in hav and any(len(x) == 0 for x in hav[p]) and p not in sets: continue
        pieces = sets.get(p, [])
        scalar = (pieces and not pieces[0].idx) or (not pieces and not isinstance(s.mem.get(p), Arr))
        if scalar:
            sort = s.mem[p].sort if p in s.mem else pieces[0].val.sort
            pre = sel(p, sort)
            want = pre
            for pc in pieces: want = ite(pc.guard, pc.val, want)
            have = s.mem.get(p, pre)
            if not pieces: goal('%s is unchanged' % p, eq(have, want) if sort != 'B' else iff(have, want))
            else: goal('final value of %s' % p, eq(have, primed(want)))
            continue
        nd = depth(p)
        have = s.mem.get(p)
        if have is None: have = E.read_arr(s, p, sortof_path(pieces), nd)
        if not isinstance(have, Arr): raise Unsupported('shape of ' + p)
        base = Base(p, have.sort, nd)
        # value of every written element
        later = []
        for j, pc in reversed(list(enumerate(pieces))):
            bs = [fresh('w', 'I') for _ in pc.binders]
            m = {b.args[0]: x for b, x in zip(pc.binders, bs)}
            f = lambda t: subst(t, m)
            hyps = [f(pc.guard)]
            for b, N in zip(bs, pc.ranges): hyps += [le(ZI, b), lt(b, f(N))]
            idx = tuple(f(i) for i in pc.idx)
            for q in later:
                alts = [(and_(*[eq(a, b) for a, b in zip(q.idx, idx)]), {})] if not q.binders else q_inv(q, idx)
                for g, mm in alts or []: hyps.append(not_(q_cond(q, g, mm)))
            goal('final value of %s%s' % (p, '' if len(pieces) == 1 else ' #%d' % (j + 1)), eq(have.read(idx), primed(f(pc.val))), hyps)
            later.append(pc)
        # frame
        e = tuple(fresh('e', 'I') for _ in range(nd))
        hyps = []
        for d in range(nd):
            hyps.append(le(ZI, e[d]))
            sp = prefix(p, d + 1)
            if sp in E.extents: hyps.append(lt(e[d], E.extents[sp](e[:d])))
        for q in pieces:
            if q.binders:
                alts = q_inv(q, e)
                if alts is None:
                    bs = [fresh('w', 'I') for _ in q.binders]
                    m = {b.args[0]: x for b, x in zip(q.binders, bs)}
                    f = lambda t: subst(t, m)
                    rng = [f(q.guard)]
                    for b, N in zip(bs, q.ranges): rng += [le(ZI, b), lt(b, f(N))]
                    hyps.append(forall_tmp(bs, not_(and_(*(rng + [eq(f(i), x) for i, x in zip(q.idx, e)])))))
                else:
                    for g, mm in alts[-1:]: hyps.append(not_(q_cond(q, g, mm)))
            else:
                hyps.append(not_(and_(q.guard, *[eq(a, b) for a, b in zip(q.idx, e)])))
        for x in hav.get(p, []):
            if len(x): hyps.append(not_(and_(*[eq(a, b) for a, b in zip(x, e)])))
        goal('%s is otherwise unchanged' % p if pieces else '%s is unchanged' % p, eq(have.read(e), base.read(e)), hyps)
    # pointers
    allp = set(c.ptrsets) | {p for p in s.ptrs if not p.startswith(('L:', 'H:'))}
    for p in sorted(allp):
        want = None
        init = E.alias.get(p) or E.ptrdefaults.get(p)
        spec = c.ptrsets.get(p)
        have = s.ptrs.get(p)
        if spec is None:
            if have is None: continue
            t = ptr_init(E, c, p)
            goal('pointer %s is unchanged' % p, psame_term(have, t) if t is not None else FALSE)
        elif spec[0] == 'null':
            h = have if have is not None else ptr_init(E, c, p)
            goal('pointer %s is null' % p, not_(E.nonnull(h)))
        elif spec[0] == 'ptr':
            def match(h, path, idx, off):
                if isinstance(h, PIte): return ite(h.c, match(h.a, path, idx, off), match(h.b, path, idx, off))
                return and_(eq(h.off, off), *[eq(a, b) for a, b in zip(h.idx, idx)]) if isinstance(h, Ptr) and h.path == path else FALSE
            cond = ren(spec[4])
            goal('pointer %s' % p, implies(cond, match(have, spec[1], spec[2], spec[3])))
            if cond is not TRUE:
                t = ptr_init(E, c, p)

                def keep(h): return TRUE if h is None else psame_term(h, t)
                goal('pointer %s is unchanged otherwise' % p, implies(not_(cond), keep(have)))
    # relational postconditions
    for label, t in c.ensures_:
        goal('ensures %s' % label, primed(ren(t)))
    return out


def psame_term(a, b):
    """the condition under which two pointer values are the same"""
    if isinstance(a, PIte): return ite(a.c, psame_term(a.a, b), psame_term(a.b, b))
    if isinstance(b, PIte): return ite(b.c, psame_term(a, b.a), psame_term(a, b.b))
    if a.path is None and b.path is None: return TRUE
    if a.path != b.path or len(a.idx) != len(b.idx): return FALSE
    return and_(eq(a.off, b.off), *[eq(x, y) for x, y in zip(a.idx, b.idx)])


def ptr_init(E, c, p):
    if p in E.alias: return E.alias[p]
    return c_ptr_default(E, c, p)


def c_ptr_default(E, c, p):
    # default pointer of a field path: follow the types
    toks = p.split('.')
    for name, kind, ty in c.params:
        if name == toks[0]:
            t = ty
            for f in toks[1:]:
                f = f.replace('[]', '')
                t0 = t.to if t.kind == 'ptr' else t
                rec = dict(E.prog.records[t0.name])
                t = rec[f]
            d = E.defptr(p, (), t.to)
            nn = E.nullable.get(p)
            return PIte(nn, d, NULL) if nn is not None else d
    return None


def q_inv(q, e): return mem.solve(q.idx, e, q.binders, q.ranges)


def q_cond(q, g, m):
    vm = {b.args[0]: m[b] for b in q.binders}
    conds = [g]
    for b, N in zip(q.binders, q.ranges): conds += [le(ZI, m[b]), lt(m[b], subst(N, vm))]
    conds.append(subst(q.guard, vm))
    return and_(*conds)


def sortof_path(pieces): return pieces[0].val.sort


def discharge(o, budget=20.0):
    if o.goal is TRUE:
        o.status = 'proved'; o.backend = 'normal-form'; return o
    t0 = time.time()
    try:
        r = smt.prove(o.hyps, o.goal, budget)
    except Exception as e:
        o.status = 'error'; o.info = traceback.format_exc()[-1500:]; o.time = time.time() - t0
        return o
    o.time = time.time() - t0; o.backend = r.backend
    if r.status == 'unsat': o.status = 'proved'
    else:
        o.status = 'refuted' if r.status == 'sat' else 'unknown'
        o.model = r; o.info = r.info or ''
    return o


def verify(prog, contracts, name, budget=20.0, verbose=False):
    c = contracts.get(name)
    runs = [None] + list(c.aliases)
    res = []
    for al in runs:
        tm_ = time.time()
        try:
            E, obls = generate(prog, contracts, name, al)
        except Unsupported as e:
            o = Obl(name, 'verification conditions can be generated', None, None, None)
            o.status = 'unsupported'; o.info = str(e) + '\n' + traceback.format_exc()[-1200:]
            res.append(o); continue
        gen = time.time() - tm_
        for o in obls:
            if al: o.name += ' [%s is %s]' % al
            discharge(o, budget)
            if verbose and o.status != 'proved':
                print('   ', o.status, o.id, '%.2f' % o.time)
        res += obls
        if verbose: print(name, 'gen %.2fs' % gen, len(obls), 'obligations', sum(o.status == 'proved' for o in obls), 'proved', '%.2fs' % sum(o.time for o in obls))
    return res


if __name__ == '__main__':
    import build
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts'))
    import allcontracts
    prog = cfront_prog = __import__('cfront').Program([build.REPO + '/' + f for f in FILES])
    C = Contracts(prog)
    names = sys.argv[1:]
    from contract import REG
    if names == ['all']: names = list(REG)
    for nm in names:
        c = C.get(nm)
        if c is None: print(nm, C.problems.get(nm)); continue
        for o in verify(prog, C, nm, verbose=True):
            if o.status != 'proved':
                print('  FAIL', o.id, o.status, (o.info or '')[-1500:])
