"""Contracts evaluated on executions of the compiled code of /repo.

A sample = concrete arguments built in C memory (every array with exactly its
declared extent, so the address sanitizer sees any access outside a footprint),
the function is called, and the post-state is compared with what the contract
says about every memory location of the footprint: written locations have the
specified value, all others are bit-for-bit unchanged, the result and the
relational postconditions are as stated.
"""
import ctypes as ct, random, math, re
from terms import *
from evalt import Ev, Indeterminate, Undefined, close
from contract import ARRAY_STRUCTS
from cstruct import CTypes
from calls import selnames, depth


class Reject(Exception):
    pass


libc = ct.CDLL(None)
libc.malloc.restype = ct.c_void_p; libc.malloc.argtypes = [ct.c_size_t]
libc.free.argtypes = [ct.c_void_p]


class Lib:
    def __init__(self, so, prog):
        self.dll = ct.CDLL(so); self.prog = prog; self.types = CTypes(prog)

    def fn(self, name, restype=None, argtypes=None):
        f = getattr(self.dll, name)
        if argtypes is not None: f.argtypes = argtypes
        f.restype = restype
        return f

    def bind(self, c):
        """foreign function of a contract"""
        f = getattr(self.dll, c.name)
        f.argtypes = [self.types.of(t) for t in c.ptypes]
        f.restype = None if c.rty.kind == 'void' else self.types.of(c.rty)
        return f


class Ctx:
    """one sample"""
    def __init__(self, lib, rng):
        self.lib = lib; self.rng = rng; self.allocs = []; self.finals = []
        self.args = {}          # parameter -> value (int/float/address or None)
        self.k = 0

    def malloc(self, nbytes):
        p = libc.malloc(max(nbytes, 1))
        ct.memset(p, 0, max(nbytes, 1))
        self.allocs.append(p)
        return p

    def struct(self, name, **kw):
        S = self.lib.types.struct(name)
        a = self.malloc(ct.sizeof(S))
        o = S.from_address(a)
        for k, v in kw.items(): setattr(o, k, v)
        return a, o

    def reals(self, v):
        n = len(v); a = self.malloc(8 * n)
        (ct.c_double * n).from_address(a)[:] = [float(x) for x in v]
        return a

    def ints(self, v):
        n = len(v); a = self.malloc(8 * n)
        (ct.c_long * n).from_address(a)[:] = [int(x) for x in v]
        return a

    def real(self):
        r = self.rng
        k = r.random()
        if k < 0.1: return 0.0
        if k < 0.25: return float(r.randint(-3, 3))
        if k < 0.33: return r.choice([-1, 1]) * 10 ** r.uniform(-6, 4)
        return r.gauss(0, 1.5)

    def pos(self):
        r = self.rng
        return r.choice([r.uniform(0.05, 3), 10 ** r.uniform(-3, 3), 1.0])

    def rv(self, n): return [self.real() for _ in range(n)]

    def close(self):
        for f in reversed(self.finals): f()
        for p in self.allocs: libc.free(p)
        self.allocs = []

    def obj(self, name, addr): return self.lib.types.struct(name).from_address(addr)


# ------------------------------------------------------------------ memory
class Mem:
    """reads contract paths from C memory"""
    def __init__(self, ctx, c):
        self.ctx = ctx; self.c = c; self.types = ctx.lib.types; self.prog = ctx.lib.prog
        self.ptypes = {n: (k, t) for n, k, t in c.params}
        self.split = {}

    def steps(self, path):
        r = self.split.get(path)
        if r is None:
            m = re.match(r'^([^.\[]+)(.*)$', path)
            r = (m.group(1), re.findall(r'\.[A-Za-z_0-9]+|\[\]', m.group(2)))
            self.split[path] = r
        return r

    def addr(self, path, idx):
        """-> (address, type) ; raises Undefined through a null pointer"""
        root, toks = self.steps(path)
        if root == 'G:' or path.startswith('G:'):
            return ct.addressof(ct.c_int.in_dll(self.ctx.lib.dll, path[2:])), None
        kind, ty = self.ptypes[root]
        a = self.ctx.args[root]            # value of the parameter (an address)
        isval = True                       # `a` is a pointer value of type ty (else the address of an object of type ty)
        it = iter(idx)
        for t in toks:
            if t == '[]':
                i = next(it)
                if not isval:
                    if ty.kind == 'ptr': a = ct.c_void_p.from_address(a).value
                if not a: raise Undefined('null ' + path)
                el = ty.to
                a = a + i * ct.sizeof(self.types.of(el)); ty = el; isval = False
            else:
                if isval: st = ty.to
                elif ty.kind == 'ptr':
                    a = ct.c_void_p.from_address(a).value; st = ty.to
                else: st = ty
                if not a: raise Undefined('null ' + path)
                S = self.types.struct(st.name)
                f = t[1:]
                ty = dict(self.prog.records[st.name])[f]
                a = a + getattr(S, f).offset; isval = False
        return a, ty, isval

    def ptr(self, path, idx=()):
        root, toks = self.steps(path)
        if not toks: return self.ctx.args[root]
        a, ty, isval = self.addr(path, idx)
        return ct.c_void_p.from_address(a).value

    def read(self, name, sort, idx):
        if name.startswith('nn:'): return bool(self.ptr(name[3:], idx))
        if name.startswith('nan:'):
            v = self.read(name[4:], 'R', idx)
            return v != v
        root, toks = self.steps(name)
        if not toks and root in self.ptypes: return self.ctx.args[root]
        if name.startswith('G:'): return ct.c_int.in_dll(self.ctx.lib.dll, name[2:]).value
        a, ty, isval = self.addr(name, idx)
        if ty.kind == 'real': return ct.c_double.from_address(a).value
        return self.types.of(ty).from_address(a).value

    # -------------------------------------------------------------- footprint
    def leaves(self, ev):
        """-> ({(path, idx): (value, sort)}, {(path, idx): pointer value})"""
        vals = {}; ptrs = {}
        for n, kind, ty in self.c.params:
            if kind == 'arr':
                self.region(n, n + '[]', (), self.ctx.args[n], ty.to, ev, vals, ptrs)
            elif kind == 'struct' and self.ctx.args[n]:
                self.obj(n, (), self.ctx.args[n], ty.to, ev, vals, ptrs)
        return vals, ptrs

    def region(self, ppath, path, idx, base, el, ev, vals, ptrs, n=None):
        if not base: return
        if n is None:
            f = self.c.ext.get(path)
            if f is None: return
            n = ev(lift(f(*[I(i) for i in idx])))
        sz = ct.sizeof(self.types.of(el))
        if el.kind == 'real':
            v = (ct.c_double * max(n, 0)).from_address(base)[:]
            for i in range(n): vals[(path, idx + (i,))] = (v[i], 'R')
        elif el.kind == 'int':
            v = (self.types.of(el) * max(n, 0)).from_address(base)[:]
            for i in range(n): vals[(path, idx + (i,))] = (v[i], 'I')
        elif el.kind == 'struct':
            for i in range(n): self.obj(path, idx + (i,), base + i * sz, el, ev, vals, ptrs)

    def obj(self, path, idx, a, ty, ev, vals, ptrs):
        S = self.types.struct(ty.name)
        for f, t in self.prog.records[ty.name]:
            fa = a + getattr(S, f).offset
            p = path + '.' + f
            if t.kind == 'int': vals[(p, idx)] = (self.types.of(t).from_address(fa).value, 'I')
            elif t.kind == 'real': vals[(p, idx)] = (ct.c_double.from_address(fa).value, 'R')
            elif t.kind == 'arr': self.region(p, p + '[]', idx, fa, t.to, ev, vals, ptrs, n=t.n)
            elif t.kind == 'struct': self.obj(p, idx, fa, t, ev, vals, ptrs)
            elif t.kind == 'ptr':
                v = ct.c_void_p.from_address(fa).value
                ptrs[(p, idx)] = v
                if p in self.c.alias: continue
                if not v: continue
                if t.to.kind in ('int', 'real') or (t.to.kind == 'struct' and t.to.name in ARRAY_STRUCTS):
                    self.region(p, p + '[]', idx, v, t.to, ev, vals, ptrs)
                elif t.to.kind == 'struct' and t.to.name in self.prog.records and self.c.walk(p):
                    self.obj(p, idx, v, t.to, ev, vals, ptrs)


def same(a, b):
    return a == b or (a != a and b != b)


class Failure(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, label); self.label = label; self.detail = detail


def show_state(vals, limit=400):
    out = {}
    for (p, i), (v, s) in vals.items():
        out.setdefault(p, []).append((i, v))
    r = []
    for p, l in out.items():
        r.append('%s = %s' % (p, l[0][1] if len(l) == 1 and not l[0][0] else [x for _, x in l]))
    return r[:limit]


def execute(c, ctx, call=None):
    """check one prepared sample; raises Reject / Indeterminate / Failure"""
    mem = Mem(ctx, c)
    pre = {}

    def live(name, sort, idx): return mem.read(name, sort, idx)
    ev0 = Ev(live)
    for label, t in c.requires_:
        try:
            ok = ev0(t)
        except Undefined as e:
            raise Reject('%s (%s)' % (label, e))
        if not ok: raise Reject(label)
    vals, ptrs = mem.leaves(ev0)
    nn = {}

    def rdpre(name, sort, idx):
        k = (name, idx)
        if k in vals: return vals[k][0]
        if name.startswith('nan:'):
            v = rdpre(name[4:], 'R', idx); return v != v
        if name.startswith('nn:'):
            if k not in nn: raise Undefined(name)
            return nn[k]
        root, toks = mem.steps(name)
        if not toks and root in mem.ptypes: return ctx.args[root]
        if name.startswith('G:'): return pre[name]
        raise Undefined('not in the footprint: %s%r' % (name, idx))
    # values that are not in the walked footprint but mentioned: globals, null tests
    names = set()
    allterms = [t for _, t in c.ensures_] + ([c.ret] if c.ret is not None else [])
    for pcs in c.sets.values():
        for pc in pcs: allterms += [pc.guard, pc.val] + list(pc.ranges) + list(pc.idx)
    for t in allterms: selnames(t, names)
    for nm, so in names:
        if nm.startswith('G:'): pre[nm] = mem.read(nm.rstrip("'"), so, ())
        if nm.startswith('nn:') and not nm.endswith("'"):
            try: nn[(nm, ())] = mem.read(nm, so, ())
            except Undefined: nn[(nm, ())] = False
    ev = Ev(rdpre)
    f = ctx.lib.bind(c)
    argv = [ctx.args[n] for n, k, t in c.params]
    ctx.inputs = show_state(vals) + ['%s = %r' % (n, ctx.args[n]) for n, k, t in c.params if k == 'scalar']
    # expected values (evaluated before the call: the contract is a function of the pre-state)
    want = {}
    indet = set()
    late = {}

    def isprimed(t):
        r = set(); selnames(t, r)
        return any(nm.endswith("'") for nm, so in r)
    for path, pcs in c.sets.items():
        for pc in pcs:
            for env in binders(ev, pc):
                idx = tuple(ev.ev(i, env) for i in pc.idx)
                try:
                    if not ev.ev(pc.guard, env): continue
                    if isprimed(pc.val):
                        late[(path, idx)] = (pc.val, dict(env)); want[(path, idx)] = None; continue
                    late.pop((path, idx), None)
                    v = ev.ev(pc.val, env)
                except Indeterminate:
                    indet.add((path, idx)); want[(path, idx)] = None; continue
                want[(path, idx)] = v if pc.val.sort == 'R' else (v, None)
                indet.discard((path, idx))
    wret = None
    if c.ret is not None:
        try: wret = ev(c.ret)
        except Indeterminate: wret = None
    if call is not None: ret = call(f, argv)
    else: ret = f(*argv)
    # ---- compare
    pvals, pptrs = mem.leaves_post(vals, ptrs) if hasattr(mem, 'leaves_post') else post(mem, c, vals, ptrs)
    def rdpost(name, sort, idx):
        if name == "ret'": return ret
        if name.endswith("'"):
            n0 = name[:-1]
            k = (n0, idx)
            if k in pvals: return pvals[k][0]
            return mem.read(n0, sort, idx)
        return rdpre(name, sort, idx)
    for k, (t, env) in late.items():
        try: v = Ev(rdpost).ev(t, env)
        except Indeterminate: indet.add(k); continue
        want[k] = v if t.sort == 'R' else (v, None)
    nchk = 0
    if wret is not None:
        nchk += 1
        if c.rty.kind == 'real':
            if not close((ret, abs(ret) if ret == ret else 0), wret if isinstance(wret, tuple) else (float(wret), abs(wret)), c.tol):
                raise Failure('return value', 'returned %r, specified %r' % (ret, wret[0]))
        else:
            if int(ret) != int(wret): raise Failure('return value', 'returned %r, specified %r' % (ret, wret))
    hv = c.havocs
    for (p, i), (v, s) in pvals.items():
        if p in c.skip_paths: continue
        if p.endswith('[]') and c.ptrsets.get(p[:-2], ('',))[0] == 'ptr': continue     # read through a redirected pointer
        k = (p, i)
        if k in want:
            w = want[k]
            if w is None: continue
            nchk += 1
            if s == 'R':
                if not isinstance(w[0], float): w = (float(w[0]), abs(float(w[0])))
                if not close((v, abs(v) if v == v else 0), w, c.tol):
                    raise Failure('final value of %s' % p, '%s%s is %r, specified %r' % (p, list(i) or '', v, w[0]))
            elif v != (int(w[0])):
                raise Failure('final value of %s' % p, '%s%s is %r, specified %r' % (p, list(i) or '', v, int(w[0])))
            continue
        if p in hv and any(tuple(covers(x, i, ev)) for x in hv[p]): continue
        if k in vals:
            nchk += 1
            if not same(v, vals[k][0]):
                raise Failure('%s is otherwise unchanged' % p if p in c.sets else '%s is unchanged' % p,
                              '%s%s changed from %r to %r' % (p, list(i) or '', vals[k][0], v))
    for (p, i), v in pptrs.items():
        spec = c.ptrsets.get(p)
        if spec is None:
            if p in c.havocptrs: continue
            if v != ptrs.get((p, i)): raise Failure('pointer %s is unchanged' % p, 'pointer field %s%s was redirected' % (p, list(i) or ''))
        elif spec[0] == 'null':
            if v: raise Failure('pointer %s is null' % p, '%s is not null' % p)
        else:
            if not ev(spec[4]):
                if v != ptrs.get((p, i)): raise Failure('pointer %s is unchanged otherwise' % p, 'pointer field %s%s was redirected' % (p, list(i) or ''))
                continue
            a = mem.addr(spec[1], tuple(ev(x) for x in spec[2]) + (ev(spec[3]),))[0]
            if v != a: raise Failure('pointer %s' % p, '%s does not point where specified' % p)

    ev2 = Ev(rdpost)
    for label, t in c.ensures_:
        try:
            r = ev2(t)
        except Indeterminate: continue
        nchk += 1
        if not r: raise Failure('ensures ' + label, 'the postcondition "%s" is false' % label)
    for label, chk in c.checks:
        r = chk(ctx, mem, vals, pvals, ret)
        nchk += 1
        if r: raise Failure('ensures ' + label, r)
    return nchk


def post(mem, c, vals, ptrs):
    """values of the same leaves after the call (through the pointers of the pre-state)"""
    pv = {}; pp = {}
    for (p, i), v in ptrs.items():
        try: pp[(p, i)] = mem.ptr(p, i)
        except Undefined: continue
    for (p, i), (v, s) in vals.items():
        try: pv[(p, i)] = (mem.read(p, s, i), s)
        except Undefined: continue
    return pv, pp


def covers(x, i, ev):
    """havoc entry x (leading indices) covers element i"""
    try:
        if all(ev(a) == b for a, b in zip(x, i)): yield True
    except (Undefined, Indeterminate): yield True


def binders(ev, pc):
    def rec(j, env):
        if j == len(pc.binders):
            yield env; return
        N = ev.ev(pc.ranges[j], env)
        for v in range(N):
            env[pc.binders[j].args[0]] = v
            yield from rec(j + 1, env)
    yield from rec(0, {})


# ------------------------------------------------------------------ argument generation
BUILDERS = {}       # struct name -> builder(ctx, contract, param) -> address


def builder(name):
    def deco(f): BUILDERS[name] = f; return f
    return deco


def prepare(c, ctx):
    """random arguments satisfying (most of) the preconditions"""
    if c.maker is not None:
        c.maker(ctx)
    ev = None
    order = [p for p in c.params if p[1] != 'arr'] + [p for p in c.params if p[1] == 'arr']
    for n, k, t in order:
        if n in ctx.args: continue
        h = c.hints_.get(n)
        if k == 'scalar':
            if h is not None: ctx.args[n] = h(ctx)
            elif t.kind == 'int': ctx.args[n] = ctx.rng.choice([-1, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7])
            else: ctx.args[n] = ctx.real()
        elif k == 'struct':
            b = BUILDERS.get(t.to.name)
            if b is None: raise Undefined('no generator for struct ' + t.to.name)
            ctx.args[n] = b(ctx, c, n)
        elif k == 'arr':
            if n in c.nullable and ctx.rng.random() < 0.2: ctx.args[n] = None; continue
            mem = Mem(ctx, c)
            N = Ev(mem.read)(lift(c.ext[n + '[]']()))
            if N < 0: raise Reject('negative extent')
            if N > 100000: raise Reject('extent')
            if h is not None:
                v = h(ctx, N)
            elif t.to.kind == 'real': v = ctx.rv(N)
            else: v = [ctx.rng.randint(0, 5) for _ in range(N)]
            ctx.args[n] = ctx.reals(v) if t.to.kind == 'real' else (ctx.ints(v) if t.to.name in ('long', 'long long') else narrow(ctx, v, t.to))
        else: raise Undefined('parameter kind')
    if c.tweak is not None: c.tweak(ctx)


def narrow(ctx, v, ty):
    T = ctx.lib.types.of(ty)
    a = ctx.malloc(ct.sizeof(T) * len(v))
    (T * len(v)).from_address(a)[:] = [int(x) for x in v]
    return a


def sample(c, lib, seed):
    """-> ('ok', n) | ('reject', why) | ('fail', label, detail, inputs)"""
    rng = random.Random(seed)
    ctx = Ctx(lib, rng)
    try:
        try:
            prepare(c, ctx)
            n = execute(c, ctx)
            return ('ok', n)
        except Reject as e: return ('reject', str(e))
        except Indeterminate as e: return ('indet', str(e))
        except Failure as e: return ('fail', e.label, e.detail, getattr(ctx, 'inputs', []))
    finally:
        ctx.close()
