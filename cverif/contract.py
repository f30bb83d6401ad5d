"""Contract language (sidecar specifications of the functions in /repo).

A contract is written once, in terms of the pre-state of the function's
parameters, and used three ways: the prover verifies the body against it, call
sites use it instead of the body, and the run-time evaluator checks it on
executions of the compiled code."""
from terms import *
import terms as tm
from mem import Unsupported
from cfront import parse_type, nodetype, CType

ARRAY_STRUCTS = {'socone', 'expcone', 'node'}


class ContractMismatch(Exception):
    pass


class Piece:
    """for binders in ranges, under guard: region[idx] := val"""
    __slots__ = ('binders', 'ranges', 'guard', 'idx', 'val')

    def __init__(self, binders, ranges, guard, idx, val):
        self.binders = binders; self.ranges = ranges; self.guard = guard; self.idx = tuple(idx); self.val = val


class Region:
    """pointer to scalars, or embedded array"""
    def __init__(self, c, path, idx, elem, prime=False):
        self.c = c; self.path = path; self.idx = tuple(idx); self.elem = elem; self.prime = prime

    @property
    def sort(self): return 'R' if self.elem.kind == 'real' else 'I'

    def __getitem__(self, i):
        ix = self.idx + (lift(i),)
        return sel(self.path + ("'" if self.prime else ''), self.sort, *ix)

    @property
    def ext(self):
        return self.c.ext[self.path](*self.idx)

    @property
    def null(self):
        return not_(self.nonnull)

    @property
    def nonnull(self):
        return self.c.nullable.get(self.path[:-2], TRUE)


class SArr:
    def __init__(self, c, path, idx, elem, prime=False):
        self.c = c; self.path = path; self.idx = tuple(idx); self.elem = elem; self.prime = prime

    def __getitem__(self, i):
        return SObj(self.c, self.path, self.idx + (lift(i),), self.elem, self.prime)

    @property
    def ext(self): return self.c.ext[self.path](*self.idx)


class SObj:
    def __init__(self, c, path, idx, ty, prime=False):
        d = self.__dict__
        d['c'] = c; d['path'] = path; d['idx'] = tuple(idx); d['ty'] = ty; d['prime'] = prime

    def field(self, f):
        rec = self.c.prog.records.get(self.ty.name)
        if rec is None: raise ContractMismatch('struct %s' % self.ty.name)
        for g, t in rec:
            if g == f: return t
        raise ContractMismatch('field %s of %s' % (f, self.ty.name))

    def __getattr__(self, f):
        t = self.field(f.rstrip('_') if f.endswith('_') else f)
        f = f.rstrip('_') if f.endswith('_') else f
        return self.c.obj(self.path + '.' + f, self.idx, t, self.prime)

    @property
    def nonnull(self): return self.c.nullable.get(self.path, TRUE)


class Contract:
    def __init__(self, name, prog, fn, modes):
        self.name = name; self.prog = prog; self.fn = fn
        self.params = []              # (name, kind, CType)
        self.requires_ = []
        self.sets = {}                # path -> list of Piece (scalars: one Piece with empty idx)
        self.havocs = {}              # path -> list of index prefixes (None = everything)
        self.ptrsets = {}             # path -> ('null',) | ('ptr', path, off)
        self.ret = None               # term / ('rel',)
        self.ensures_ = []
        self.ext = {}
        self.nullable = {}
        self.alias = {}               # pointer path -> (target region path)
        self.aliases = []             # allowed overlap pairs of array parameters
        self.gens = []
        self.lemmas = []
        self.props = []
        self.opaque = set()
        self.loopinvs = []
        self.namelemmas = []
        self.nan = False
        self.prove = True             # discharged by the prover (else bounded only)
        self.injs = {}                # region path -> size term
        self.perms = {}               # region path -> size term
        self.trusted = False
        self.skip_paths = set()
        self.tol = 1e-8
        self.budget = 20.0
        self.hints = []
        self.inline_callees = set()
        self.retsort = None
        self.ptypes = []
        self.calls_log = []
        self.hints_ = {}; self.maker = None; self.tweak = None; self.checks = []; self.havocptrs = set()
        self.nowalk = set(); self.samples = 300
        if fn is not None:
            ps = [c for c in fn['inner'] if c['kind'] == 'ParmVarDecl']
            self.ptypes = [parse_type(nodetype(p), fn['TU']) for p in ps]
            self.pnames = [p.get('name', '_%d' % i) for i, p in enumerate(ps)]
            rt = fn['type']['qualType'].split('(')[0]
            self.rty = parse_type(rt, fn['TU'])

    # ------------------------------------------------------------ parameters
    def _next(self, kind):
        j = len(self.params)
        if j >= len(self.ptypes): raise ContractMismatch('%s has %d parameters' % (self.name, len(self.ptypes)))
        return self.ptypes[j]

    def int(self, name):
        t = self._next('int')
        if t.kind != 'int': raise ContractMismatch('parameter %s' % name)
        self.params.append((name, 'scalar', t)); return sel(name, 'I')

    def real(self, name):
        t = self._next('real')
        if t.kind != 'real': raise ContractMismatch('parameter %s' % name)
        self.params.append((name, 'scalar', t)); return sel(name, 'R')

    def arr(self, name, n=None, nullable=False, null=None):
        t = self._next('arr')
        if t.kind != 'ptr' or t.to.kind not in ('int', 'real'): raise ContractMismatch('parameter %s' % name)
        self.params.append((name, 'arr', t))
        if nullable: self.nullable[name] = sel('nn:' + name, 'B')
        if n is not None:
            n = lift(n)
            self.ext[name + '[]'] = lambda *i, n=n: n
        return Region(self, name + '[]', (), t.to)

    def struct(self, name, nullable=False):
        t = self._next('struct')
        if t.kind != 'ptr' or t.to.kind != 'struct': raise ContractMismatch('parameter %s' % name)
        self.params.append((name, 'struct', t))
        if nullable: self.nullable[name] = sel('nn:' + name, 'B')
        return self.obj(name, (), t)

    def pparam(self, name):
        """pointer to pointer (output parameter)"""
        t = self._next('pp')
        self.params.append((name, 'pp', t))
        return name

    def globalvar(self, name, kind='int'):
        return sel('G:' + name, 'I' if kind == 'int' else 'R')

    def obj(self, path, idx, t, prime=False):
        q = "'" if prime else ''
        if t.kind == 'int': return sel(path + q, 'I', *idx)
        if t.kind == 'real': return sel(path + q, 'R', *idx)
        if t.kind == 'arr': return Region(self, path + '[]', idx, t.to, prime)
        if t.kind == 'struct': return SObj(self, path, idx, t, prime)
        if t.kind == 'ptr':
            if t.to.kind in ('int', 'real'): return Region(self, path + '[]', idx, t.to, prime)
            if t.to.kind == 'struct':
                if t.to.name in ARRAY_STRUCTS: return SArr(self, path + '[]', idx, t.to, prime)
                return SObj(self, path, idx, t.to, prime)
        raise ContractMismatch('%s of type %r' % (path, t))

    def prime(self, x):
        """the same object in the post-state"""
        if isinstance(x, (Region, SArr)):
            return type(x)(self, x.path, x.idx, x.elem, True)
        if isinstance(x, SObj): return SObj(self, x.path, x.idx, x.ty, True)
        assert x.op == 'sel'
        return sel(x.args[0] + "'", x.sort, *x.args[1:])

    def result(self):
        return sel("ret'", 'R' if self.rty.kind == 'real' else 'I')

    # ------------------------------------------------------------ footprint
    def extent(self, region, f):
        """f: term, or function of the leading indices"""
        if not callable(f):
            t = lift(f); f = lambda *i, t=t: t
        self.ext[region.path] = f
        return region

    def may_null(self, x, cond=None):
        p = x.path[:-2] if x.path.endswith('[]') else x.path
        self.nullable[p] = cond if cond is not None else sel('nn:' + p, 'B')
        return self.nullable[p]

    def same(self, x, target):
        """pointer field x always points to the start of region target"""
        p = x.path[:-2] if x.path.endswith('[]') else x.path
        self.alias[p] = target

    def injective(self, region, n):
        """the first n entries are pairwise different"""
        self.injs[region.path] = lift(n)

    def perm(self, region, n):
        self.perms[region.path] = lift(n)

    # ------------------------------------------------------------ clauses
    def requires(self, label, t): self.requires_.append((label, t))

    def set(self, target, val, guard=None):
        assert target.op == 'sel'
        val = lift(val, target.sort)
        if target.sort == 'R': val = toreal(val)
        self.sets.setdefault(target.args[0], []).append(Piece([], [], TRUE if guard is None else guard, target.args[1:], val))

    def setall(self, region, f, n=None, lo=0, guard=None):
        """region[i] := f(i) for lo <= i < n"""
        n = lift(n) if n is not None else region.ext
        lo = lift(lo)
        b = fresh('b', 'I')
        i = add(b, lo)
        v = lift(f(i), region.sort)
        if region.sort == 'R': v = toreal(v)
        g = TRUE if guard is None else (guard(i) if callable(guard) else guard)
        self.sets.setdefault(region.path, []).append(Piece([b], [sub(n, lo)], g, region.idx + (i,), v))

    def setmap(self, path, ranges, f):
        """nested writes: ranges = [N0, lambda b0: N1, ...]; f(*binders) -> (idx tuple, val[, guard])"""
        if not isinstance(path, str): path = path.path
        bs = []; rs = []
        for r in ranges:
            N = r(*bs) if callable(r) else lift(r)
            rs.append(N); bs.append(fresh('b', 'I'))
        out = f(*bs)
        idx, val = out[0], out[1]
        g = out[2] if len(out) > 2 else TRUE
        if not isinstance(idx, tuple): idx = (idx,)
        self.sets.setdefault(path, []).append(Piece(bs, rs, g, tuple(lift(i) for i in idx), val))

    def havoc(self, x, guard=None):
        if isinstance(x, (Region, SArr)):
            self.havocs.setdefault(x.path, []).append(x.idx)
        elif isinstance(x, T):
            self.havocs.setdefault(x.args[0], []).append(())
        elif isinstance(x, str): self.havocs.setdefault(x, []).append(())
        else: raise ContractMismatch('havoc')

    def setnull(self, x):
        p = x.path[:-2] if x.path.endswith('[]') else x.path
        self.ptrsets[p] = ('null',)

    def setptr(self, x, region, off=0, cond=TRUE):
        """pointer field x points to region afterwards (if cond holds; otherwise it is unchanged)"""
        p = x.path[:-2] if x.path.endswith('[]') else x.path
        self.ptrsets[p] = ('ptr', region.path, region.idx, lift(off), cond)

    def loopinv(self, regions, f):
        """invariant of loops that modify the regions and have no closed form; f(iterations done) -> [(label, term)],
        where c.prime(x) is the current state and plain x the state at entry of the function"""
        self.loopinvs.append(([r.path if not isinstance(r, T) else r.args[0] for r in regions], f))

    def namelemma(self, f):
        """facts tried (proved, or dropped) about every named value of a local or heap array of numbers: f(array) -> [term]"""
        self.namelemmas.append(f)

    def returns(self, t):
        self.ret = t

    def ensures(self, label, t): self.ensures_.append((label, t))

    # ------------------------------------------------------------ run-time evaluation
    def hint(self, name, f):
        """values used for a parameter in executions: list of choices or function of the sample"""
        self.hints_[name] = f if callable(f) else (lambda ctx, l=list(f): ctx.rng.choice(l))

    def make(self, f): self.maker = f

    def tweaks(self, f): self.tweak = f

    def check(self, label, f):
        """run-time only postcondition (not claimed as proved): f(ctx, mem, pre, post, ret) -> error text or None"""
        self.checks.append((label, f))

    bounded_ = ()

    def bounded(self, *pats):
        """obligations (name substrings) beyond the prover: decided by run-time evaluation only, never counted as proved"""
        self.bounded_ = tuple(self.bounded_) + pats

    def unproved(self, name): return any(p in name for p in self.bounded_)

    def walk(self, path): return path not in self.nowalk


REG = {}        # function name -> (builder, options)


def contract(name, **opt):
    def deco(f):
        REG[name] = (f, opt)
        return f
    return deco


class Contracts:
    """contracts bound to a program"""
    def __init__(self, prog):
        self.prog = prog; self.memo = {}; self.problems = {}

    def get(self, name):
        if name in self.memo: return self.memo[name]
        r = None
        if name in REG:
            f, opt = REG[name]
            fn = self.prog.func(name)
            if fn is not None:
                c = Contract(name, self.prog, fn, None)
                for k, v in opt.items(): setattr(c, k, v)
                try:
                    f(c)
                    if len(c.params) != len(c.ptypes): raise ContractMismatch('%s takes %d parameters' % (name, len(c.ptypes)))
                    r = c
                except ContractMismatch as e:
                    self.problems[name] = 'contract does not match the declaration: %s' % e
            else:
                self.problems[name] = 'function not found'
        self.memo[name] = r
        return r
