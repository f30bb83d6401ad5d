"""Symbolic execution of the C AST with loop invariants in closed form.

Every loop is handled by an invariant: the value of each modified location at
iteration k.  The invariant is inferred (or given by a contract), but never
trusted: initialisation, preservation, distinctness of write positions and the
exit condition are emitted as obligations."""
from terms import *
import terms as tm
import mem
from mem import *
DEBUGN = bool(__import__('os').environ.get('DEBUGN'))
from cfront import CType, parse_type, nodetype, line_of

ARRAY_STRUCTS = {'socone', 'expcone', 'node'}
NAN = var('NAN', 'R')
INF = var('INF', 'R')


DBLMAX = Fraction(1.7976931348623157e308)


class Ptr:
    __slots__ = ('path', 'idx', 'off', 'arr')

    def __init__(self, path, idx=(), off=None, arr=True):
        self.path = path; self.idx = tuple(idx); self.off = off if off is not None else ZI; self.arr = arr

    def __repr__(self): return '&%s%r+%r' % (self.path, list(self.idx), self.off)


NULL = Ptr(None)


class PIte:
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b

    def __repr__(self): return 'PIte(%r,%r,%r)' % (self.c, self.a, self.b)


def pite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if psame(a, b): return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.path is not None and a.path == b.path and len(a.idx) == len(b.idx):
        return Ptr(a.path, [ite(c, x, y) for x, y in zip(a.idx, b.idx)], ite(c, a.off, b.off), a.arr)
    return PIte(c, a, b)


def psame(a, b):
    if a is b: return True
    if isinstance(a, PIte) and isinstance(b, PIte):
        return a.c is b.c and psame(a.a, b.a) and psame(a.b, b.b)
    if isinstance(a, PIte) or isinstance(b, PIte): return False
    return a.path == b.path and a.off is b.off and len(a.idx) == len(b.idx) and all(x is y for x, y in zip(a.idx, b.idx))


class Loc:
    __slots__ = ('path', 'idx', 'ty')

    def __init__(self, path, idx, ty): self.path = path; self.idx = tuple(idx); self.ty = ty

    def __repr__(self): return '%s%r' % (self.path, list(self.idx))


class FuncRef:
    def __init__(self, name): self.name = name


class StrLit:
    pass


def sort_of(ty):
    if ty.kind == 'real': return 'R'
    if ty.kind == 'int': return 'I'
    return None


class State:
    __slots__ = ('mem', 'ptrs', 'pc', 'ret')

    def __init__(self): self.mem = {}; self.ptrs = {}; self.pc = (); self.ret = None

    def copy(self):
        s = State(); s.mem = dict(self.mem); s.ptrs = dict(self.ptrs); s.pc = self.pc; s.ret = self.ret
        return s

    def cond(self): return and_(*self.pc)

    def assume(self, c):
        if c is not TRUE: self.pc = self.pc + (c,)


class Outs:
    """outcomes of a statement: fall-through plus break/continue/return states"""
    __slots__ = ('fall', 'brk', 'cont', 'ret')

    def __init__(self, fall=None): self.fall = fall; self.brk = []; self.cont = []; self.ret = []


class Frame:
    def __init__(self, name, path): self.name = name; self.vars = {}; self.path = path; self.goto = None


class Engine:
    def __init__(self, prog, contracts, fname, cfg=None):
        self.prog = prog; self.contracts = contracts; self.fname = fname
        self.facts = []              # assumed facts (guarded)
        self.obls = []
        self.quiet = 0
        self.loopidx = []            # enclosing loop index variables
        self.ranges = []             # their range facts
        self.frames = []
        self.extents = {}            # region path -> function(idx tuple) -> length term
        self.nullable = {}           # pointer path -> bool term "is non-null"
        self.alias = {}              # pointer path -> Ptr
        self.opaque = set()
        self.modcache = {}
        self.writes = None
        self.init = {}
        self.loopno = {}
        self.used = set()            # callees used through contracts
        self.inlined = set()
        self.externs = set()
        self.nanmode = False
        self.line = None
        self.invs = {}               # user invariants
        self.specloops = set()
        self.modstack = []
        self.cfg = cfg or {}
        self.types = {}
        self.closedrun = 0
        self.callstack = []
        self.ptrdefaults = {}
        self.noContract = set()
        self.initzero = set()
        self.calls = []
        self.userinv = {}
        self.entcache = {}

    def entails(self, st, g, extra=()):
        if g.op == 'const': return g is TRUE
        hyps = list(self.facts) + list(st.pc) + list(self.ranges)
        key = (g, tuple(hyps))
        r = self.entcache.get(key)
        if r is None:
            import smt
            try: r = smt.quick(hyps, g)
            except NotImplementedError: r = False
            self.entcache[key] = r
        return r

    def hasloopinv(self):
        c = self.contracts.get(self.fname) if self.contracts else None
        return bool(getattr(c, 'loopinvs', None))

    specloops = frozenset()

    def toplevel(self):
        """every active loop has an invariant of the contract"""
        return all(any(('@' + i) in k.args[0] for i in self.specloops) for k in self.loopidx)

    def naming(self):
        c = self.contracts.get(self.fname) if self.contracts else None
        return getattr(c, 'naming', False)

    def name_array(self, st, p, node):
        """give the current value of array p a name of its own (keeps terms small)"""
        v = st.mem[p]
        if isinstance(v, Base): return
        which = self.naming()
        if which is not True and p not in which: return
        b = Base(self.skname('nm:' + p, node), v.sort, v.nd, tuple(self.loopidx))
        es = tuple(fresh('e', 'I') for _ in range(v.nd))
        import smt
        d = forall_tmp(list(es), eq(b.read(es), v.read(es)))
        self.facts.append(d)
        smt.DEFS[d] = b.name
        st.mem[p] = b
        if self.quiet or v.sort != 'R': return
        c = self.contracts.get(self.fname)
        if v.nd == 1:
            class Arr1:
                n = self.extents[p](()) if p in self.extents else None
                def __getitem__(_, i): return b.read((i,))
            for f in getattr(c, 'namelemmas', ()):
                for g in f(Arr1()):
                    ls = smt.levels(list(self.facts) + list(st.pc), g)
                    try: r = smt.prove_(ls[min(1, len(ls) - 1)], g, 2.0, light=True)
                    except Exception: continue
                    if DEBUGN: print('lemma', p, line_of(node), r.status, '%.1f' % r.time, len(ls[min(1, len(ls) - 1)]), flush=True)
                    if r.status == 'unsat': self.fact(g, st)
        if p not in self.extents or not p.startswith('H:'): return
        # sign of the entries
        e = es[:-1] + (fresh('w', 'I'),)
        rng = [le(ZI, e[-1]), lt(e[-1], self.extents[p](e[:-1]))]
        for goal in (lambda x: le(ZR, x),):
            ls = smt.levels(list(self.facts) + list(st.pc) + rng, goal(b.read(e)))
            try: r = smt.prove_(ls[min(1, len(ls) - 1)], goal(b.read(e)), 3.0)
            except Exception: continue
            if DEBUGN: print('sign', p, line_of(node), r.status, '%.1f' % r.time, len(self.facts), flush=True)
            if r.status == 'unsat':
                z = tuple(fresh('e', 'I') for _ in range(v.nd))
                m = {x.args[0]: y for x, y in zip(e, z)}
                self.fact(forall_tmp(list(z), implies(subst(and_(*rng), m), goal(b.read(z)))), st)

    def user_invariant(self, L):
        """invariants of the contract about locations that loop L modifies"""
        c = self.contracts.get(self.fname) if self.contracts else None
        M = self.modcache.get(L.n['id'], ())
        if self.loopidx: return []
        return [(ps, f) for ps, f in getattr(c, 'loopinvs', []) if any(p in M for p in ps)]

    # ---------------------------------------------------------------- obligations
    def oblige(self, kind, goal, st, extra=(), line=None):
        if self.quiet: return
        if goal is TRUE:
            self.obls.append((kind, None, goal, line or self.line)); return
        hyps = list(self.facts) + list(st.pc if st is not None else ()) + list(extra)
        self.obls.append((kind, hyps, goal, line or self.line))

    def fact(self, f, st=None):
        if st is not None and st.pc: f = implies(st.cond(), f)
        if f is not TRUE: self.facts.append(f)

    def skname(self, kind, node):
        return '%s@%s%s' % (kind, node.get('id', '?') if isinstance(node, dict) else node, ''.join('/' + c for c in self.callstack))

    def skolem(self, kind, node, sort='I'):
        return sel(self.skname(kind, node), sort, *self.loopidx)

    # ---------------------------------------------------------------- memory
    def read_arr(self, st, path, sort, nd):
        a = st.mem.get(path)
        if a is None:
            a = self.init.get(path)
            if a is None:
                a = Base(path, sort, nd) if nd else sel(path, sort)
                self.init[path] = a
                self.types[path] = (sort, nd)
            if nd and not isinstance(a, Arr): raise Unsupported('shape of ' + path)
        return a

    def load(self, st, loc):
        if isinstance(loc, list):
            r = None
            for c, l in reversed(loc):
                v = self.load(st, l)
                if r is None: r = v
                elif isinstance(v, (Ptr, PIte)): r = pite(c, v, r)
                else: r = ite(c, v, r)
            return r
        ty = loc.ty
        if ty.kind in ('ptr',):
            return self.load_ptr(st, loc)
        if ty.kind == 'func':
            return FuncRef('?')
        if ty.kind == 'arr':
            return Ptr(loc.path + '[]', loc.idx, ZI)
        if ty.kind in ('struct', 'opaque'):
            return loc
        s = sort_of(ty)
        if s is None: raise Unsupported('load of type %r' % ty)
        a = self.read_arr(st, loc.path, s, len(loc.idx))
        if not loc.idx: return a
        return a.read(loc.idx)

    def store(self, st, loc, val):
        if isinstance(loc, list):
            for c, l in loc:
                old = self.load(st, l)
                self.store(st, l, pite(c, val, old) if isinstance(val, (Ptr, PIte)) else ite(c, val, old))
            return
        ty = loc.ty
        if ty.kind == 'ptr':
            self.note_write('*' + loc.path)
            if loc.idx:
                a = st.ptrs.get(loc.path)
                st.ptrs[loc.path] = ('store', loc.idx, val, a)
            else:
                if loc.path not in self.ptrdefaults and not loc.path.startswith('L:') and loc.ty is not None and loc.ty.kind == 'ptr':
                    try: self.ptrdefaults[loc.path] = self.load_ptr(State(), loc)
                    except Exception: pass
                st.ptrs[loc.path] = val
            return
        if ty.kind in ('struct', 'opaque'):
            return self.copy_struct(st, loc, val)
        s = sort_of(ty)
        if s is None: raise Unsupported('store of type %r' % ty)
        val = self.coerce(val, ty)
        self.note_write(loc.path)
        if not loc.idx:
            st.mem[loc.path] = val
            self.types.setdefault(loc.path, (s, 0))
        else:
            a = self.read_arr(st, loc.path, s, len(loc.idx))
            st.mem[loc.path] = Store(a, loc.idx, val)

    def copy_struct(self, st, dst, src):
        rec = self.prog.records.get(dst.ty.name)
        if rec is None:
            self.note_write(dst.path)
            st.mem[dst.path] = self.skolem('tok', dst.path, 'I')
            return
        for f, t in rec:
            d = Loc(dst.path + '.' + f, dst.idx, t); s = Loc(src.path + '.' + f, src.idx, t)
            if t.kind == 'arr': raise Unsupported('struct copy with array')
            self.store(st, d, self.load(st, s))

    def note_write(self, path):
        if self.writes is not None: self.writes.add(path)

    def coerce(self, v, ty):
        s = sort_of(ty)
        if isinstance(v, (Ptr, PIte)):
            return v
        if s == 'R': return toreal(v)
        if s == 'I':
            if v.sort == 'B': return b2i(v)
            if v.sort == 'R': return self.trunc(v)
        return v

    def trunc(self, v):
        if v.op == 'const':
            return I(int(v.args[0]))
        return app('trunc', 'I', v)

    # ---------------------------------------------------------------- pointers
    def defptr(self, path, idx, to):
        if to.kind == 'struct' and to.name not in ARRAY_STRUCTS:
            return Ptr(path, idx, ZI, arr=False)
        return Ptr(path + '[]', idx, ZI)

    def load_ptr(self, st, loc):
        p = st.ptrs.get(loc.path)
        if p is not None:
            if isinstance(p, tuple): raise Unsupported('array of pointers ' + loc.path)
            return p
        if loc.path in self.alias: return self.alias[loc.path]
        d = self.defptr(loc.path, loc.idx, loc.ty.to)
        nn = self.nullable.get(loc.path)
        if nn is not None:
            return PIte(nn, d, NULL)
        return d

    def nonnull(self, p):
        if isinstance(p, PIte): return ite(p.c, self.nonnull(p.a), self.nonnull(p.b))
        return FALSE if p.path is None else TRUE

    def padd(self, p, n):
        if isinstance(p, PIte): return pite(p.c, self.padd(p.a, n), self.padd(p.b, n))
        if p.path is None: return p
        return Ptr(p.path, p.idx, add(p.off, n), p.arr)

    def deref(self, st, p, ty, n=None, what='access'):
        """location of *(p+n)"""
        if isinstance(p, PIte):
            out = []
            for c, q in ((p.c, p.a), (not_(p.c), p.b)):
                l = self.deref(st.copy_with(c) if hasattr(st, 'copy_with') else self._with(st, c), q, ty, n, what)
                if isinstance(l, list): out += [(and_(c, c2), x) for c2, x in l]
                elif l is not None: out.append((c, l))
            out = [x for x in out if x[1] is not None]
            if len(out) == 1: return out[0][1]
            if not out: raise Unsupported('dereference of null')
            return out
        if p.path is None:
            self.oblige('no null dereference', not_(st.cond()) if False else FALSE, st)
            return None
        off = p.off if n is None else add(p.off, n)
        if p.path.endswith('[]'):
            self.bounds(st, p.path, p.idx, off)
            return Loc(p.path, p.idx + (off,), ty)
        if off is not ZI:
            self.oblige('single object access in bounds', eq(off, ZI), st)
        return Loc(p.path, p.idx, ty)

    def _with(self, st, c):
        s = State(); s.mem = st.mem; s.ptrs = st.ptrs; s.pc = st.pc + (c,); s.ret = st.ret
        return s

    def bounds(self, st, path, idx, off):
        if self.quiet: return
        e = self.extents.get(path)
        if e is None:
            self.oblige('access within declared footprint: ' + path, FALSE, st)
            return
        n = e(idx)
        self.oblige('bounds of ' + path, and_(le(ZI, off), lt(off, n)), st)

    # ---------------------------------------------------------------- expressions
    def ty(self, n):
        fr = self.frames[-1]
        t = n.get('_ct')
        if t is None:
            t = n['_ct'] = parse_type(nodetype(n), fr.tu)
        return t

    def kids(self, n): return [c for c in n.get('inner', ()) if c.get('kind') and not c['kind'].endswith('Comment')]

    def ev(self, n, st):
        """rvalue"""
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s line %s' % (k, line_of(n)))
        return m(n, st)

    def e_ParenExpr(self, n, st): return self.ev(self.kids(n)[0], st)
    def e_ConstantExpr(self, n, st): return self.ev(self.kids(n)[0], st)
    def e_IntegerLiteral(self, n, st): return I(int(n['value']))
    def e_CharacterLiteral(self, n, st): return I(int(n['value']))

    def e_FloatingLiteral(self, n, st):
        v = n['value']
        src = self.literal_source(n)
        return R(Fraction(src)) if src is not None else R(Fraction(v))

    def literal_source(self, n):
        # clang prints a rounded decimal; take the exact double of the printed value with enough digits
        v = n['value']
        try:
            return Fraction(float(v))
        except Exception:
            return None

    def e_StringLiteral(self, n, st): return StrLit()
    def e_PredefinedExpr(self, n, st): return StrLit()

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        t = n.get('argType')
        ty = parse_type(t['qualType'], self.frames[-1].tu) if t else self.ty(self.kids(n)[0])
        return self.sizeof(ty)

    def sizeof(self, ty):
        return app('sizeof:%r' % ty, 'I')

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind'); c = self.kids(n)[0]
        if ck == 'LValueToRValue':
            return self.load(st, self.lv(c, st))
        if ck in ('NoOp', 'BitCast', 'ConstCast'):
            return self.ev(c, st)
        if ck == 'ArrayToPointerDecay':
            if c['kind'] in ('StringLiteral', 'PredefinedExpr'): return StrLit()
            return self.load(st, self.lv(c, st))
        if ck == 'FunctionToPointerDecay':
            return FuncRef(c.get('referencedDecl', {}).get('name', '?'))
        if ck == 'BuiltinFnToFnPtr':
            return FuncRef(c.get('referencedDecl', {}).get('name', '?'))
        if ck in ('NullToPointer',): return NULL
        if ck == 'IntegralToPointer':
            v = self.ev(c, st)
            if v is ZI: return NULL
            raise Unsupported('int to pointer')
        v = self.ev(c, st)
        if ck == 'IntegralCast':
            return v
        if ck == 'IntegralToFloating': return toreal(v if v.sort != 'B' else b2i(v))
        if ck == 'FloatingToIntegral': return self.trunc(v)
        if ck == 'FloatingCast': return v
        if ck in ('PointerToBoolean',): return self.nonnull(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'): return self.truth(v)
        if ck == 'ToVoid': return v
        raise Unsupported('cast ' + str(ck))

    e_CStyleCastExpr = e_ImplicitCastExpr

    def e_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return I(self.frames[-1].tu.enums[d['name']])
        if d['kind'] == 'FunctionDecl': return FuncRef(d['name'])
        return self.load(st, self.lv(n, st))

    def lv(self, n, st):
        k = n['kind']
        if k == 'ParenExpr': return self.lv(self.kids(n)[0], st)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            fr = self.frames[-1]
            p = fr.vars.get(d['id'])
            if p is None:
                # global variable
                ty = self.ty(n)
                return Loc('G:' + d['name'], (), ty)
            return Loc(p, (), self.ty(n))
        if k == 'ArraySubscriptExpr':
            a, b = self.kids(n)
            base = self.ev(a, st); i = self.ev(b, st)
            if not isinstance(base, (Ptr, PIte)): base, i = i, base
            if i.sort == 'B': i = b2i(i)
            self.line = line_of(n) or self.line
            return self.deref(st, base, self.ty(n), i)
        if k == 'MemberExpr':
            c = self.kids(n)[0]
            if n.get('isArrow'):
                p = self.ev(c, st)
                l = self.deref(st, p, self.ty(c).to)
            else:
                l = self.lv(c, st)
            f = '.' + n['name']
            ty = self.ty(n)
            if isinstance(l, list): return [(g, Loc(x.path + f, x.idx, ty)) for g, x in l]
            if l is None: raise Unsupported('dereference of null pointer, line %s' % line_of(n))
            return Loc(l.path + f, l.idx, ty)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ev(self.kids(n)[0], st)
            self.line = line_of(n) or self.line
            return self.deref(st, p, self.ty(n))
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'BitCast'):
            return self.lv(self.kids(n)[0], st)
        if k == 'CompoundLiteralExpr' or k == 'StmtExpr':
            raise Unsupported(k)
        raise Unsupported('lvalue ' + k)

    def e_ArraySubscriptExpr(self, n, st): return self.load(st, self.lv(n, st))
    def e_MemberExpr(self, n, st): return self.load(st, self.lv(n, st))

    def addr(self, l):
        if isinstance(l, list):
            r = None
            for c, x in reversed(l):
                p = self.addr(x)
                r = p if r is None else pite(c, p, r)
            return r
        if l.path.endswith('[]') and l.idx:
            return Ptr(l.path, l.idx[:-1], l.idx[-1])
        return Ptr(l.path, l.idx, ZI, arr=False)

    def truth(self, v):
        if isinstance(v, (Ptr, PIte)): return self.nonnull(v)
        if isinstance(v, (FuncRef, StrLit)): return TRUE
        if v.sort == 'B': return v
        if v.sort == 'R' and self.nanmode:
            return or_(self.isnan(v), ne0(v))
        return ne0(v)

    def e_UnaryOperator(self, n, st):
        op = n['opcode']; c = self.kids(n)[0]
        if op == '&':
            if c['kind'] == 'ArraySubscriptExpr':
                a, b = self.kids(c)
                base = self.ev(a, st); i = self.ev(b, st)
                return self.padd(base, i)
            return self.addr(self.lv(c, st))
        if op == '*': return self.load(st, self.lv(n, st))
        if op in ('++', '--'):
            l = self.lv(c, st)
            v = self.load(st, l)
            d = OI if op == '++' else I(-1)
            if isinstance(v, (Ptr, PIte)): nv = self.padd(v, d)
            else: nv = add(v, d if v.sort == 'I' else toreal(d))
            self.store(st, l, nv)
            return v if n.get('isPostfix') else nv
        v = self.ev(c, st)
        if op == '!': return not_(self.truth(v))
        if op == '-': return neg(v)
        if op == '+': return v
        if op == '~':
            return app('bitnot', 'I', v)
        if op == '__extension__': return v
        raise Unsupported('unary ' + op)

    def has_effect(self, n):
        k = n.get('kind')
        if k in ('CallExpr',): return True
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): return True
        if k in ('CompoundAssignOperator',): return True
        if k == 'BinaryOperator' and n.get('opcode') == '=': return True
        return any(self.has_effect(c) for c in n.get('inner', ()))

    def e_BinaryOperator(self, n, st):
        op = n['opcode']; a, b = self.kids(n)
        if op == ',':
            self.ev(a, st); return self.ev(b, st)
        if op == '=':
            l = self.lv(a, st)
            v = self.ev(b, st)
            # (evaluate the value after the target only matters for side effects inside indices)
            self.store(st, l, v)
            return self.coerce(v, self.ty(a)) if not isinstance(v, (Ptr, PIte, Loc, FuncRef)) else v
        if op in ('&&', '||'):
            x = self.truth(self.ev(a, st))
            c = x if op == '&&' else not_(x)
            if c is FALSE: return x
            s2 = self._branch(st, c)
            y = self.truth(self.ev(b, s2))
            if self.has_effect(b):
                s1 = self._branch(st, not_(c))
                self._join(st, c, s2, s1)
            return and_(x, y) if op == '&&' else or_(x, y)
        x = self.ev(a, st); y = self.ev(b, st)
        return self.binop(op, x, y, st, n)

    def _branch(self, st, c):
        s = st.copy(); s.assume(c); return s

    def _join(self, st, c, s1, s2):
        m = self.merge_states(c, s1, s2)
        st.mem = m.mem; st.ptrs = m.ptrs

    def binop(self, op, x, y, st, n):
        px = isinstance(x, (Ptr, PIte)); py = isinstance(y, (Ptr, PIte))
        if px or py:
            return self.ptrop(op, x, y, st)
        if isinstance(x, (FuncRef, StrLit)) or isinstance(y, (FuncRef, StrLit)):
            return self.skolem('funcmp', n, 'B')
        fl = x.sort == 'R' or y.sort == 'R'
        if fl and op in '+-':
            if x.op == 'const' and y.op == 'const' and abs(x.args[0] + (y.args[0] if op == '+' else -y.args[0])) > DBLMAX:
                return INF if x.args[0] > 0 else neg(INF)
            if op == '-' and x is INF and y is INF: return NAN
        if op == '+': return add(x, y)
        if op == '-': return sub(x, y)
        if op == '*': return mul(x, y)
        if op == '/':
            if fl: return div(x, y)
            return self.idiv(x, y)
        if op == '%':
            q = self.idiv(x, y)
            return sub(x, mul(y, q))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            r = {'<': lambda: lt(x, y), '>': lambda: lt(y, x), '<=': lambda: le(x, y), '>=': lambda: le(y, x),
                 '==': lambda: eq(x, y), '!=': lambda: not_(eq(x, y))}[op]
            if fl and self.nanmode:
                return self.nancmp(op, toreal(x), toreal(y))
            if fl and (NAN.args[0] in x.fv or NAN.args[0] in y.fv):
                return self.nancmp(op, toreal(x), toreal(y))
            return r()
        if op == '&':
            return self.bitand(x, y)
        if op == '|':
            return self.bitor(x, y)
        if op in ('<<', '>>', '^'):
            return app('bit' + op, 'I', x, y)
        raise Unsupported('binary ' + op)

    def bitand(self, x, y):
        if x.sort == 'B' and y.sort == 'B': return and_(x, y)
        for a, b in ((x, y), (y, x)):
            c = b if b.sort == 'B' else (b.args[0] if isind(b) and b.args[1].args[0] == 1 else
                                         (not_(b.args[0]) if isind(b) else None))
            if c is not None:
                if a.sort == 'B': return and_(a, c)
                if a.op == 'const': return ite(c, I(int(a.args[0]) & 1), ZI)
                return ite(c, ite(eq(a, ZI), ZI, ite(eq(a, OI), OI, app('and1', 'I', a))), ZI)
        if x.op == 'const' and y.op == 'const': return I(int(x.args[0]) & int(y.args[0]))
        return app('bitand', 'I', x if x.sort == 'I' else b2i(x), y if y.sort == 'I' else b2i(y))

    def bitor(self, x, y):
        if x.sort == 'B' and y.sort == 'B': return or_(x, y)
        if x.op == 'const' and y.op == 'const': return I(int(x.args[0]) | int(y.args[0]))
        return app('bitor', 'I', x if x.sort == 'I' else b2i(x), y if y.sort == 'I' else b2i(y))

    def idiv(self, x, y):
        if x.op == 'const' and y.op == 'const' and y.args[0] != 0:
            q = abs(int(x.args[0])) // abs(int(y.args[0]))
            return I(q if (x.args[0] < 0) == (y.args[0] < 0) else -q)
        if y.op == 'const' and y.args[0] > 0:
            return ite(le(ZI, x), app('idiv', 'I', x, y), neg(app('idiv', 'I', neg(x), y)))
        return app('cdiv', 'I', x, y)

    def nancmp(self, op, x, y):
        # distribute over ite so that NAN constants are decided
        if x.op == 'ite' and (NAN.args[0] in x.fv):
            return ite(x.args[0], self.nancmp(op, x.args[1], y), self.nancmp(op, x.args[2], y))
        if y.op == 'ite' and (NAN.args[0] in y.fv):
            return ite(y.args[0], self.nancmp(op, x, y.args[1]), self.nancmp(op, x, y.args[2]))
        r = {'<': lambda: lt(x, y), '>': lambda: lt(y, x), '<=': lambda: le(x, y), '>=': lambda: le(y, x),
             '==': lambda: eq(x, y), '!=': lambda: not_(eq(x, y))}[op]()
        nn = or_(self.isnan(x), self.isnan(y))
        if op == '!=': return or_(nn, r)
        return and_(not_(nn), r)

    def isnan(self, x):
        if not self.nanmode and NAN.args[0] not in x.fv: return FALSE
        return isnan(x, self.nanmode)

    def ptrop(self, op, x, y, st):
        px = isinstance(x, (Ptr, PIte)); py = isinstance(y, (Ptr, PIte))
        if op == '+':
            return self.padd(x, y) if px else self.padd(y, x)
        if op == '-':
            if px and not py: return self.padd(x, neg(y))
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.path == y.path and x.idx == y.idx:
                return sub(x.off, y.off)
            return app('ptrdiff:%s:%s' % (x, y), 'I')
        if not px or not py:
            # comparison with integer 0
            p = x if px else y; v = y if px else x
            if v is ZI:
                return not_(self.nonnull(p)) if op == '==' else self.nonnull(p)
            raise Unsupported('pointer/integer comparison')
        if isinstance(x, PIte): return ite(x.c, self.ptrop(op, x.a, y, st), self.ptrop(op, x.b, y, st))
        if isinstance(y, PIte): return ite(y.c, self.ptrop(op, x, y.a, st), self.ptrop(op, x, y.b, st))
        if op in ('==', '!='):
            if x.path is None or y.path is None: r = TRUE if x.path is y.path else FALSE
            elif x.path != y.path or len(x.idx) != len(y.idx): r = FALSE
            else: r = and_(eq(x.off, y.off), *[eq(a, b) for a, b in zip(x.idx, y.idx)])
            return r if op == '==' else not_(r)
        if x.path == y.path:
            return self.binop(op, x.off, y.off, st, None)
        # relative order of different objects: unknown but fixed
        ax = add(app('addr:%s' % x.path, 'I', *x.idx), x.off); ay = add(app('addr:%s' % y.path, 'I', *y.idx), y.off)
        return self.binop(op, ax, ay, st, None)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]; a, b = self.kids(n)
        l = self.lv(a, st)
        y = self.ev(b, st)
        x = self.load(st, l)
        v = self.binop(op, x, y, st, n)
        self.store(st, l, v)
        return v

    def e_ConditionalOperator(self, n, st):
        c, a, b = self.kids(n)
        x = self.truth(self.ev(c, st))
        s1 = self._branch(st, x); s2 = self._branch(st, not_(x))
        u = self.ev(a, s1); v = self.ev(b, s2)
        if self.has_effect(a) or self.has_effect(b): self._join(st, x, s1, s2)
        if isinstance(u, (Ptr, PIte)) or isinstance(v, (Ptr, PIte)):
            if not isinstance(u, (Ptr, PIte)): u = NULL
            if not isinstance(v, (Ptr, PIte)): v = NULL
            return pite(x, u, v)
        if isinstance(u, StrLit): return u
        return ite(x, u, v)

    def e_CallExpr(self, n, st):
        from calls import do_call
        return do_call(self, n, st)

    def e_InitListExpr(self, n, st): raise Unsupported('initialiser list')

    # ---------------------------------------------------------------- merging
    def merge_states(self, c, s1, s2):
        """c ? s1 : s2 (c relative to the common prefix)"""
        r = State()
        i = 0
        while i < len(s1.pc) and i < len(s2.pc) and s1.pc[i] is s2.pc[i]: i += 1
        r1 = and_(*s1.pc[i:]); r2 = and_(*s2.pc[i:])
        r.pc = s1.pc[:i]
        j = or_(r1, r2)
        if j is not TRUE: r.pc = r.pc + (j,)
        if s1.mem is s2.mem: r.mem = s1.mem
        else:
            for k in set(s1.mem) | set(s2.mem):
                a = s1.mem.get(k); b = s2.mem.get(k)
                if a is b: r.mem[k] = a; continue
                if a is None: a = self.initval(k, b)
                if b is None: b = self.initval(k, a)
                if a is None or b is None: continue
                if isinstance(a, Arr): r.mem[k] = IteA(c, a, b)
                else: r.mem[k] = ite(c, a, b)
        for k in set(s1.ptrs) | set(s2.ptrs):
            a = s1.ptrs.get(k); b = s2.ptrs.get(k)
            if a is b: r.ptrs[k] = a; continue
            if a is None: a = self.initptr(k)
            if b is None: b = self.initptr(k)
            if a is None or b is None:
                if k.startswith(('L:', 'H:')): continue
                raise Unsupported('value of pointer %s after a branch' % k)
            r.ptrs[k] = pite(c, a, b)
        if s1.ret is not None or s2.ret is not None:
            a, b = s1.ret, s2.ret
            if a is b: r.ret = a
            elif isinstance(a, (Ptr, PIte)): r.ret = pite(c, a, b)
            elif a is None or b is None: r.ret = a or b
            else: r.ret = ite(c, a, b)
        return r

    def initval(self, k, other):
        if k in self.init: return self.init[k]
        if k.startswith('L:'):
            # uninitialised local: arbitrary value
            if isinstance(other, Arr): return Base('undef:' + k, other.sort, other.nd)
            return sel('undef:' + k, other.sort)
        if isinstance(other, Arr): v = Base(k, other.sort, other.nd)
        else: v = sel(k, other.sort)
        self.init[k] = v
        self.types.setdefault(k, (other.sort, other.nd if isinstance(other, Arr) else 0))
        return v

    def initptr(self, k):
        if k.startswith('L:'): return None
        return self.alias.get(k) or self.ptrdefaults.get(k)

    def merge_list(self, sts):
        """merge alternative states (pairwise disjoint path conditions)"""
        r = sts[0]
        for s in sts[1:]:
            i = 0
            while i < len(s.pc) and i < len(r.pc) and s.pc[i] is r.pc[i]: i += 1
            c = and_(*r.pc[i:])
            r = self.merge_states(c, r, s)
        return r

    # ---------------------------------------------------------------- statements
    def run(self, n, st):
        k = n['kind']
        l = line_of(n)
        if l: self.line = l
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.ev(n, st)
            return Outs(st)
        return m(n, st)

    def s_CompoundStmt(self, n, st):
        o = Outs(st)
        for c in self.kids(n):
            if o.fall is None: break
            r = self.run(c, o.fall)
            o.fall = r.fall; o.brk += r.brk; o.cont += r.cont; o.ret += r.ret
        return o

    def s_NullStmt(self, n, st): return Outs(st)

    def s_DeclStmt(self, n, st):
        for d in self.kids(n):
            if d['kind'] != 'VarDecl': continue
            fr = self.frames[-1]
            path = 'L:%s:%s%s' % (d['name'], d['id'], fr.path)
            fr.vars[d['id']] = path
            ty = parse_type(nodetype(d), fr.tu)
            st.mem.pop(path, None); st.ptrs.pop(path, None)
            if d.get('storageClass') == 'static':
                fr.vars[d['id']] = 'G:static:' + d['name']; continue
            if ty.kind == 'arr':
                self.declare_local_array(path, ty)
            init = [c for c in self.kids(d)]
            if init and d.get('init'):
                e = init[-1]
                if ty.kind == 'arr':
                    if e['kind'] == 'InitListExpr':
                        for j, c in enumerate(self.kids(e)):
                            if c['kind'] == 'ImplicitValueInitExpr': continue
                            self.store(st, Loc(path + '[]', (I(j),), ty.to), self.ev(c, st))
                        if len(self.kids(e)) < (ty.n or 0):
                            for j in range(len(self.kids(e)), ty.n):
                                self.store(st, Loc(path + '[]', (I(j),), ty.to), ZR if ty.to.kind == 'real' else ZI)
                    continue
                if ty.kind == 'struct' or ty.kind == 'opaque':
                    v = self.ev(e, st) if e['kind'] != 'InitListExpr' else None
                    if isinstance(v, Loc): self.copy_struct(st, Loc(path, (), ty), v)
                    continue
                v = self.ev(e, st)
                self.store(st, Loc(path, (), ty), v)
            else:
                if ty.kind in ('int', 'real'):
                    self.note_write(path)
                    st.mem[path] = sel('undef:' + path, sort_of(ty), *self.loopidx)
        return Outs(st)

    def declare_local_array(self, path, ty):
        n = ty.n
        self.extents[path + '[]'] = lambda idx, n=n: I(n or 0)
        self.init[path + '[]'] = Base('undef:' + path + '[]', sort_of(ty.to) or 'I', 1)

    def s_ReturnStmt(self, n, st):
        c = self.kids(n)
        if c:
            v = self.ev(c[0], st)
            if self.frames[-1].rty.kind in ('int', 'real'): v = self.coerce(v, self.frames[-1].rty)
            st.ret = v
        o = Outs(None); o.ret = [st]
        return o

    def s_BreakStmt(self, n, st):
        o = Outs(None); o.brk = [st]; return o

    def s_ContinueStmt(self, n, st):
        o = Outs(None); o.cont = [st]; return o

    def s_IfStmt(self, n, st):
        k = self.kids(n)
        c = self.truth(self.ev(k[0], st))
        o = Outs(None)
        if c is FALSE:
            r = self.run(k[2], st) if len(k) > 2 else Outs(st)
            return r
        if c is TRUE:
            return self.run(k[1], st)
        s1 = self._branch(st, c); s2 = self._branch(st, not_(c))
        r1 = self.run(k[1], s1)
        r2 = self.run(k[2], s2) if len(k) > 2 else Outs(s2)
        for a in ('brk', 'cont', 'ret'):
            setattr(o, a, getattr(r1, a) + getattr(r2, a))
        f1, f2 = r1.fall, r2.fall
        if f1 is None: o.fall = f2
        elif f2 is None: o.fall = f1
        else:
            if len(f1.pc) == len(st.pc) + 1 and len(f2.pc) == len(st.pc) + 1:
                o.fall = self.merge_states(c, f1, f2)
            else:
                i = len(st.pc)
                o.fall = self.merge_states(and_(*f1.pc[i:]), f1, f2)
        return o

    def s_SwitchStmt(self, n, st):
        k = self.kids(n)
        v = self.ev(k[0], st)
        # flatten: list of (labels or None, stmts)
        groups = []
        def add_stmt(s):
            if s['kind'] == 'CaseStmt':
                kk = self.kids(s)
                groups.append([[kk[0]], []]); add_stmt(kk[1])
            elif s['kind'] == 'DefaultStmt':
                groups.append([[None], []]); add_stmt(self.kids(s)[0])
            else:
                if not groups: groups.append([[], []])
                groups[-1][1].append(s)
        for s in self.kids(k[1]): add_stmt(s)
        o = Outs(None)
        taken = FALSE
        conds = []
        allc = FALSE
        for labs, ss in groups:
            c = FALSE
            for l in labs:
                if l is not None: c = or_(c, eq(v, self.ev(l, st)))
            conds.append(c); allc = or_(allc, c)
        conds = [not_(allc) if None in g[0] else c for g, c in zip(groups, conds)]
        cur = None
        breaks = []
        for (labs, ss), c in zip(groups, conds):
            if c is not FALSE:
                s = self._branch(st, c)
                cur = s if cur is None else self.merge_list([cur, s])
            if cur is None: continue
            for x in ss:
                r = self.run(x, cur)
                breaks += r.brk; o.cont += r.cont; o.ret += r.ret
                cur = r.fall
                if cur is None: break
        outs = breaks + ([cur] if cur is not None else [])
        if not any(None in g[0] for g in groups):
            outs.append(self._branch(st, not_(allc)))
        outs = [s for s in outs if FALSE not in s.pc]
        o.fall = self.merge_list(outs) if outs else None
        return o

    def s_ForStmt(self, n, st):
        from loops import exec_loop
        inner = n['inner']
        init, _, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init.get('kind'):
            r = self.run(init, st); st = r.fall
        return exec_loop(self, n, st, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)

    def s_WhileStmt(self, n, st):
        from loops import exec_loop
        k = self.kids(n)
        return exec_loop(self, n, st, k[0], None, k[1])

    def s_DoStmt(self, n, st):
        from loops import exec_loop
        k = self.kids(n)
        return exec_loop(self, n, st, k[1], None, k[0], dowhile=True)

    # ---------------------------------------------------------------- functions
    def enter(self, fn, args, st, callid):
        fr = Frame(fn['name'], ''.join('/' + c for c in self.callstack) + (('/' + callid) if callid else ''))
        fr.tu = fn['TU']
        ps = [c for c in fn['inner'] if c['kind'] == 'ParmVarDecl']
        rt = fn['type']['qualType'].split('(')[0]
        fr.rty = parse_type(rt, fr.tu)
        for p, a in zip(ps, args):
            path = 'L:%s:%s%s' % (p.get('name', '_'), p['id'], fr.path)
            fr.vars[p['id']] = path
            ty = parse_type(nodetype(p), fr.tu)
            if isinstance(a, (Ptr, PIte)):
                self.note_write('*' + path)
                st.ptrs[path] = a
            elif isinstance(a, (FuncRef, StrLit)): st.ptrs[path] = a
            else:
                self.note_write(path)
                st.mem[path] = self.coerce(a, ty)
        return fr

    def body_of(self, fn): return [c for c in fn['inner'] if c['kind'] == 'CompoundStmt'][0]

    def inline(self, fn, args, st, callid):
        if len(self.frames) > 12: raise Unsupported('recursion through ' + fn['name'])
        fr = self.enter(fn, args, st, callid)
        self.frames.append(fr); self.callstack.append(callid)
        try:
            o = self.run(self.body_of(fn), st)
        finally:
            self.frames.pop(); self.callstack.pop()
        sts = o.ret + ([o.fall] if o.fall is not None else [])
        if not sts: return None, None
        s = self.merge_list(sts)
        r = s.ret; s.ret = None
        return s, r


def isnan(x, opaque=True):
    op = x.op
    if x is NAN: return TRUE
    if op == 'const': return FALSE
    if op == 'ite': return ite(x.args[0], isnan(x.args[1], opaque), isnan(x.args[2], opaque)) if not isind(x) else FALSE
    if op == 'poly': return or_(*[isnan(a, opaque) for m, c in x.args for a, e in m])
    if op == 'toreal': return FALSE
    if op == 'inv': return isnan(x.args[0], opaque)
    if op in ('sel',): return sel('nan:' + x.args[0], 'B', *x.args[1:]) if opaque else FALSE
    if op == 'var': return sel('nan:' + x.args[0], 'B') if opaque else FALSE
    return app('isnan', 'B', x) if opaque else FALSE
