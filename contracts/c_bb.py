"""Contracts of the mixed-integer module (ecos_bb.c, ecos_bb_preproc.c)."""
from lib import *
from concrete import builder
import evalt, math
import ctypes as ct

NOT_SOLVED, BRANCHABLE, NONBRANCH = 1, 2, 3
INF = var('INF', 'R')


def _trunc(x):
    v, m = x
    if v != v or abs(v) > 2e9: raise evalt.Undefined('conversion out of range')
    if abs(v - round(v)) < 1e-9 * max(1.0, m) and v != round(v): raise evalt.Indeterminate('conversion near an integer')
    return math.trunc(v)


evalt.APPS['trunc'] = _trunc
trunc = lambda t: app('trunc', 'I', toreal(t))


def floor_(v, tol): return toreal(ite(v < 0, trunc(v - (1 - tol)), trunc(v)))
def ceil_(v, tol): return toreal(ite(v < 0, trunc(v), trunc(v + (1 - tol))))


class BB:
    """well-formed mixed-integer workspace"""
    def __init__(self, c, w, nodes=True, ecos=True):
        self.w = w; nb, ni = w.num_bool_vars, w.num_int_vars; self.nb = nb; self.ni = ni
        c.requires('numbers of integer variables', and_(nb >= 0, ni >= 0))
        M = w.stgs.maxit
        c.requires('node limit', M >= 1)
        c.extent(w.nodes, M)
        c.extent(w.bool_node_ids, M * nb); c.extent(w.int_node_ids, 2 * M * ni)
        for f, N in (('bool_vars_idx', nb), ('int_vars_idx', ni), ('tmp_bool_node_id', nb), ('tmp_int_node_id', 2 * ni), ('tmp_branching_bool_node_id', nb),
                     ('tmp_branching_int_node_id', 2 * ni), ('pseudocost_bin_sum', 2 * nb), ('pseudocost_bin_cnt', 2 * nb), ('pseudocost_int_sum', 2 * ni), ('pseudocost_int_cnt', 2 * ni)):
            c.extent(getattr(w, f), N)
        for f in 'A G Gpr_new Gjc_new Gir_new h_new ecos_stgs b c h'.split(): c.skip_paths.add('%s.%s' % (w.path, f)); c.nowalk.add('%s.%s' % (w.path, f)); c.nowalk.add('%s.%s[]' % (w.path, f))
        e = w.ecos_prob; self.e = e
        if ecos:
            for f in 'x s z y'.split(): pass
            c.requires('dimensions of the relaxation', and_(e.n >= 0, e.p >= 0, e.m >= 2 * (nb + ni)))
            c.extent(e.x, e.n); c.extent(e.y, e.p); c.extent(e.z, e.m); c.extent(e.s, e.m); c.extent(e.h, e.m); c.extent(e.Gequil, e.m); c.extent(e.c_, e.n)
            c.extent(w.x, e.n); c.extent(w.y, e.p); c.extent(w.z, e.m); c.extent(w.s, e.m)
            c.requires('index lists', and_(forall(0, nb, lambda k: and_(w.bool_vars_idx[k] >= 0, w.bool_vars_idx[k] < e.n)), forall(0, ni, lambda k: and_(w.int_vars_idx[k] >= 0, w.int_vars_idx[k] < e.n))))
        c.requires('current node', and_(w.iter >= 0, w.iter < M))
        keep = set('x y z s h Gequil c info n m p kap tau'.split())
        from contract import ContractMismatch
        rec = c.prog.records.get('pwork') or []
        for f, t in rec:
            if f not in keep: c.nowalk.add('%s.%s' % (e.path, f)); c.nowalk.add('%s.%s[]' % (e.path, f))


@contract('branch')
def _(c):
    k = c.int('curr_node_idx'); w = c.struct('prob'); B = BB(c, w); nb, ni = B.nb, B.ni
    it = w.iter; N = w.nodes; tol = w.stgs.integer_tol
    sp = N[k].split_idx; v = N[k].split_val
    c.requires('node', and_(k >= 0, k < it))
    c.requires('branching variable', and_(sp >= 0, sp < nb + ni))
    c.requires('integer tolerance', and_(tol > 0, tol < R('1/2')))
    c.requires('value of the branching variable', and_(v > -8388609, v < 8388609))
    c.hint('curr_node_idx', [0, 1, 2, 3])
    q = sp - nb
    isb = sp < nb
    c.set(N[it].L, N[k].L); c.set(N[it].U, N[k].U); c.set(N[it].status, I(NOT_SOLVED)); c.set(N[k].status, I(NOT_SOLVED))
    for a, up in ((it, 1), (k, 0)):
        c.set(N[a].prev_split_idx, sp); c.set(N[a].prev_split_val, v); c.set(N[a].prev_relaxation, N[k].relaxation); c.set(N[a].up_branch_node, I(up))
    bi, ii = w.bool_node_ids, w.int_node_ids
    c.setall(bi, lambda p: ite(eq(p, nb * it + sp), I(1), bi[p - nb * it + nb * k]), lo=nb * it, n=nb * it + nb)
    c.set(bi[nb * k + sp], I(0), guard=isb)
    c.setall(ii, lambda p: ite(and_(not_(isb), eq(p, 2 * ni * it + 2 * q)), -ceil_(v, tol), ii[p - 2 * ni * it + 2 * ni * k]), lo=2 * ni * it, n=2 * ni * it + 2 * ni)
    c.set(ii[2 * ni * k + 2 * q + 1], floor_(v, tol), guard=not_(isb))
    P = c.prime
    lo = -P(ii)[2 * ni * it + 2 * q]; hi = P(ii)[2 * ni * k + 2 * q + 1]
    c.ensures('no integer value is lost between the two children', implies(not_(isb), lo <= hi + 1))
    away = lambda k: or_(v - k >= tol, k - v >= tol)
    c.ensures('a fractional value is cut off in both children', implies(and_(not_(isb), away(hi), away(lo)), and_(hi < v, v < lo)))


@contract('get_next_node')
def _(c):
    w = c.struct('prob'); BB(c, w); N = w.nodes; it = w.iter
    c.requires('dive node', and_(w.dive_node_id >= 0, w.dive_node_id <= it))
    r = c.result()
    m = w.stgs.node_selection_method
    dl = and_(m.eq(1), N[w.dive_node_id].status.eq(BRANCHABLE)); du = and_(m.eq(2), N[it].status.eq(BRANCHABLE))
    opn = lambda i: and_(N[i].status.eq(BRANCHABLE), N[i].L < INF, N[i].L < w.global_U)
    c.havoc(w.dive_node_id)
    c.ensures('diving follows an open node', implies(dl, and_(r.eq(w.dive_node_id), c.prime(w.dive_node_id).eq(w.dive_node_id))))
    c.ensures('diving follows an open upper node', implies(and_(not_(dl), du), and_(r.eq(it), c.prime(w.dive_node_id).eq(w.dive_node_id))))
    sel_ = and_(not_(dl), not_(du))
    c.ensures('the node is a node', and_(r >= -1, r <= it))
    c.ensures('the chosen node is remembered', implies(sel_, c.prime(w.dive_node_id).eq(r)))
    c.ensures('the chosen node is open', implies(and_(sel_, r >= 0), and_(N[r].status.eq(BRANCHABLE), N[r].L < w.global_U)))
    c.ensures('no open node has a smaller bound', implies(and_(sel_, r >= 0), forall(0, it + 1, lambda i: implies(opn(i), N[r].L <= N[i].L))))
    c.ensures('none is chosen only when no open node is left', implies(and_(sel_, r < 0), forall(0, it + 1, lambda i: not_(opn(i)))))


@contract('get_global_L')
def _(c):
    w = c.struct('prob'); BB(c, w); N = w.nodes
    r = c.result()
    c.ensures('is a lower bound of all nodes', forall(0, w.iter + 1, lambda i: r <= N[i].L))
    c.ensures('is attained', or_(r.eq(INF), exists(0, w.iter + 1, lambda i: r.eq(N[i].L))))


@contract('get_ret_code', inf=True)
def _(c):
    w = c.struct('prob'); BB(c, w)
    inf = w.global_U.eq(INF)
    full = w.iter >= w.stgs.maxit - 1
    c.requires('upper bound', w.global_U > -INF)
    c.returns(ite(inf, I(1), I(0)) + ite(full, I(10), I(0)))


@contract('store_solution')
def _(c):
    w = c.struct('prob'); B = BB(c, w); copy_solution(c, w, B.e, B.e, w)


def copy_solution(c, w, e, src, dst):
    for v, N in (('x', e.n), ('y', e.p), ('z', e.m), ('s', e.m)):
        a = getattr(src, v); c.setall(getattr(dst, v), lambda i, a=a: a[i], n=N)
    for f in ('kap', 'tau'): c.set(getattr(dst, f), getattr(src, f))
    for f, t in c.prog.records['stats']: c.set(getattr(dst.info, f), getattr(src.info, f))


@contract('load_solution')
def _(c):
    w = c.struct('prob'); B = BB(c, w); copy_solution(c, w, B.e, w, B.e)


@contract('is_infeasible')
def _(c):
    r = c.int('ecos_result')
    c.hint('ecos_result', [0, 1, 2, 10, 11, 12, -1, -2, -3])
    c.returns(b2i(or_(r.eq(1), r.eq(2), r.eq(11), r.eq(12))))


@contract('get_score')
def _(c):
    a = c.real('delta_q_down'); b = c.real('delta_q_up')
    e = R(1e-8)
    c.returns(max_(a, e) * max_(b, e))


@contract('contains')
def _(c):
    i = c.int('idx'); n = c.int('num_int'); a = c.arr('bool_vars_idx', n)
    c.requires('length', n >= 0)
    r = c.result()
    c.returns(sum_(0, n, lambda k: b2i(eq(a[k], i))))


@contract('position')
def _(c):
    i = c.int('idx'); n = c.int('num'); a = c.arr('vars_idx', n)
    c.requires('length', n >= 0)
    r = c.result()
    c.ensures('first position in the list', and_(r >= 0, r <= n, forall(0, r, lambda k: not_(a[k].eq(i))), implies(r < n, a[r].eq(i))))


@contract('set_prob')
def _(c):
    w = c.struct('prob'); B = BB(c, w); nb, ni = B.nb, B.ni; e = B.e
    bi = c.arr('bool_node_id', nb); ii = c.arr('int_node_id', 2 * ni)
    c.requires('states of the boolean variables', forall(0, nb, lambda k: and_(bi[k] >= -1, bi[k] <= 1)))
    c.hint('bool_node_id', lambda ctx, N: [ctx.rng.choice([-1, 0, 1]) for _ in range(N)])
    h, g = e.h, e.Gequil
    # rows 2k: -x <= -lower, rows 2k+1: x <= upper
    c.setmap(h, [nb], lambda k: (2 * k, ite(bi[k].eq(1), R(-1), ZR) / g[2 * k]))
    c.setmap(h, [nb], lambda k: (2 * k + 1, ite(bi[k].eq(0), ZR, R(1)) / g[2 * k + 1]))
    c.setall(h, lambda p: ii[p - 2 * nb] / g[p], lo=2 * nb, n=2 * nb + 2 * ni)


@contract('initialize_root')
def _(c):
    w = c.struct('prob'); BB(c, w)
    n0 = w.nodes[0]
    c.set(n0.status, I(NOT_SOLVED)); c.set(n0.L, -INF); c.set(n0.U, INF); c.set(n0.prev_split_idx, I(-1))
    c.set(w.global_L, -INF); c.set(w.global_U, INF)
    c.setall(w.bool_node_ids, lambda i: I(-1), n=w.num_bool_vars)
    c.setall(w.int_node_ids, lambda i: R(8388608), n=2 * w.num_int_vars)


@contract('initialize_strong_branching', prove=False)
def _(c):
    w = c.struct('problem'); k = c.int('node_idx'); BB(c, w)
    c.requires('node', and_(k >= 0, k <= w.iter))
    nb, ni = w.num_bool_vars, w.num_int_vars
    c.setall(w.tmp_branching_bool_node_id, lambda i: w.bool_node_ids[nb * k + i])
    c.setall(w.tmp_branching_int_node_id, lambda i: w.int_node_ids[2 * ni * k + i])


@contract('avg_pseudocost')
def _(c):
    s = c.arr('pseudocost_sums'); k = c.arr('pseudocost_cnts'); n = c.int('pseudocost_sums_cnt'); up = c.int('up')
    c.extent(s, 2 * n); c.extent(k, 2 * n)
    c.requires('sizes', and_(n >= 0, up >= 0, up <= 1))
    c.hint('up', [0, 1])
    S = sum_(0, n, lambda i: ite(k[2 * i + up] > 0, s[2 * i + up], ZR)); C = sum_(0, n, lambda i: ite(k[2 * i + up] > 0, k[2 * i + up], ZI))
    c.returns(ite(C > 0, S / toreal(C), R(1)))


@contract('updateDataEntry_h')
def _(c):
    w = c.struct('w'); i = c.int('idx'); v = c.real('value'); B = BB(c, w)
    k = i + 2 * (w.num_bool_vars + w.num_int_vars)
    c.requires('index of a row of the user', and_(i >= 0, k < B.e.m))
    c.set(B.e.h[k], v / B.e.Gequil[k])


@contract('updateDataEntry_c')
def _(c):
    w = c.struct('w'); i = c.int('idx'); v = c.real('value'); B = BB(c, w)
    c.requires('index of a variable', and_(i >= 0, i < B.e.n))
    c.set(B.e.c_[i], v)


@contract('should_continue')
def _(c):
    w = c.struct('prob'); k = c.int('curr_node_idx'); BB(c, w)
    U, L = w.global_U, w.global_L
    c.hint('curr_node_idx', [-1, 0, 1, 2])
    c.requires('finite bounds', and_(U < INF, L < INF, L > -INF))
    c.requires('lower bound is not zero', or_(L < 0, L > 0))
    r = c.result(); st = w.stgs
    d = U / L - 1
    closed = or_(U - L <= st.abs_tol_gap, max_(d, -d) <= st.rel_tol_gap)
    c.ensures('is a truth value', or_(r.eq(0), r.eq(1)))
    c.ensures('stops only with a closed gap, without open nodes or at the node limit', implies(r.eq(0), or_(closed, k < 0, w.iter >= st.maxit - 1)))
    c.ensures('continues only with an open gap and an open node below the node limit', implies(r.eq(1), and_(not_(closed), k >= 0, w.iter < st.maxit - 1)))


@contract('get_branch_var_most_infeasible')
def _(c):
    w = c.struct('prob'); si = c.arr('split_idx', 1); sv = c.arr('split_val', 1); B = BB(c, w); e = B.e; nb, ni = B.nb, B.ni
    tol = w.stgs.integer_tol
    val = lambda i: ite(i < nb, e.x[w.bool_vars_idx[i]], e.x[w.int_vars_idx[i - nb]])
    def amb(i):
        y = val(i); x = ite(i < nb, y, y - floor_(y, tol))
        return max_(x - R('1/2'), R('1/2') - x)
    c.havoc(si); c.havoc(sv)
    S = c.prime(si)[0]; V = c.prime(sv)[0]
    rng = and_(S >= 0, S < nb + ni)
    c.requires('no variable selected yet', si[0].eq(-1))
    c.hint('split_idx', lambda ctx, N: [-1])
    c.ensures('selects a variable when one is close enough to fractional', implies(exists(0, nb + ni, lambda i: amb(i) < 1), rng))
    c.ensures('the value is that of the selected variable', or_(and_(S.eq(-1), V.eq(sv[0])), and_(rng, V.eq(val(S)))))
    c.ensures('no variable is more fractional', implies(rng, forall(0, nb + ni, lambda i: amb(S) <= amb(i))))
    c.bounded('no variable is more fractional')


def infeasible_code(r): return or_(r.eq(1), r.eq(2), r.eq(11), r.eq(12))


@contract('check_infeasible_bool_var')
def _(c):
    w = c.struct('problem'); r = c.int('ecos_result'); q = c.real('relaxation'); k = c.int('node_idx'); o = c.int('other_val'); i = c.int('var_idx')
    si = c.arr('split_idx', 1); sv = c.arr('split_val', 1); v = c.real('current_value'); B = BB(c, w)
    c.requires('node and variable', and_(k >= 0, k <= w.iter, i >= 0, i < B.nb, o >= 0, o <= 1))
    c.hint('ecos_result', [0, 1, 2, 10, 11, 12, -1]); c.hint('other_val', [0, 1]); c.hint('node_idx', [0, 0, 1]); c.hint('var_idx', [0, 0, 1])
    c.hint('split_idx', lambda ctx, N: [ctx.rng.choice([-1, 0])])
    bad = or_(infeasible_code(r), q > w.global_U)
    first = and_(bad, si[0].eq(-1))
    c.returns(b2i(bad))
    c.set(w.bool_node_ids[B.nb * k + i], o, guard=bad); c.set(w.tmp_branching_bool_node_id[i], o, guard=bad)
    c.set(si[0], i, guard=first); c.set(sv[0], v, guard=first)


@contract('check_infeasible_int_var')
def _(c):
    w = c.struct('problem'); r = c.int('ecos_result'); q = c.real('relaxation'); k = c.int('node_idx'); lb = c.int('fix_lb'); i = c.int('var_idx')
    si = c.arr('split_idx', 1); sv = c.arr('split_val', 1); v = c.real('current_value'); B = BB(c, w)
    c.requires('node and variable', and_(k >= 0, k <= w.iter, i >= 0, i < B.ni))
    c.requires('integer tolerance', and_(w.stgs.integer_tol > 0, w.stgs.integer_tol < R('1/2')))
    c.requires('value of the variable', and_(v > -8388609, v < 8388609))
    c.hint('ecos_result', [0, 1, 2, 10, 11, 12, -1]); c.hint('fix_lb', [0, 1]); c.hint('node_idx', [0, 0, 1]); c.hint('var_idx', [0, 0, 1])
    c.hint('split_idx', lambda ctx, N: [ctx.rng.choice([-1, 0])])
    bad = or_(infeasible_code(r), q > w.global_U)
    first = and_(bad, si[0].eq(-1)); tol = w.stgs.integer_tol
    c.returns(b2i(bad))
    # the lower side is infeasible: the variable is at least ceil(v); the upper side is: at most floor(v)
    f = ite(lb.eq(0), floor_(v, tol), -ceil_(v, tol)); o = ite(lb.eq(0), I(1), I(0))
    c.set(w.int_node_ids[2 * B.ni * k + 2 * i + o], f, guard=bad); c.set(w.tmp_branching_int_node_id[2 * i + o], f, guard=bad)
    c.set(si[0], B.nb + i, guard=first); c.set(sv[0], v, guard=first)


@contract('is_reliable')
def _(c):
    w = c.struct('problem'); i = c.int('i'); B = BB(c, w)
    c.requires('variable', and_(i >= 0, i < B.nb + B.ni))
    n = w.stgs.reliable_eta; b = w.pseudocost_bin_cnt; t = w.pseudocost_int_cnt; k = i - B.nb
    c.returns(b2i(ite(i < B.nb, and_(b[2 * i] > n, b[2 * i + 1] > n), and_(t[2 * k] > n, t[2 * k + 1] > n))))


@contract('set_pseudocost_psi')
def _(c):
    w = c.struct('problem'); i = c.int('i'); d = c.arr('down_psi', 1); u = c.arr('up_psi', 1); B = BB(c, w)
    c.requires('variable', and_(i >= 0, i < B.nb + B.ni))
    c.requires('int size', and_(B.nb < 2147483648, B.ni < 2147483648))
    def avg(s, k, n, up):
        S = sum_(0, n, lambda j: ite(k[2 * j + up] > 0, s[2 * j + up], ZR)); C = sum_(0, n, lambda j: ite(k[2 * j + up] > 0, k[2 * j + up], ZI))
        return ite(C > 0, S / toreal(C), R(1))
    def psi(up):
        out = []
        for s, k, n, j in ((w.pseudocost_bin_sum, w.pseudocost_bin_cnt, B.nb, i), (w.pseudocost_int_sum, w.pseudocost_int_cnt, B.ni, i - B.nb)):
            out.append(ite(k[2 * j + up].eq(0), avg(s, k, n, up), s[2 * j + up] / toreal(k[2 * j + up])))
        return ite(i < B.nb, out[0], out[1])
    c.set(d[0], psi(0)); c.set(u[0], psi(1))


# ------------------------------------------------------------------ setup: bound rows in front of the user's rows
@contract('socp_to_ecos_bb', prove=False)
def _(c):
    nb = c.int('num_bool_vars'); bi = c.arr('bool_vars_idx', nb); ni = c.int('num_int_vars'); ii = c.arr('int_vars_idx', ni)
    n = c.int('n'); m = c.int('m')
    gp = c.arr('Gpr_in'); gj = c.arr('Gjc_in'); gi = c.arr('Gir_in')
    op = c.arr('Gpr_out'); oj = c.arr('Gjc_out'); oi = c.arr('Gir_out'); h = c.arr('h_in'); oh = c.arr('h_out')
    c.requires('sizes', and_(nb >= 0, ni >= 0, n >= 0, m >= 0))
    c.extent(gj, n + 1); c.extent(oj, n + 1); c.extent(gp, gj[n]); c.extent(gi, gj[n]); c.extent(h, m)
    N2 = 2 * (nb + ni)
    c.extent(op, gj[n] + N2); c.extent(oi, gj[n] + N2); c.extent(oh, m + N2)
    c.requires('column pointers', and_(gj[0].eq(0), forall(0, n, lambda j: gj[j] <= gj[j + 1])))
    isi = lambda j: ite(or_(exists(0, nb, lambda k: bi[k].eq(j)), exists(0, ni, lambda k: ii[k].eq(j))), I(1), I(0))
    pos = lambda j: sum_(0, nb, lambda k: ite(bi[k].eq(j), k, ZI)) + sum_(0, ni, lambda k: ite(ii[k].eq(j), nb + k, ZI))
    ofs = lambda j: gj[j] + 2 * sum_(0, j, isi)
    c.setall(oj, ofs)
    for t in range(2):
        c.setmap(op, [n], lambda j, t=t: (ofs(j) + t, R(-1 if t == 0 else 1), isi(j).eq(1)))
        c.setmap(oi, [n], lambda j, t=t: (ofs(j) + t, 2 * pos(j) + t, isi(j).eq(1)))
    c.setmap(op, [n, lambda j: gj[j + 1] - gj[j]], lambda j, k: (ofs(j) + 2 * isi(j) + k, gp[gj[j] + k]))
    c.setmap(oi, [n, lambda j: gj[j + 1] - gj[j]], lambda j, k: (ofs(j) + 2 * isi(j) + k, gi[gj[j] + k] + N2))
    c.setall(oh, lambda i: ite(i < 2 * nb, ite(exists(0, nb, lambda k: eq(i, 2 * k)), ZR, R(1)), ite(i < N2, R(8388608), h[i - N2])))

    def mk(ctx):
        r = ctx.rng; a = ctx.args
        n = r.randint(1, 6); m = r.randint(0, 5)
        idx = list(range(n)); r.shuffle(idx)
        b = r.randint(0, n); i = r.randint(0, n - b)
        jc = [0]; ir = []
        for j in range(n):
            rows = [t for t in range(m) if r.random() < 0.5]; ir += rows; jc.append(len(ir))
        a.update(num_bool_vars=b, num_int_vars=i, n=n, m=m, bool_vars_idx=ctx.ints(idx[:b]), int_vars_idx=ctx.ints(idx[b:b + i]),
                 Gjc_in=ctx.ints(jc), Gir_in=ctx.ints(ir), Gpr_in=ctx.reals(ctx.rv(len(ir))), h_in=ctx.reals(ctx.rv(m)))
        a['Gpr_out'] = ctx.reals(ctx.rv(len(ir) + 2 * (b + i))); a['Gir_out'] = ctx.ints([7] * (len(ir) + 2 * (b + i))); a['Gjc_out'] = ctx.ints([7] * (n + 1)); a['h_out'] = ctx.reals(ctx.rv(m + 2 * (b + i)))
    c.make(mk)


@builder('ecos_bb_pwork')
def _(ctx, c, name):
    import e2e_bb as B
    r = ctx.rng; lib = ctx.lib
    M = B.gen_mi(r)
    R_ = B.BBRun(lib, M, dict(B.bb_settings(r), maxit=r.choice([2, 3, 5, 8])))
    R_.setup(); ctx.bbrun = R_
    if r.random() < 0.3: R_.solve()
    o = R_.o; T = lib.types; P = M.P
    nb, ni = len(M.bools), len(M.ints); mx = R_.st.maxit
    N = T.struct('node'); sz = ct.sizeof(N)
    o.iter = r.randrange(0, mx); o.dive_node_id = r.randint(0, o.iter)
    for k in range(mx):
        d = N.from_address(o.nodes + k * sz)
        d.status = r.choice([1, 2, 2, 3]); d.L = r.choice([ctx.real(), -3.0, float('inf') if r.random() < 0.2 else 1.0]); d.U = r.choice([ctx.real(), float('inf')])
        d.relaxation = ctx.real(); d.split_idx = r.randrange(0, max(1, nb + ni)); d.split_val = r.choice([r.uniform(0, 1), r.uniform(-4, 4), float(r.randint(-3, 3))])
        d.prev_split_idx = r.randint(-1, max(0, nb + ni - 1)); d.prev_split_val = r.uniform(0, 1); d.prev_relaxation = ctx.real(); d.up_branch_node = r.randint(0, 1)
    from builders import put
    put(o.bool_node_ids, [r.choice([-1, 0, 1]) for _ in range(mx * nb)], ct.c_byte)
    put(o.int_node_ids, [float(r.randint(-4, 4)) for _ in range(2 * mx * ni)])
    for f, N_, z in (('pseudocost_bin', nb, 0), ('pseudocost_int', ni, 0)):
        put(getattr(o, f + '_cnt'), [r.randint(0, 3) for _ in range(2 * N_)], ct.c_long); put(getattr(o, f + '_sum'), ctx.rv(2 * N_))
    e = R_.e
    for f, L in (('x', P.n), ('z', e.m), ('s', e.m)):
        put(getattr(e, f), ctx.rv(L)); put(getattr(o, f), ctx.rv(L))
    o.global_U = r.choice([ctx.real(), float('inf')]); o.global_L = ctx.real()
    o.kap = ctx.pos(); o.tau = ctx.pos()
    from builders import BUILDERS_STATS
    BUILDERS_STATS(ctx, o.info)
    ctx.finals.append(R_.free)
    return R_.w
