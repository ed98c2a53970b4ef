"""Contracts of optimize/optimizer.hpp, infinite_memory/optimizer.hpp and finite_width/greedy/optimizer.hpp (C02, C03, C04, C05, C27)."""
import z3
from vcgen.core import *
from vcgen.vals import *
from vcgen.run import Unit
from .tree import *
from .ctree import *
from . import bitset

GHOST = {'rank': z3.ArraySort(I, R), 'below': z3.ArraySort(I, SET), 'out': z3.ArraySort(I, SET)}
SUM = z3.Function('SUM', z3.ArraySort(I, R), R)      # sum over all nodes (ghost)

W = z3.Function('W', SET, R)       # width of a set of indices (the cost model's contract, C06)
def sum_axioms(ctx, arr):
    """SUM after a point update (finite sum over the nodes)."""
    while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
        a, i, v = arr.children()
        ctx.assume(SUM(arr) == SUM(a) + v - z3.Select(a, i))
        arr = a

class GV:
    """View of the ghost cell with the interface of G."""
    def __init__(self, it, lv, nl, ninds): self.it, self.lv, self.nl, self.ninds = it, lv, nl, ninds
    @property
    def rank(self): return self.it.read(self.lv.f('rank'))
    @property
    def below(self): return self.it.read(self.lv.f('below'))
    @property
    def out(self): return self.it.read(self.lv.f('out'))

def ghost(it, nl=None, ninds=None):
    ctx = it.ctx
    lv = it.new_cell('ghost', Rec('ghost', {k: ctx.fresh(k, s) for k, s in GHOST.items()}))
    return GV(it, lv, ctx.fresh_int('n_leaves'), ctx.fresh_int('n_inds'))

def base_fields(extra):
    d = {'ctree': CTREE, 'n_tensors': 'int', 'n_leaves': 'int', 'disable_shared_inds': 'bool', 'prng': 'opaque', 'min_ctree': CTREE,
         'p_cmodel': ('rec', 'CostModel', {'max_width': 'real'}), 'cost_cache': ('rec', 'CostCache', {'partial_cost': ('vec', 'real'), 'contraction_cost': ('vec', 'real')}),
         'hyper_cache': ('rec', 'HyperCache', {'hyper_inds': ('vec', 'set')}), 'min_total_cost': 'real'}
    d.update(extra)
    return d
INF = ('rec', 'Optimizer', base_fields({}))

def prng_call(it, f, args):
    """mt19937: some non-negative number; uniform_real_distribution: a real in [0, 1)."""
    if 'uniform' in f.name:
        r = it.ctx.fresh_real('uniform'); it.ctx.assume(z3.And(r >= 0, r < 1)); return r
    r = it.ctx.fresh_int('prng'); it.ctx.assume(r >= 0); return r

# ---- contract of get_ctree_nn
def nn_post(t, g, dis, B, A, C, D, E):
    n = t.nodes.len; nodes = t.nodes
    stop = z3.Or(B == -1, B == n - 1, B < g.nl)
    return [('null positions exactly when B has no uncle', (A == -1) == stop),
            ('neighbours', z3.Implies(z3.Not(stop), z3.And(A == par(nodes, B), z3.Or(z3.And(c0(nodes, A) == B, c1(nodes, A) == C), z3.And(c1(nodes, A) == B, c0(nodes, A) == C)),
                z3.Or(z3.And(c0(nodes, B) == D, c1(nodes, B) == E), z3.And(c1(nodes, B) == D, c0(nodes, B) == E))))),
            ('[C27] D shares an index with C', z3.Implies(z3.And(z3.Not(stop), z3.Not(dis)), set_inter(inds_(t, D), inds_(t, C)) != EMPTY))]

def unit_nn():
    def body(it):
        fn = it.ast.find1(r'tnco::optimize::optimizer::Optimizer::get_ctree_nn\(long\) const$')
        ctx = it.ctx
        o = mk(INF, 'this', ctx.fresh); g = ghost(it)
        B = ctx.fresh_int('pos_B'); ctx.terms += [B]
        t = o.ctree
        assume_all(ctx, ctree_inv(t, g))
        dis = o.disable_shared_inds
        if not ctx.decide(dis): ctx.assume(shared(t, g))
        ctx.assume(z3.Or(B == -1, rng(B, 0, t.nodes.len)))
        ctx.terms += [par(t.nodes, B)]
        ctx.cover('get_ctree_nn: precondition')
        this = it.new_cell('this', o)
        r = it.call_fn(fn, [B], this)
        if isinstance(r, LV): r = it.read(r)
        A, C, D, E = r.items
        ctx.cover('get_ctree_nn: exit')
        for nm, f in nn_post(t, g, dis, B, A, C, D, E): ctx.oblige(nm, f, 'post')
        ctx.oblige('the optimizer is not modified', veq(o, it.read(this)), 'post')
    return Unit('Optimizer::get_ctree_nn', ['C02', 'C27'], body, opts={'throw': 'violation', 'opaque_call': prng_call}, lang='c++release')

def union_bc(t, i): return set_union(inds_(t, c0(t.nodes, i)), inds_(t, c1(t.nodes, i)))

class Names:
    """Finds the local variables of a loop by their source name, else as the only modified variable of that sort."""
    def find(self, it, key, names, sort, modified=True):
        def fits(v):
            if isinstance(sort, str) and sort == 'set': return isinstance(v, SetV)
            if isinstance(sort, str) and sort == 'vec': return isinstance(v, Vec)
            return z3.is_expr(v) and v.sort() == sort
        for n in names:
            d = it.names.get(n)
            if d is not None and d in it.env and fits(it.read(it.env[d])): return it.env[d]
        ms = it.modsets.get(key, [])
        if not ms: return None
        c = [LV(x) for x in sorted(set(m[0] for m in ms)) if not x.startswith(('ghost', 'this')) and fits(it.cells[x])]
        if modified and len(c) == 1: return c[0]
        raise OutOfFragment('loop variable %s not identified (%d candidates)' % (names[0], len(c)))

def contracts_update(st, finite=False):
    """Contracts of the callees of update(); st: shared state set by the unit body."""
    def nn(it, args, this):
        ctx = it.ctx
        B = it.read(args[0]) if isinstance(args[0], LV) else args[0]
        o = it.read(st.this); t = o.ctree; g = st.g
        ctx.oblige('get_ctree_nn is called on a node', z3.Or(B == -1, rng(B, 0, t.nodes.len)), 'call-pre')
        A, C, D, E = [ctx.fresh_int(x) for x in 'ACDE']
        for nm, f in nn_post(t, g, o.disable_shared_inds, B, A, C, D, E): ctx.assume(f)
        ctx.terms += [A, B, C, D, E]
        return Tup([A, C, D, E])
    def swap(it, args, this):
        ctx = it.ctx
        D = it.read(args[0]) if isinstance(args[0], LV) else args[0]
        it.swaps = getattr(it, 'swaps', 0) + 1
        lv = this.f('nodes'); nodes = it.read(lv); g = st.g
        for nm, f in wf(nodes, g.nl, g.rank): ctx.oblige('swap_with_nn is called on a valid tree: ' + nm, f, 'call-pre')
        ok, A, B, C = swapped(nodes, D)
        ctx.terms += [A, B, C, D]
        E = z3.If(c0(nodes, B) == D, c1(nodes, B), c0(nodes, B))     # sibling of the moved node
        if not ctx.decide(ok): return None
        f1, f2 = ctx.fresh_bool('order'), ctx.fresh_bool('order')
        ch0, ch1, pa = nodes.el.fields['children'].items[0], nodes.el.fields['children'].items[1], nodes.el.fields['parent']
        n0 = z3.Store(z3.Store(ch0, A, z3.If(f1, D, B)), B, z3.If(f2, C, E))
        n1 = z3.Store(z3.Store(ch1, A, z3.If(f1, B, D)), B, z3.If(f2, E, C))
        npar = z3.Store(z3.Store(pa, D, A), C, B)
        it.write(lv, Vec(nodes.len, Rec('Node', {'children': Tup([n0, n1]), 'parent': npar})))
        below, out = g.below, g.out
        it.write(g.lv.f('rank'), swap_rank(nodes, g.rank, D))
        it.write(g.lv.f('below'), z3.Store(below, B, set_union(S(below, E), S(below, C))))
        it.write(g.lv.f('out'), z3.Store(out, B, set_union(S(out, A), S(below, D))))
        return None
    def ccost(it, args, this):
        ctx = it.ctx
        vals = [it.read(a) if isinstance(a, LV) else a for a in args]
        a, b, c = vals[:3]
        ctx.oblige('contraction_cost: bitsets of equal size', z3.And(a.size == b.size, b.size == c.size), 'call-pre')
        u = set_union(b.mem, c.mem)
        ctx.oblige('[C03] contraction_cost is asked for a contraction (operands and result belong together)',
                   z3.And(subset(a.mem, u), subset(set_xor(b.mem, c.mem), a.mem)), 'call-pre')
        o = it.read(st.this)
        ctx.oblige('[C03] contraction_cost: dimensions of the network', veq(vals[3], o.ctree.dims), 'call-pre')
        if finite:
            u = set_union(u, vals[4].mem)
        r = K(u)
        ctx.assume(r >= 0)
        return r
    def prob(it, args, this):
        ctx = it.ctx
        delta, total = [it.read(a) if isinstance(a, LV) else a for a in args]
        o = it.read(st.this); cc = o.cost_cache.contraction_cost.el
        sum_axioms(ctx, cc)
        r = ctx.fresh_real('prob'); ctx.assume(z3.And(r >= 0, r <= 1, z3.Implies(delta <= 0, r == 1)))
        ctx.oblige('[C07] the acceptance rule is given the current total cost', total == SUM(cc), 'call-pre')
        st.asked = (delta, it.swaps)
        return r
    def width(it, args, this):
        a, d = [it.read(x) if isinstance(x, LV) else x for x in args]
        it.ctx.oblige('[C05] width: dimensions of the network', veq(d, it.read(st.this).ctree.dims), 'call-pre')
        return W(a.mem)
    def delta_width(it, args, this):
        a, d, p = [it.read(x) if isinstance(x, LV) else x for x in args]
        it.ctx.oblige('delta_width: position within the bitset', rng(p, 0, a.size), 'call-pre')
        it.ctx.oblige('[C05] delta_width: dimensions of the network', veq(d, it.read(st.this).ctree.dims), 'call-pre')
        # set algebra: (X - N) without p is X - (N with p)
        m = a.mem
        if z3.is_app(m) and m.num_args() == 2 and z3.is_app(m.arg(1)) and m.arg(1).num_args() == 1:
            it.ctx.lemma('set difference', lambda x, s, k: z3.Implies(z3.Select(set_diff(x, s), k), set_diff(x, z3.Store(s, k, z3.BoolVal(True))) == z3.Store(set_diff(x, s), k, z3.Not(z3.Select(set_diff(x, s), k)))),
                         (m.arg(0), m.arg(1).arg(0), p))
        return W(z3.Store(m, p, z3.Not(z3.Select(m, p)))) - W(m)
    c = {r'tnco::optimize::\w+::cost_model::base::CostModel::width': width, r'tnco::optimize::\w+::cost_model::base::CostModel::delta_width': delta_width}
    c.update(bitset.CALLS)
    return {**c, r'tnco::optimize::optimizer::Optimizer::get_ctree_nn': nn, r'tnco::tree::Tree::swap_with_nn': swap,
            r'tnco::optimize::\w+::cost_model::base::CostModel::contraction_cost': ccost,
            r'tnco::optimize::prob::base::Probability::operator\(\)': prob}

class St: pass

def opt_inv(it, st, stale=None, final=False):
    """Invariant of an optimizer: the tree, and every cache derived from it."""
    o = it.read(st.this); t, g = o.ctree, st.g; t0 = st.t0
    r = [('[C02] ' + nm, f) for nm, f in ctree_inv(t, g)]
    r += [('[C02] leaf tensors do not change', FA('leaf', I, lambda i: z3.Implies(rng(i, 0, g.nl), z3.And(inds_(t, i) == inds_(t0, i))))),
          ('[C02] output indices do not change', inds_(t, t.nodes.len - 1) == inds_(t0, t0.nodes.len - 1)),
          ('[C02] dimensions do not change', veq(t.dims, t0.dims)),
          ('[C02] number of nodes does not change', z3.And(t.nodes.len == t0.nodes.len))]
    r += [('[C02] hyper cache: ' + nm, f) for nm, f in hyper_ok(t, g, o.hyper_cache.hyper_inds)]
    extra = st.slices(o) if st.slices else None
    r += [('[C03] ' + nm, f) for nm, f in ccost_ok(t, g, o.cost_cache.contraction_cost, extra)]
    r += [('[C03] ' + nm, f) for nm, f in partial_ok(t, g, o.cost_cache.partial_cost, o.cost_cache.contraction_cost, stale)]
    if not st.dis: r.append(('[C27] every contraction joins tensors that share an index', shared(t, g)))
    return r

def lemma_total(ctx, o):
    """Lemma (finite trees): the partial cost of the root is the sum of the costs of all contractions."""
    ctx.assume(S(o.cost_cache.partial_cost.el, o.ctree.nodes.len - 1) == SUM(o.cost_cache.contraction_cost.el))

def unit_inf_update():
    st = St(); names = Names()
    class Loop:
        name = 'walk from a leaf to the root'
        def inv(self, it):
            o = it.read(st.this); t, g = o.ctree, st.g
            pos = names.find(it, it.cur_loop, ['pos_B'], I)
            if pos is None: return []
            B = it.read(pos); it.ctx.terms.append(B)
            it.ctx.terms.append(par(t.nodes, B))
            r = opt_inv(it, st, stale=par(t.nodes, B))
            r.append(('position of an inner node', rng(B, g.nl, t.nodes.len)))
            tot = names.find(it, it.cur_loop, ['total_cost'], R)
            if tot is not None:
                sum_axioms(it.ctx, o.cost_cache.contraction_cost.el)
                r.append(('[C07] running total cost', it.read(tot) == SUM(o.cost_cache.contraction_cost.el)))
            return r
        def havoc(self, it): st.asked = None; it.swaps = 0
        def step(self, it):
            if st.asked is not None:
                delta, k = st.asked
                it.ctx.oblige('[C07] a move that does not increase the cost is accepted', z3.Implies(delta <= 0, z3.BoolVal(it.swaps > k)), 'post')
    def body(it):
        fn = it.ast.find1(r'tnco::optimize::infinite_memory::optimizer::Optimizer<.*>::update\(')
        ctx = it.ctx
        o = mk(INF, 'this', ctx.fresh); st.g = g = ghost(it)
        st.t0 = o.ctree; st.slices = None
        st.this = it.new_cell('this', o)
        st.dis = ctx.decide(o.disable_shared_inds)
        ctx.assume(o.n_leaves == g.nl); ctx.assume(o.n_tensors == o.ctree.nodes.len)
        for nm, f in opt_inv(it, st): ctx.assume(f)
        assume_all(ctx, dims_ok(o.ctree, g))
        lemma_total(ctx, o)
        ctx.cover('update: precondition')
        it.call_fn(fn, [it.new_cell('prob', Rec('Probability', {}))], st.this)
        ctx.cover('update: exit')
        for nm, f in opt_inv(it, st): ctx.oblige('after update: ' + nm if not nm.startswith('[') else nm[:6] + 'after update: ' + nm[6:], f, 'post')
        n = it.read(st.this); t = n.ctree
        total = S(n.cost_cache.partial_cost.el, t.nodes.len - 1)
        ctx.oblige('[C04] the best cost never increases', n.min_total_cost <= o.min_total_cost, 'post')
        ctx.oblige('[C04] the best cost is not larger than the current cost', z3.Or(g.nl == 1, n.min_total_cost <= total), 'post')
        ctx.oblige('[C04] the best is either unchanged or the current tree with its cost',
                   z3.Or(z3.And(n.min_total_cost == o.min_total_cost, veq(n.min_ctree, o.min_ctree)),
                         z3.And(n.min_total_cost == total, veq(n.min_ctree, t))), 'post')
        ctx.oblige('[C02] options do not change', z3.And(n.disable_shared_inds == o.disable_shared_inds, n.n_leaves == o.n_leaves, n.n_tensors == o.n_tensors), 'post')
    return Unit('infinite_memory::Optimizer::update', ['C02', 'C03', 'C04', 'C27'], body, contracts=contracts_update(st),
                loops={r'tnco::optimize::infinite_memory::optimizer::Optimizer::update#while': Loop()},
                opts={'throw': 'violation', 'opaque_call': prng_call}, lang='c++release', timeout=20000)

# ---------------------------------------------------------------- finite width
FIN = ('rec', 'Optimizer', base_fields({'max_number_new_slices': 'int', 'width_cache': ('rec', 'WidthCache', {'width': ('vec', 'real')}),
        'dims_cache': ('rec', 'DimsCache', {'log2_dims': ('var', ['real', ('vec', 'real')])}), 'skip_slices': ('opt', 'set'), 'slices': 'set', 'min_slices': 'set'}))

def skipset(o): return z3.If(o.skip_slices.has, o.skip_slices.val.mem, EMPTY)

def w_mono(name, pairs):
    """Lemma (widths are sums of non-negative logarithms): a smaller set is not wider; instances only."""
    def f(i):
        return z3.And(*[z3.Implies(subset(a(i), b(i)), W(a(i)) <= W(b(i))) for a, b in pairs])
    return FA(name, I, f)

def dims_cache_ok(o, g):
    d = o.dims_cache.log2_dims
    return ('dims cache', z3.And(z3.Or(d.tag == 0, d.tag == 1), z3.Implies(d.tag == 1, d.alts[1].len == g.ninds)))

def width_inv(it, st):
    """[C05] every tensor fits after slicing; width cache; forbidden slices are not sliced."""
    o = it.read(st.this); t, g = o.ctree, st.g
    mw = o.p_cmodel.max_width
    n = t.nodes.len
    return [('slices have n_inds positions', z3.And(o.slices.size == g.ninds, o.min_slices.size == g.ninds, z3.Implies(o.skip_slices.has, o.skip_slices.val.size == g.ninds))),
            ('[C05] width cache: one width per node', o.width_cache.width.len == n),
            ('[C05] width cache', FA('wcache', I, lambda i: z3.Implies(rng(i, 0, n), S(o.width_cache.width.el, i) == W(inds_(t, i))))),
            ('[C05] every tensor fits within max_width after slicing', FA('fits', I, lambda i: z3.Implies(rng(i, 0, n), W(set_diff(inds_(t, i), o.slices.mem)) <= mw))),
            ('[C05] forbidden indices are not sliced', set_inter(o.slices.mem, skipset(o)) == EMPTY),
            ('options do not change', z3.And(mw == st.o0.p_cmodel.max_width, o.skip_slices.has == st.o0.skip_slices.has, o.skip_slices.val.mem == st.o0.skip_slices.val.mem,
                                             o.max_number_new_slices == st.o0.max_number_new_slices)), dims_cache_ok(o, g)]

def slices_post(t, g, skip, mw, r):
    n = t.nodes.len
    feas = None
    return [('slices have n_inds positions', r.size == g.ninds),
            ('[C05] forbidden indices are not sliced', set_inter(r.mem, skip) == EMPTY),
            ('[C05] every tensor fits within max_width after slicing', FA('fits_new', I, lambda i: z3.Implies(rng(i, 0, n), W(set_diff(inds_(t, i), r.mem)) <= mw)))]

def slices_feasible(t, skip, mw):
    return FA('feasible', I, lambda i: z3.Implies(rng(i, 0, t.nodes.len), W(set_inter(inds_(t, i), skip)) <= mw))

def unit_fin_update():
    st = St(); names = Names()
    def w_lemmas(it):
        o = it.read(st.this); t = o.ctree
        return []
    class Loop:
        name = 'walk from a leaf to the root'
        def inv(self, it):
            o = it.read(st.this); t, g = o.ctree, st.g
            pos = names.find(it, it.cur_loop, ['pos_B'], I)
            if pos is None: return []
            B = it.read(pos); it.ctx.terms.append(B)
            it.ctx.terms.append(par(t.nodes, B))
            r = opt_inv(it, st, stale=par(t.nodes, B)) + width_inv(it, st)
            r.append(('position of an inner node', rng(B, g.nl, t.nodes.len)))
            tot = names.find(it, it.cur_loop, ['total_cost'], R)
            if tot is not None:
                sum_axioms(it.ctx, o.cost_cache.contraction_cost.el)
                r.append(('[C07] running total cost', it.read(tot) == SUM(o.cost_cache.contraction_cost.el)))
            return r
        def havoc(self, it): st.asked = None; it.swaps = 0
        def step(self, it):
            o = it.read(st.this); sl = o.slices.mem; t = o.ctree
            if z3.is_expr(st.head_slices) and sl.get_id() != st.head_slices.get_id():
                old = st.head_slices
                it.ctx.assume(w_mono('mono_slices', [(lambda i: set_diff(inds_(t, i), sl), lambda i: set_diff(inds_(t, i), old))]))
    class Head(Loop):
        def havoc(self, it):
            Loop.havoc(self, it); st.head_slices = it.read(st.this).slices.mem
    class Pick:
        """random choice of new slices"""
        name = 'random new slices'
        def locals(self, it):
            k = it.cur_loop
            ns = names.find(it, k, ['new_slices'], 'set')
            w = names.find(it, k, ['new_sliced_width_B'], R)
            npos = names.find(it, k, ['n_pos'], I)
            pos = names.find(it, k, ['pos'], 'vec')
            nb = names.find(it, k, ['new_inds_B'], 'set', modified=False)
            return ns, w, npos, pos, nb
        def begin(self, it): self.st0 = None
        def inv(self, it):
            o = it.read(st.this); g = st.g
            L = self.locals(it)
            if any(x is None for x in L): return []
            ns, w, npos, pos, nb = [it.read(x) for x in L]
            it.ctx.terms.append(npos); it.ctx.terms.append(npos - 1)
            left = lambda j: rng(j, 0, npos)
            return [('new slices have n_inds positions', ns.size == g.ninds),
                    ('[C05] old slices are kept', subset(o.slices.mem, ns.mem)),
                    ('[C05] forbidden indices are not sliced', set_inter(ns.mem, skipset(o)) == EMPTY),
                    ('number of candidates left', z3.And(0 <= npos, npos <= pos.len)),
                    ('candidates are indices of the new tensor', FA('cand', I, lambda j: z3.Implies(left(j), z3.And(rng(S(pos.el, j), 0, g.ninds), S(nb.mem, S(pos.el, j)))))),
                    ('[C05] candidates are not sliced and not forbidden', FA('cand2', I, lambda j: z3.Implies(left(j), z3.And(z3.Not(S(ns.mem, S(pos.el, j))), z3.Not(S(skipset(o), S(pos.el, j))))))),
                    ('[C05] candidates are distinct', FA('cand3', [I, I], lambda j, k: z3.Implies(z3.And(left(j), left(k), j != k), S(pos.el, j) != S(pos.el, k)))),
                    ('[C05] running width', w == W(set_diff(nb.mem, ns.mem)))]
    def cache(it, t, args, n):
        """contract of the finite-width CostCache constructor: the caches of the given tree, computed from scratch"""
        if 'CostCache' in t and len(args) == 3:
            ctx = it.ctx
            tr = it.rv(args[0]); sl = it.rv(args[2]); g = st.g
            for nm, f in ctree_inv(tr, g): ctx.oblige('[C03] CostCache is built from a valid contraction tree: ' + nm, f, 'call-pre')
            r = mk(('rec', 'CostCache', {'partial_cost': ('vec', 'real'), 'contraction_cost': ('vec', 'real')}), 'newcache', ctx.fresh)
            for nm, f in ccost_ok(tr, g, r.contraction_cost, sl.mem) + partial_ok(tr, g, r.partial_cost, r.contraction_cost): ctx.assume(f)
            ctx.assume(S(r.partial_cost.el, tr.nodes.len - 1) == SUM(r.contraction_cost.el))
            return r
    def get_slices(it, args, this):
        ctx = it.ctx
        v = [it.read(a) if isinstance(a, LV) else a for a in args]
        o = it.read(st.this); t, g = v[0], st.g; skip = z3.If(v[4].has, v[4].val.mem, EMPTY); mw = v[3]
        for nm, f in wf(t.nodes, g.nl, g.rank) + sizes_ok(t, g): ctx.oblige('get_slices is called on a valid tree: ' + nm, f, 'call-pre')
        ctx.oblige('[C05] get_slices: width cache', FA('gsw', I, lambda i: z3.Implies(rng(i, 0, t.nodes.len), S(v[6].el, i) == W(inds_(t, i)))), 'call-pre')
        ctx.oblige('get_slices: one width per node', v[6].len == t.nodes.len, 'call-pre')
        ctx.assume(w_mono('mono_skip', [(lambda i: set_inter(inds_(t, i), skip), lambda i: set_diff(inds_(t, i), o.slices.mem))]))
        ctx.oblige('[C05] get_slices: the indices that may be sliced suffice', slices_feasible(t, skip, mw), 'call-pre')
        r = mk('set', 'slices_new', ctx.fresh)
        for nm, f in slices_post(t, g, skip, mw, r): ctx.assume(f)
        return r
    def body(it):
        fn = it.ast.find1(r'tnco::optimize::finite_width::greedy::optimizer::Optimizer<.*>::update\([^{]*$')
        ctx = it.ctx
        o = mk(FIN, 'this', ctx.fresh); st.g = g = ghost(it)
        st.t0 = o.ctree; st.o0 = o; st.slices = lambda o: o.slices.mem; st.head_slices = None
        st.this = it.new_cell('this', o)
        st.dis = ctx.decide(o.disable_shared_inds)
        ctx.assume(o.n_leaves == g.nl); ctx.assume(o.n_tensors == o.ctree.nodes.len); ctx.assume(o.max_number_new_slices >= 0)
        for nm, f in opt_inv(it, st) + width_inv(it, st): ctx.assume(f)
        assume_all(ctx, dims_ok(o.ctree, g))
        lemma_total(ctx, o)
        us = ctx.fresh_bool('update_slices')
        ctx.cover('update: precondition')
        it.call_fn(fn, [it.new_cell('prob', Rec('Probability', {})), us], st.this)
        ctx.cover('update: exit')
        n = it.read(st.this); t = n.ctree
        for nm, f in opt_inv(it, st) + width_inv(it, st): ctx.oblige('after update: ' + nm if not nm.startswith('[') else nm[:6] + 'after update: ' + nm[6:], f, 'post')
        total = S(n.cost_cache.partial_cost.el, t.nodes.len - 1)
        ctx.oblige('[C04] the best cost never increases', n.min_total_cost <= o.min_total_cost, 'post')
        ctx.oblige('[C04] the best cost is not larger than the current cost', z3.Or(g.nl == 1, n.min_total_cost <= total), 'post')
        same = z3.And(n.min_total_cost == o.min_total_cost, veq(n.min_ctree, o.min_ctree), n.min_slices.mem == o.min_slices.mem)
        cur = z3.And(n.min_total_cost == total, veq(n.min_ctree, t), n.min_slices.mem == n.slices.mem)
        ctx.oblige('[C04,C05] the best is either unchanged or the current tree with its slices and cost', z3.Or(same, cur), 'post')
        ctx.oblige('[C02] options do not change', z3.And(n.disable_shared_inds == o.disable_shared_inds, n.n_leaves == o.n_leaves, n.n_tensors == o.n_tensors), 'post')
    cs = contracts_update(st, finite=True)
    cs[r'tnco::optimize::finite_width::greedy::utils::get_slices'] = get_slices
    up = r'tnco::optimize::finite_width::greedy::optimizer::Optimizer::update'
    return Unit('finite_width::greedy::Optimizer::update', ['C02', 'C03', 'C04', 'C05', 'C27'], body, contracts=cs,
                loops={up + '#while#0': Head(), up + '#while#1': Pick()},
                opts={'throw': 'violation', 'opaque_call': prng_call, 'construct': cache}, lang='c++release', timeout=20000)
