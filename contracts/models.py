"""Contracts of the cost models (C06) and of the acceptance rules (C07)."""
import z3
from vcgen.core import *
from vcgen.vals import *
from vcgen.run import Unit
from vcgen.cxxexec import LV, LOG2, POWI, POWR, CARD
from .tree import rng
from . import bitset

AII = z3.ArraySort(I, I)
PROD = z3.Function('PROD', SET, AII, R)      # product of the dimensions of a finite set of indices
WSUM = z3.Function('WSUM', SET, AII, R)      # sum of the log2 of the dimensions of a finite set of indices
DIMS = ('var', ['int', ('vec', 'int')])
S = z3.Select

def sums(ctx, s, k, d):
    """Definition of the finite product and sum: one more element."""
    ins = z3.Store(s, k, z3.BoolVal(True))
    ctx.assume(z3.Implies(z3.Not(S(s, k)), z3.And(PROD(ins, d) == PROD(s, d) * z3.ToReal(S(d, k)), WSUM(ins, d) == WSUM(s, d) + LOG2(z3.ToReal(S(d, k))))))
def sums0(ctx, d): ctx.assume(z3.And(PROD(EMPTY, d) == 1, WSUM(EMPTY, d) == 0))

def cost_of(dims, mem):
    return z3.If(dims.tag == 0, POWI(z3.ToReal(dims.alts[0]), CARD(mem)), PROD(mem, dims.alts[1].el))
def width_of(dims, mem):
    return z3.If(dims.tag == 0, LOG2(z3.ToReal(dims.alts[0])) * z3.ToReal(CARD(mem)), WSUM(mem, dims.alts[1].el))
def rmin(a, b): return z3.If(a < b, a, b)

class Acc:
    """inds.visit(...) accumulates over the visited indices, in whatever order."""
    name = 'sum / product over the indices'
    done = True
    def __init__(self, st): self.st = st
    def inv(self, it, done):
        st = self.st; d = st.dims.alts[1].el
        k = it.modsets.get(it.cur_loop, [])
        live = set(l.cell for l in it.env.values())
        cs = [LV(m[0]) for m in k if m[0] in live and it.cells[m[0]] is not None]
        if not cs: return []
        if len(cs) != 1: raise OutOfFragment('one accumulator expected, %d found' % len(cs))
        v = it.read(cs[0])
        sums0(it.ctx, d)
        if getattr(it, 'cur_elem', None) is not None:
            base = done.arg(0) if z3.is_app(done) and done.decl().kind() == z3.Z3_OP_STORE else None
            if base is not None: sums(it.ctx, base, it.cur_elem, d)
        return [('accumulator', v == (PROD(done, d) if st.kind == 'cost' else WSUM(done, d)))]

class St: pass

def pre(it, st, sets):
    """bitsets of one size with members below it, positive dimensions for each position"""
    ctx = it.ctx
    n = ctx.fresh_int('n_inds'); ctx.assume(n >= 0)
    d = st.dims = mk(DIMS, 'dims', ctx.fresh)
    ctx.assume(z3.Or(d.tag == 0, d.tag == 1)); ctx.assume(z3.Implies(d.tag == 0, d.alts[0] >= 1))
    ctx.assume(z3.Implies(d.tag == 1, d.alts[1].len >= n)); ctx.assume(FA('dims', I, lambda i: z3.Implies(rng(i, 0, d.alts[1].len), S(d.alts[1].el, i) >= 1)))
    out = []
    for nm in sets:
        s = mk('set', nm, ctx.fresh); ctx.assume(s.size == n)
        ctx.assume(FA('members_' + nm, I, (lambda s: lambda k: z3.Implies(S(s.mem, k), rng(k, 0, n)))(s)))
        out.append(s)
    return out, d, n

def model(it, sparse, finite, n):
    ctx = it.ctx
    f = {}
    if finite:
        f['max_width'] = ctx.fresh_real('max_width')
    if sparse:
        s = mk('set', 'sparse_inds', ctx.fresh); ctx.assume(s.size == n)
        ctx.assume(FA('members_sparse', I, lambda k: z3.Implies(S(s.mem, k), rng(k, 0, n))))
        p = ctx.fresh_int('n_projs'); ctx.assume(p >= 1)
        f['sparse_inds'], f['n_projs'] = s, p
    return Rec('CostModel', f)

def spec_cost(m, dims, u):
    if 'sparse_inds' not in m.fields: return cost_of(dims, u)
    sp = m.sparse_inds.mem
    return cost_of(dims, set_diff(u, sp)) * rmin(cost_of(dims, set_inter(u, sp)), z3.ToReal(m.n_projs))
def spec_width(m, dims, u):
    if 'sparse_inds' not in m.fields: return width_of(dims, u)
    sp = m.sparse_inds.mem
    return width_of(dims, set_diff(u, sp)) + rmin(width_of(dims, set_inter(u, sp)), LOG2(z3.ToReal(m.n_projs)))

def cm(mode, sparse, meth): return r'^tnco::optimize::%s::cost_model::%s::CostModel<[^{]*>::%s\([^{]*\) const$' % (mode, 'simple_sparse_inds' if sparse else 'simple', meth)

def unit_cost(mode, sparse):
    st = St(); st.kind = 'cost'
    finite = mode == 'finite_width'
    def body(it):
        fn = it.ast.find1(cm(mode, sparse, 'contraction_cost'))
        ctx = it.ctx
        (A, Bs, C, sl), d, n = pre(it, st, ['inds_A', 'inds_B', 'inds_C', 'slices'])
        m = model(it, sparse, finite, n)
        ctx.assume(subset(C.mem, set_union(A.mem, Bs.mem)))
        ctx.cover('contraction_cost: precondition')
        this = it.new_cell('this', m)
        r = it.call_fn(fn, [A, Bs, C, d] + ([sl] if finite else []), this)
        r = it.read(r) if isinstance(r, LV) else r
        ctx.cover('contraction_cost: exit')
        u = set_union(A.mem, Bs.mem)
        if finite: u = set_union(u, sl.mem)
        ctx.oblige('[C06] the cost is the product of the dimensions of the indices of the operands%s%s' % (' and of the slices' if finite else '', ', sparse indices capped by n_projs' if sparse else ''), coerce(r, R) == spec_cost(m, d, u), 'post')
        ctx.oblige('the cost model is not modified', veq(m, it.read(this)) if m.fields else z3.BoolVal(True), 'post')
    return Unit('%s::%s::CostModel::contraction_cost' % (mode, 'simple_sparse_inds' if sparse else 'simple'), ['C06'], body, contracts={r'tnco::bitset::Bitset::visit': bitset.visit},
                loops={r'.*::get_cost#visit': Acc(st)}, opts={'throw': 'violation'}, lang='c++')

def unit_width(sparse):
    st = St(); st.kind = 'width'
    def body(it):
        fn = it.ast.find1(cm('finite_width', sparse, 'width'))
        ctx = it.ctx
        (A,), d, n = pre(it, st, ['inds'])
        m = model(it, sparse, True, n)
        ctx.cover('width: precondition')
        r = it.call_fn(fn, [A, d], it.new_cell('this', m))
        r = it.read(r) if isinstance(r, LV) else r
        ctx.cover('width: exit')
        ctx.oblige('[C06] the width is the log2 of the size of the tensor%s' % (' (sparse indices capped by n_projs)' if sparse else ''), coerce(r, R) == spec_width(m, d, A.mem), 'post')
    return Unit('finite_width::%s::CostModel::width' % ('simple_sparse_inds' if sparse else 'simple'), ['C06'], body, contracts={r'tnco::bitset::Bitset::visit': bitset.visit},
                loops={r'.*::get_width#visit': Acc(st)}, opts={'throw': 'violation'}, lang='c++')

def unit_delta(sparse):
    st = St(); st.kind = 'width'
    def body(it):
        fn = it.ast.find1(cm('finite_width', sparse, 'delta_width'))
        ctx = it.ctx
        (A,), d, n = pre(it, st, ['inds'])
        m = model(it, sparse, True, n)
        p = ctx.fresh_int('pos'); ctx.assume(rng(p, 0, n)); ctx.terms.append(p)
        ctx.cover('delta_width: precondition')
        r = it.call_fn(fn, [A, d, p], it.new_cell('this', m))
        r = it.read(r) if isinstance(r, LV) else r
        ctx.cover('delta_width: exit')
        new = z3.Store(A.mem, p, z3.Not(S(A.mem, p)))
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        el = d.alts[1].el
        def step(x):
            """x with and without p: definition of the finite sum and of the cardinality"""
            lo, hi = z3.Store(x, p, F), z3.Store(x, p, T)
            ctx.assume(WSUM(hi, el) == WSUM(lo, el) + LOG2(z3.ToReal(S(el, p)))); ctx.assume(CARD(hi) == CARD(lo) + 1)
            ctx.lemma('with or without', lambda a, k: z3.And(z3.Implies(S(a, k), z3.Store(a, k, z3.BoolVal(True)) == a), z3.Implies(z3.Not(S(a, k)), z3.Store(a, k, z3.BoolVal(False)) == a)), (x, p))
        if not sparse: step(A.mem)
        else:
            sp = m.sparse_inds.mem
            rest, new_rest = set_diff(A.mem, sp), set_diff(new, sp)
            com, new_com = set_inter(A.mem, sp), set_inter(new, sp)
            step(rest); step(A.mem)
            ctx.lemma('toggle outside', lambda a, s, k: z3.Implies(z3.Not(S(s, k)), z3.And(set_diff(z3.Store(a, k, z3.Not(S(a, k))), s) == z3.Store(set_diff(a, s), k, z3.Not(S(a, k))), set_inter(z3.Store(a, k, z3.Not(S(a, k))), s) == set_inter(a, s), S(set_diff(a, s), k) == S(a, k))), (A.mem, sp, p))
            ctx.lemma('toggle inside', lambda a, s, k: z3.Implies(S(s, k), set_diff(z3.Store(a, k, z3.Not(S(a, k))), s) == set_diff(a, s)), (A.mem, sp, p))
            # the two sums of which the function returns the difference: one is written over A, one over A without the sparse indices
            ctx.assume(z3.Implies(z3.Not(S(sp, p)), True))
        ctx.oblige('[C06] the change of the width is the difference of the two widths', coerce(r, R) == spec_width(m, d, new) - spec_width(m, d, A.mem), 'post')
    return Unit('finite_width::%s::CostModel::delta_width' % ('simple_sparse_inds' if sparse else 'simple'), ['C06'], body, contracts={r'tnco::bitset::Bitset::visit': bitset.visit},
                loops={r'.*::get_width#visit': Acc(st)}, opts={'throw': 'violation'}, lang='c++')

def units_c06():
    r = [lambda mode=mode, sp=sp: unit_cost(mode, sp) for mode in ('infinite_memory', 'finite_width') for sp in (False, True)]
    r += [lambda sp=sp: unit_width(sp) for sp in (False, True)] + [lambda sp=sp: unit_delta(sp) for sp in (False, True)]
    return r

# ---------------------------------------------------------------- acceptance rules (C07)
def unit_prob(kind):
    def body(it):
        fn = it.ast.find1(r'tnco::optimize::prob::%s::Probability<double>::operator\(\)\(' % kind)
        ctx = it.ctx
        delta, old = ctx.fresh_real('delta_cost'), ctx.fresh_real('old_cost')
        ctx.assume(old > 0); ctx.assume(old + delta >= 0)
        beta = ctx.fresh_real('beta'); ctx.assume(beta >= 0)
        ctx.cover('probability: precondition')
        this = it.new_cell('this', Rec('Probability', {'beta': beta}))
        def call(dl):
            r = it.call_fn(fn, [dl, old], this)
            return coerce(it.read(r) if isinstance(r, LV) else r, R)
        r = call(delta)
        ctx.cover('probability: exit')
        # contract of std::pow on a base not smaller than one and an exponent not larger than zero
        x, e = 1 + delta / old, -beta
        ctx.lemma('positive ratio', lambda a, b: z3.Implies(z3.And(a > 0, b > 0), 1 + a / b >= 1), (delta, old))
        ctx.assume(z3.Implies(z3.And(x >= 1, e <= 0), z3.And(POWR(x, e) > 0, POWR(x, e) <= 1)))
        ctx.assume(z3.Implies(e == 0, POWR(x, e) == 1))
        ctx.oblige('[C07] a move that does not increase the cost is always accepted', z3.Implies(delta <= 0, r == 1), 'post')
        ctx.oblige('[C07] the result is a probability', z3.And(0 <= r, r <= 1), 'post')
        if kind == 'greedy': ctx.oblige('[C07] greedy: a move that increases the cost is never accepted', z3.Implies(delta > 0, r == 0), 'post')
        if kind == 'mh':
            ctx.oblige('[C07] Metropolis-Hastings: (new cost / old cost)^-beta', z3.Implies(delta > 0, r == POWR(x, e)), 'post')
            ctx.oblige('[C07] Metropolis-Hastings at infinite temperature accepts every move', z3.Implies(beta == 0, r == 1), 'post')
        if kind == 'base': ctx.oblige('[C07] every move is accepted', r == 1, 'post')
    return Unit('prob::%s::Probability::operator()' % kind, ['C07'], body, opts={'throw': 'violation'}, lang='c++')

def units_c07(): return [lambda k=k: unit_prob(k) for k in ('base', 'greedy', 'mh')]
def units(): return [u() for u in units_c06() + units_c07()]
def units6(): return [u() for u in units_c06()]
def units7(): return [u() for u in units_c07()]
