"""C06 at run time: cost models against exact integer products."""
from .nets import *
from .ff import exact
RULE = 'random indices, dimensions (one for all, or per index), sparse indices, slices, all cost and width types; non-trivial: at least two indices'
CONTRACTS = ['SimpleCostModel.contraction_cost == product of the dimensions of all indices involved (sparse part capped)', 'SimpleCostModel.width == log2 of the capped product', 'delta_width == difference of widths']
CT = ['float32', 'float64', 'float128', 'float1024']; WT = ['float32', 'float64']
nontrivial = lambda c: len(set(c['A'] + c['B'])) >= 2
def cases(rng, tier):
    while True:
        big = rng.random() < .06
        n = rng.choice([0, 1, 2, 3, 5, 8, 12, 18]) if not big else rng.choice([60, 130, 700, 1500])
        pool = ['x%d' % i for i in range(n)]
        ct = rng.choice(CT)
        if ct == 'float32': maxd, n_max = 4, 16
        else: maxd, n_max = 9, 10 ** 9
        pool = pool[:n_max]
        if big and ct in ('float64', 'float128'): maxd = 2 if ct == 'float64' else 5
        if big and ct == 'float64': pool = pool[:900]
        k = lambda p: [x for x in pool if rng.random() < p]
        A, B = k(.6), k(.5)
        for l in (A, B): rng.shuffle(l)
        C = [x for x in dict.fromkeys(A + B) if rng.random() < .5]
        uni = rng.random() < .4
        dims = rng.randint(1, maxd) if uni else {x: rng.randint(1, maxd) for x in pool}
        c = dict(ct=ct, wt=rng.choice(WT), A=A, B=B, C=C, dims=dims, slices=[x for x in pool if rng.random() < .25], sparse=None, n_projs=None, finite=rng.random() < .6)
        if rng.random() < .5:
            c['sparse'] = [x for x in pool if rng.random() < .4]; c['n_projs'] = rng.choice([1, 2, 3, 4, 7, 30, 1000, 10 ** 6])
        yield c
def shrink(c):
    for l in 'A', 'B', 'C', 'slices':
        for x in c[l]: yield dict(c, **{l: [y for y in c[l] if y != x]})
    if c['sparse']:
        for x in c['sparse']: yield dict(c, sparse=[y for y in c['sparse'] if y != x])
EPS = dict(float32=2e-6, float64=1e-13, float128=1e-13, float1024=1e-13)
def check(c):
    net = dict(dims=c['dims']); sp = frozenset(c['sparse']) if c['sparse'] else None
    dims = c['dims']
    kw = dict(cost_type=c['ct'], sparse_inds=c['sparse'], n_projs=c['n_projs'])
    def same_cost(got, want, what):
        g = exact(got) if c['ct'] == 'float1024' else got
        if c['ct'] == 'float1024':
            need(g is not None and abs(g - want) <= Fraction(EPS['float1024']) * want, '%s = %s, expected %s' % (what, str(got)[:60], str(want)[:60]))
        elif want < 10 ** 300: need(close(float(got), float(want), EPS[c['ct']] * (2 + len(c['A']) + len(c['B']))), '%s = %r, expected %d' % (what, got, want))
    if not c['finite']:
        from tnco.optimize.infinite_memory.cost_model import SimpleCostModel
        m = SimpleCostModel(**kw)
        same_cost(m.contraction_cost(c['A'], c['B'], c['C'], dims), ref_cost(net, set(c['A']) | set(c['B']), sp, c['n_projs']), 'contraction_cost')
        return
    from tnco.optimize.finite_width.cost_model import SimpleCostModel
    m = SimpleCostModel(1000., width_type=c['wt'], **kw)
    C = c['C'] if set(c['C']) <= set(c['A']) | set(c['B']) else []
    same_cost(m.contraction_cost(c['A'], c['B'], C, dims, c['slices']), ref_cost(net, set(c['A']) | set(c['B']) | set(c['slices']), sp, c['n_projs']), 'contraction_cost with slices')
    eps = (3e-6 if c['wt'] == 'float32' else 1e-12) * (5 + len(c['A']))
    lg = lambda v: math.log2(v)
    def w(xs): return lg(ref_cost(net, xs, sp, c['n_projs']))
    need(close(m.width(c['A'], dims), w(set(c['A'])), eps) or abs(m.width(c['A'], dims) - w(set(c['A']))) <= eps, 'width = %r, expected %r' % (m.width(c['A'], dims), w(set(c['A']))))
    for x in c['A'][:6]:
        want = w(set(c['A']) - {x}) - w(set(c['A'])); got = m.delta_width(c['A'], dims, x)
        need(abs(got - want) <= eps * 5 + 1e-7 * (c['wt'] == 'float32') * abs(w(set(c['A']))) , 'delta_width(%r) = %r, expected %r' % (x, got, want))
    # the core models (used by the optimizers) agree with the definition on the same bit positions
    from tnco_core import Bitset
    order = tuple(dict.fromkeys(c['A'] + c['B'] + c['slices'] + (list(sp) if sp else [])))
    core = m.__get_core__(order); n = len(order)
    if not n: return
    dd = dims if isinstance(dims, int) else [dims[x] for x in order]
    bs = lambda xs: Bitset(sorted(order.index(x) for x in xs), n)
    need(core.max_width == 1000., 'max_width')
    for x in order[:8]:
        a = set(c['A']); got = core.delta_width(bs(a), dd, order.index(x)); want = w(a ^ {x}) - w(a)
        need(abs(got - want) <= eps * 5 + 1e-7 * (c['wt'] == 'float32') * abs(w(a)) , 'core.delta_width (toggle %r, %s) = %r, expected %r' % (x, 'present' if x in a else 'absent', got, want))
