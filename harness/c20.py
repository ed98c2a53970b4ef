"""C20 at run time: pickling, and an optimizer restored at any point goes through the same states as the original."""
from .nets import *
import pickle, copy
RULE = 'random networks and runs (both optimizers, hyper/sparse indices, sliced or not), saved at a random point (also twice in a row, also through deepcopy), then the same later calls on both; trees, nodes, bitsets, models, rules and contraction trees pickled on their own; non-trivial: at least three tensors'
CONTRACTS = ['pickle.loads(pickle.dumps(x)) == x and behaves identically: Node, Tree, Bitset, ContractionTree, SimpleCostModel, probabilities, both Optimizers', 'the restored optimizer has equal ctree, min_ctree, total_cost, min_total_cost, slices, min_slices, random state after every later step']
nontrivial = moved
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 6 == 5:
            yield dict(kind='small', nl=rng.randint(1, 9), seed=rng.randrange(10 ** 6), net=dict(ts=[0, 0, 0])); continue
        c = random_run(rng, tier=tier); n = sum(s[3] for s in c['script'])
        c.update(kind='run', at=rng.randint(0, n), how=rng.choice(['pickle', 'pickle', 'deepcopy', 'twice', 'proto2']), rep=rng.choice([0, 0, 1, 2]))
        yield c
def shrink(c): return shrink_run(c) if c['kind'] == 'run' else ()
def save(x, how):
    if how == 'deepcopy': return copy.deepcopy(x)
    if how == 'proto2': return pickle.loads(pickle.dumps(x, protocol=2))
    y = pickle.loads(pickle.dumps(x))
    return pickle.loads(pickle.dumps(y)) if how == 'twice' else y
def small(c):
    import tnco_core as core
    from tnco.bitset import Bitset
    from tnco.optimize import prob as P
    rng = random.Random(c['seed'])
    ch, par = random_tree(rng, c['nl']); t = mk_tree(ch, par)
    t2 = save(t, 'pickle'); need(type(t2) is type(t) and t2 == t and links(t2.nodes) == (ch, par), 'Tree changes in pickling')
    for nd in t.nodes:
        n2 = save(nd, 'pickle'); need(type(n2) is type(nd) and n2 == nd and links([n2]) == links([nd]), 'Node changes in pickling')
    n = rng.choice([0, 1, 5, 63, 64, 65, 130, 200]); pos = [i for i in range(n) if rng.random() < .4]
    b = Bitset(pos, n); b2 = save(b, 'pickle')
    need(b2 == b and list(b2.positions()) == pos and len(b2) == n, 'Bitset(%s, %d) changes in pickling' % (pos, n))
    for ct in ('float32', 'float64'):
        if not hasattr(core.optimize.prob, 'BaseProbability_' + ct): continue
        for p in (P.BaseProbability(cost_type=ct), P.Greedy(cost_type=ct), P.MetropolisHastings(rng.choice([0, .1, 1 / 3, 2.75, 1e6, rng.random() * 100]), cost_type=ct)):
            q = save(p, 'pickle'); need(type(q) is type(p) and q == p, '%r changes in pickling' % p)
            if hasattr(p, 'beta'): need(q.beta == p.beta, 'beta %r -> %r' % (p.beta, q.beta))
            for _ in range(5):
                old = rng.choice([1, 3.5, 1e9]); d = (rng.random() * 2 - 1) * old
                need(q(d, old) == p(d, old), '%r answers differently after pickling' % p)
def check(c):
    if c['kind'] == 'small': return small(c)
    r = Run(c)
    from tnco.ctree import ContractionTree
    ct = r.ctree0; ct2 = save(ct, c['how'])
    def same_tree(a, b, what):
        need(type(a) is type(b) and a == b, '%s: not equal after restoring' % what)
        need(links(a.nodes) == links(b.nodes) and list(a.inds) == list(b.inds) and dict(a.dims) == dict(b.dims), '%s: nodes, indices or dimensions differ' % what)
        need(a.path() == b.path() and a.output_inds() == b.output_inds() and a.all_inds() == b.all_inds() and a._inds_order == b._inds_order and a.max_width() == b.max_width(), '%s: answers differ' % what)
    same_tree(ct, ct2, 'contraction tree')
    m2 = save(r.cm, c['how']); xs = list(all_inds(c['net'])); dm = {x: dim(c['net'], x) for x in xs}
    need(type(m2) is type(r.cm), 'cost model')
    for at in ('sparse_inds', 'n_projs', 'cost_type', 'width_type', 'max_width'):
        if hasattr(r.cm, at): need(getattr(m2, at) == getattr(r.cm, at), 'cost model: %s %r -> %r' % (at, getattr(r.cm, at), getattr(m2, at)))
    if hasattr(r.cm, 'width'):
        try: w = r.cm.width(xs, dm)
        except Exception: w = None
        if w is not None: need(m2.width(xs, dm) == w, 'cost model: width differs after restoring')
    core = r.cm.__get_core__(r.order); core2 = save(core, 'pickle'); need(core2 == core and repr(core2) == repr(core), 'core cost model changes in pickling')
    def obs(o):
        q = o._optimizer
        d = dict(tree=r.read(q.ctree), best=r.read(q.min_ctree), cost=float(q.total_cost), best_cost=float(q.min_total_cost), rng=q.prng_state, shared=o.disable_shared_inds, order=o._ctree_cache[3])
        if c['finite']: d.update(slices=o.slices, best_slices=o.min_slices, skip=o.skip_slices)
        return d
    def same(a, b, what):
        x, y = obs(a), obs(b)
        for k in x:
            ok = close(x[k], y[k], 1e-9) if k in ('cost', 'best_cost') else x[k] == y[k]
            need(ok, '%s: %s is %s in the original and %s in the restored optimizer' % (what, k, str(x[k])[:200], str(y[k])[:200]))
    n = 0; twin = None
    def maybe():
        nonlocal twin
        if n == c['at'] or (twin is not None and c['rep'] and (n - c['at']) % c['rep'] == 0):
            src = twin if twin is not None else r.opt
            twin = save(src, c['how'])
            need(type(twin) is type(r.opt), 'type of the restored optimizer')
            same(r.opt, twin, 'restored after %d steps' % n)
            if twin is not None and src is r.opt: need(twin == r.opt, 'the restored optimizer is not equal to the original')
    maybe()
    for kind, beta, upd, k in c['script']:
        for _ in range(k):
            r.step(kind, beta, upd)
            if twin is not None:
                r.step(kind, beta, upd, opt=twin)
                same(r.opt, twin, 'saved after %d steps, after step %d' % (c['at'], n + 1))
            n += 1
            if n >= c['at']: maybe()
    if twin is not None: same_tree(r.opt.ctree, twin.ctree, 'final tree'); same_tree(r.opt.min_ctree, twin.min_ctree, 'final best tree')
