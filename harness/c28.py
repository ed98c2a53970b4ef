"""C28 at run time: what Optimizer(...).optimize reports."""
from .nets import *
import warnings
RULE = 'random networks (several components, hyper and sparse indices, scalars), with and without a width limit, temperature schedules given as ends or lists, 1 to 3 runs, with and without fusing; non-trivial: at least three tensors'
CONTRACTS = ['app.Optimizer.optimize: one result per run, sorted by cost', 'every result: paths contract each component completely, costs are those of the paths and slices, no sliced tensor is wider than the limit', 'the same seed gives the same results']
nontrivial = lambda c: len(c['net']['ts']) >= 3
def cases(rng, tier):
    while True:
        net = random_net(rng, n_ts=rng.randint(1, 8), connected=rng.random() < .6)
        if rng.random() < .08: net['ts'].append([])
        sp = rng.random() < .2
        yield dict(net=net, width=rng.choice([None, None, 1, 2, 3, 4, 5.5]), fuse=0 if sp else rng.choice([0, 0, 2, 3]), sparse=[x for x in all_inds(net) if rng.random() < .4] if sp else [], n_projs=rng.choice([1, 2, 5, 30]), runs=rng.randint(1, 3), betas=rng.choice(['ends', 'list', 'down']), steps=rng.randint(1, 12), every=rng.choice([1, 3, 10]), seed=rng.randrange(10 ** 6), loaded=rng.random() < .5)
def shrink(c):
    for k, v in (('runs', 1), ('fuse', 0), ('steps', 1), ('sparse', [])):
        if c[k] != v: yield dict(c, **{k: v})
def check(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); _check(c)
def _check(c):
    from tnco.app import app
    from tnco.app.tn import Tensor, TensorNetwork
    net = c['net']; dims = lambda xs: [dim(net, x) for x in xs]
    tn0 = TensorNetwork([Tensor(xs, dims(xs)) for xs in net['ts']], output_inds=net['out'], sparse_inds=c['sparse'])
    kw = dict(n_runs=c['runs'], fuse=c['fuse'], decompose_hyper_inds=False)
    kw.update(dict(betas=(0, 5) if c['betas'] == 'ends' else (50, 1), n_steps=c['steps']) if c['betas'] != 'list' else dict(betas=[.5 * i for i in range(c['steps'])]))
    if c['sparse']: kw['n_projs'] = c['n_projs']
    if c['width'] is not None: kw['update_slices'] = c['every']
    def go():
        o = app.Optimizer(method='sa', max_width=c['width'], n_jobs=1, width_type='float64', cost_type='float64', seed=c['seed'])
        return o.optimize(tn0, **kw)
    tn, res = go()
    need(isinstance(res, list) and len(res) == c['runs'], '%d results for %d runs' % (len(res), c['runs']))
    if not c['fuse']: need([tuple(x) for x in tn.ts_inds] == [tuple(x) for x in net['ts']], 'the network changed although nothing is fused')
    need(tn.output_inds == frozenset(net['out']) and tn.sparse_inds == frozenset(c['sparse']), 'output or sparse indices')
    ts = [frozenset(x) for x in tn.ts_inds]; comps = [x for x in components([list(x) for x in tn.ts_inds]) if ts[x[0]]]; N = len(ts); out = frozenset(net['out'])
    def follow(path, what):
        """members and index sets of every tensor, exactly"""
        pool = [frozenset([i]) for i in range(N)]; made = []
        for st in path:
            x, y = st; need(x != y and 0 <= min(x, y) and max(x, y) < len(pool), '%s: step %s of %s on %d tensors' % (what, st, path, len(pool)))
            a, b = pool[x], pool[y]
            for k in sorted((x, y), reverse=True): pool.pop(k)
            pool.append(a | b); made.append((a, b, a | b))
        return pool, made
    def inds(mem):
        below = frozenset().union(*[ts[i] for i in mem])
        if len(mem) == 1: return below
        return below & (out | frozenset().union(*[ts[i] for i in range(N) if i not in mem]))
    sparse = frozenset(c['sparse']) or None; npj = c['n_projs'] if c['sparse'] else None
    for r in res:
        slices = getattr(r, 'disconnected_slices', [frozenset()] * len(comps))
        if comps: need(len(r.disconnected_paths) == len(r.disconnected_costs) == len(slices) == len(comps), '%d paths for %d components' % (len(r.disconnected_paths), len(comps)))
        need(close(float(r.cost), float(sum(r.disconnected_costs)), 1e-9) or r.cost == sum(r.disconnected_costs), 'total cost %s, component costs %s' % (r.cost, r.disconnected_costs))
        left = [frozenset(x) for x in comps]; merged = Counter()
        if not comps: need(r.cost == 0, 'cost of a network of scalars'); continue
        for p, cost, sl in zip(r.disconnected_paths, r.disconnected_costs, slices):
            pool, made = follow(p, 'component path')
            big = [m for m in pool if len(m) > 1]; need(len(big) <= 1, 'a component path leaves %s' % pool)
            if big: need(big[0] in left, 'a component path contracts %s, components %s' % (sorted(big[0]), comps)); left.remove(big[0])
            else: one = [m for m in left if len(m) == 1]; need(one, 'a component path is empty'); left.remove(one[0])
            want = sum(ref_cost(net, inds(a) | inds(b) | frozenset(sl), sparse, npj) for a, b, m in made)
            need(close(float(cost), want) or cost == want, 'cost %s reported for a path of cost %s' % (cost, want))
            for a, b, m in made: merged[frozenset([a, b])] += 1
            for a, b, m in made:
                need(inds(a) & inds(b), 'tensors %s and %s share no index' % (sorted(a), sorted(b)))
                if c['width'] is not None:
                    for t in (a, b, m):
                        w = ref_width(net, inds(t) - frozenset(sl), sparse, npj)
                        need(w <= c['width'] + 1e-6, 'tensor of %s has width %g after slicing, limit %g' % (sorted(t), w, c['width']))
        pool, made = follow(r.path, 'path'); need(sorted(sorted(m) for m in pool if any(ts[i] for i in m)) == sorted(map(sorted, comps)) or len(pool) == 1, 'the path leaves %s of components %s' % ([sorted(x) for x in pool], comps))
        need(all(Counter(frozenset([a, b]) for a, b, m in made)[k] == v for k, v in merged.items()), 'the path does not contain the contractions of the components')
        if c['width'] is not None: need(r.slices == frozenset().union(*slices), 'slices %s, per component %s' % (r.slices, slices))
    cs = [r.cost for r in res]; need(cs == sorted(cs), 'results are not sorted by cost: %s' % cs)
    tn2, res2 = go()
    need([(r.cost, r.path) for r in res2] == [(r.cost, r.path) for r in res], 'the same seed gives other results')
