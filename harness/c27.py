"""C27 at run time: with shared-index contractions required, every contraction of every tree joins tensors sharing an index."""
from .nets import *
RULE = 'random connected networks and paths of shared-index contractions, both optimizers with disable_shared_inds=False; and trees built with check_shared_inds=True from arbitrary paths (rejected exactly when a contraction shares nothing); non-trivial: at least three tensors'
CONTRACTS = ['Optimizer.update: children of every inner node intersect', 'ContractionTree(check_shared_inds=True) and Optimizer(disable_shared_inds=False) reject other trees']
nontrivial = lambda c: len(c['net']['ts']) >= 3
def shrink(c):
    if 'script' in c: yield from shrink_run(c)
def cases(rng, tier):
    while True:
        if rng.random() < .35:
            net = random_net(rng, n_ts=rng.randint(2, 7), connected=rng.random() < .6)
            yield dict(net=net, path=random_path(rng, net, shared=False))
        else:
            c = random_run(rng, tier=tier)
            if not c['disable']: yield c
def disjoint(ch, inds):
    nl = (len(ch) + 1) // 2
    return [i for i in range(nl, len(ch)) if not inds[ch[i][0]] & inds[ch[i][1]]]
def check(c):
    if 'script' in c:
        r = Run(c)
        for k, s in enumerate(r.states()):
            for which in ('cur', 'best'):
                bad = disjoint(s[which][0], s[which][2])
                need(not bad, 'after %d steps (%s): contractions %s join tensors without a common index' % (k, which, bad))
        return
    from tnco.ctree import ContractionTree
    from tnco.optimize.infinite_memory import optimizer as O, cost_model as M
    net = c['net']
    t = ContractionTree(c['path'], net['ts'], net['dims'], output_inds=net['out'])
    ch, par = links(t.nodes)
    bad = disjoint(ch, [frozenset(x) for x in t.inds[:]])
    def accepts(f):
        try: f(); return True
        except ValueError: return False
    need(accepts(lambda: ContractionTree(c['path'], net['ts'], net['dims'], output_inds=net['out'], check_shared_inds=True)) == (not bad), 'ContractionTree(check_shared_inds=True): contractions without common index: %s' % bad)
    ok = t.is_valid(check_shared_inds=True)
    ok = ok[0] if isinstance(ok, tuple) else ok
    need(ok == (not bad), 'is_valid(check_shared_inds=True) = %r, contractions without common index: %s' % (ok, bad))
    need(t.is_valid(), 'is_valid()')
    cm = M.SimpleCostModel(cost_type='float64')
    need(accepts(lambda: O.Optimizer(t, cm, seed=1, disable_shared_inds=False)) == (not bad), 'Optimizer(disable_shared_inds=False): contractions without common index: %s' % bad)
    need(accepts(lambda: O.Optimizer(t, cm, seed=1, disable_shared_inds=True)), 'Optimizer(disable_shared_inds=True) rejects a valid tree')
