"""C02 at run time: after every optimizer step, the current and the best tree are contraction trees of the network."""
from .nets import *
RULE = 'random connected networks (<=16 tensors, hyper-indices, open indices, mixed dimensions), random paths, both optimizers, scripts of updates with all acceptance rules; non-trivial: at least three tensors'
CONTRACTS = ['Optimizer.update (both): exactness of every tensor, unchanged leaves / output / dims, valid links']
nontrivial, shrink = moved, shrink_run
def cases(rng, tier):
    while True: yield random_run(rng, tier=tier)
def check(c):
    r = Run(c); net = c['net']
    dims0 = dict(r.ctree0.dims)
    nl = len(net['ts'])
    for k, s in enumerate(r.states()):
        for which in ('cur', 'best'):
            ch, par, inds = s[which]
            pb = tree_problem(ch, par)
            need(pb is None, 'after %d steps the %s tree is not valid: %s' % (k, which, pb))
            need(len(ch) == 2 * nl - 1, 'number of nodes changed')
            for i in range(nl): need(inds[i] == frozenset(net['ts'][i]), 'after %d steps (%s): leaf %d carries %s' % (k, which, i, sorted(inds[i])))
            ex = ref_exact(ch, par, inds, frozenset(net['out']) & frozenset(all_inds(net)))
            for i in range(len(ch)): need(inds[i] == ex[i], 'after %d steps (%s): tensor %d carries %s, needed outside of it: %s' % (k, which, i, sorted(inds[i]), sorted(ex[i])))
    need(dict(r.opt.ctree.dims) == dims0, 'dimensions changed')
    t = r.opt.ctree
    need([frozenset(x) for x in t.inds[:]] == s['cur'][2], 'Optimizer.ctree reports different tensors than the optimizer holds')
    t = r.opt.min_ctree
    need([frozenset(x) for x in t.inds[:]] == s['best'][2], 'Optimizer.min_ctree reports different tensors than the optimizer holds')
