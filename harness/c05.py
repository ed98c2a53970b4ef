"""C05 at run time: every tensor fits after slicing; forbidden indices are never sliced."""
from .nets import *
RULE = 'random connected networks and paths, width-limited optimizer with random limits, forbidden indices, sparse indices and numbers of new slices; non-trivial: at least three tensors'
CONTRACTS = ['width-limited Optimizer (construction and update): width of every tensor without the slices, current and best; slices & skip_slices empty; the number of slices added']
nontrivial, shrink = moved, shrink_run
def cases(rng, tier):
    while True: yield random_run(rng, finite=True, tier=tier)
def check(c):
    r = Run(c); net = r.net
    inds = frozenset(all_inds(net))
    for k, s in enumerate(r.states()):
        for which, sl in (('cur', s['slices']), ('best', s['best_slices'])):
            need(sl <= inds, 'slices are not indices of the network')
            need(not (sl & frozenset(c['skip'])), 'after %d steps (%s): forbidden indices %s are sliced' % (k, which, sorted(sl & frozenset(c['skip']))))
            for i, xs in enumerate(s[which][2]):
                w = ref_width(net, xs - sl, r.sparse, r.n_projs)
                need(w <= r.max_width + 1e-5, 'after %d steps (%s): tensor %d has width %r > %r after slicing %s' % (k, which, i, w, r.max_width, sorted(sl)))
    need(r.opt.slices == s['slices'] and r.opt.min_slices == s['best_slices'], 'slices reported differently from those used')
