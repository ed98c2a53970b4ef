"""C03 at run time: total_cost == cost of the current tree (and slices) recomputed from scratch."""
from .nets import *
RULE = 'random connected networks, random paths, both optimizers, with and without slices / sparse indices; non-trivial: at least three tensors'
CONTRACTS = ['Optimizer.total_cost: recomputed from scratch (exact integers) after every update']
nontrivial, shrink = moved, shrink_run
def cases(rng, tier):
    while True: yield random_run(rng, tier=tier)
def check(c):
    r = Run(c); big = 0
    for k, s in enumerate(r.states()):
        t = r.total(s); big = max(big, t)
        need(abs(s['cost'] - t) <= 1e-9 * big, 'after %d steps: total cost %r, recomputed %r (slices %s)' % (k, s['cost'], t, sorted(s['slices'])))
        need(t <= 0 or abs(r.opt.log2_total_cost - math.log2(t)) <= 1e-6 * max(1, big / t), 'after %d steps: log2_total_cost %r, recomputed %r' % (k, r.opt.log2_total_cost, math.log2(t)))
    ok, msg = r.opt.is_valid(return_message=True)
    need(ok, 'is_valid: %s' % msg)
