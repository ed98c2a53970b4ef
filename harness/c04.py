"""C04 at run time: the remembered best."""
from .nets import *
RULE = 'random connected networks, random paths, both optimizers; non-trivial: at least three tensors'
CONTRACTS = ['Optimizer.min_total_cost / min_ctree / min_slices: monotone, a lower bound of all states seen, cost of the remembered tree, otherwise unchanged']
nontrivial, shrink = moved, shrink_run
def cases(rng, tier):
    while True: yield random_run(rng, tier=tier)
def check(c):
    r = Run(c); prev = None; low = float('inf'); big = 0
    for k, s in enumerate(r.states()):
        t = r.total(s); b = r.total(s, 'best'); big = max(big, t, b); low = min(low, s['cost'])
        need(abs(s['best_cost'] - b) <= 1e-9 * big, 'after %d steps: best cost %r, the best tree costs %r' % (k, s['best_cost'], b))
        need(s['best_cost'] <= low * (1 + 1e-12), 'after %d steps: best cost %r, but a state of cost %r was seen' % (k, s['best_cost'], low))
        if prev:
            need(s['best_cost'] <= prev['best_cost'], 'after %d steps the best cost grew from %r to %r' % (k, prev['best_cost'], s['best_cost']))
            if s['best_cost'] == prev['best_cost']: need(s['best'] == prev['best'] and s['best_slices'] == prev['best_slices'], 'after %d steps the best tree changed although its cost did not' % k)
            else: need(s['best'] == s['cur'] and s['best_slices'] == s['slices'] and s['best_cost'] == s['cost'], 'after %d steps the new best is not the current state' % k)
        prev = s
    need(abs(r.opt.log2_min_total_cost - math.log2(b)) <= 1e-6 * max(1, big / b), 'log2_min_total_cost')
    need(frozenset(r.opt.min_slices) == s['best_slices'] if c['finite'] else True, 'min_slices reported differently')
