"""C07 at run time: acceptance probabilities."""
from .common import *
from .ff import exact, value
RULE = 'changes of cost of every sign and magnitude (relative 1e-18 .. 1e18, and a decrease down to the whole cost), current costs 1e-3 .. 1e30, beta 0 .. 1e6, all cost types; non-trivial: non-zero change'
CONTRACTS = ['Probability(delta, old) == 1 for delta <= 0', 'in [0, 1] otherwise', 'base 1, greedy 0, Metropolis-Hastings (1 + delta/old)^-beta', 'monotone in the increase and in beta']
CT = ['float32', 'float64', 'float128', 'float1024']
nontrivial = lambda c: c['rel'] != 0
def cases(rng, tier):
    while True:
        old = 10 ** rng.uniform(-3, 30)
        r = rng.random()
        rel = 0. if r < .1 else -rng.choice([1., rng.random(), 10 ** rng.uniform(-18, 0)]) if r < .4 else 10 ** rng.uniform(-18, 7)
        yield dict(ct=rng.choice(CT), old=old, rel=rel, beta=rng.choice([0., 1., .5, 2., 10 ** rng.uniform(-3, 6), 10 ** rng.uniform(-3, 2), float(rng.randint(0, 200))]), k=rng.choice([1.0001, 1.5, 10.]))
def check(c):
    from tnco.optimize import prob as P
    ct = c['ct']
    if ct == 'float32':
        import struct
        f = lambda v: struct.unpack('f', struct.pack('f', v))[0]
    else: f = float
    old = f(c['old']); delta = f(c['old'] * c['rel'])
    if delta < -old: delta = -old
    if ct == 'float1024':
        from tnco_core import float1024 as T
    else: T = lambda x: x
    def val(p, d, o):
        r = p(T(d), T(o)); return float(r)
    base, greedy, mh = P.BaseProbability(cost_type=ct), P.Greedy(cost_type=ct), P.MetropolisHastings(c['beta'], cost_type=ct)
    for nm, p in ('base', base), ('greedy', greedy), ('mh', mh):
        v = val(p, delta, old)
        need(v == v and 0 <= v <= 1, '%s(%r, %r) = %r is not a probability' % (nm, delta, old, v))
        if delta <= 0: need(v == 1, '%s(%r, %r) = %r for a move that does not increase the cost' % (nm, delta, old, v))
    need(val(base, delta, old) == 1, 'base rule = %r' % val(base, delta, old))
    if delta > 0:
        need(val(greedy, delta, old) == 0, 'greedy rule = %r for delta %r' % (val(greedy, delta, old), delta))
        v = val(mh, delta, old); x = Fraction(delta) / Fraction(old)
        lg = math.log1p(float(x)) if x < 1e15 else math.log(float(x))
        want = math.exp(max(-745., -c['beta'] * lg))
        eps = dict(float32=1.2e-7, float64=2.3e-16, float128=2e-18, float1024=1e-40)[ct]
        # (1 + x) is rounded to the type before the power is taken
        tol = want * (4 * eps * (1 + c['beta']) + 1e-12 * (1 + c['beta'] * lg) + 4 * eps) + 1e-37 * (ct == 'float32') + 1e-300
        if eps * c['beta'] < .01: need(abs(v - want) <= tol * 4, 'Metropolis-Hastings(%r, %r; beta=%r) = %r, expected %r' % (delta, old, c['beta'], v, want))
        d2 = f(delta * c['k'])
        if d2 > delta and d2 < 1e37: need(val(mh, d2, old) <= v * (1 + 8 * eps * (1 + c['beta'])) + 1e-37 * (ct == 'float32'), 'grows with the increase: %r -> %r' % (v, val(mh, d2, old)))
        b2 = c['beta'] * c['k'] + .01
        need(val(P.MetropolisHastings(b2, cost_type=ct), delta, old) <= v * (1 + 8 * eps), 'grows with beta')
    need(mh.beta == c['beta'], 'beta')
    need(val(P.MetropolisHastings(cost_type=ct), abs(delta), old) == 1, 'beta = 0 by default')
