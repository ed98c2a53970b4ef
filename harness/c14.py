"""C14 at run time: random contraction paths."""
from .nets import *
from .c13 import run
RULE = 'random networks with several components, scalars, dangling indices, hyper-indices, seeds; non-trivial: at least three tensors'
CONTRACTS = ['get_random_contraction_path: every component contracted to one tensor, only tensors sharing an index, no tensor twice, deterministic per seed, merged with/without autocompletion']
nontrivial = lambda c: len(c['net']['ts']) >= 3
def cases(rng, tier):
    while True:
        k = rng.randint(1, 3); ts = []; out = []
        for j in range(k):
            net = random_net(rng, n_ts=rng.choice([1, 1, 2, 3, 4, 6, 9]), connected=rng.random() < .8)
            f = lambda x: 'c%d%s' % (j, x)
            ts += [[f(x) for x in xs] for xs in net['ts']]; out += [f(x) for x in net['out']]
        if rng.random() < .2: ts.append([])
        if rng.random() < .15: ts = [xs for xs in ts] + [list(ts[0])]
        rng.shuffle(ts)
        yield dict(net=dict(ts=ts, out=out, dims=2), seed=rng.choice([0, 0, 1, 2 ** 40, rng.randrange(10 ** 6)]))
def check(c):
    from tnco.utils.tn import get_random_contraction_path as g
    ts = c['net']['ts']; n = len(ts); comps = [frozenset(x) for x in components(ts)]
    def shares(path, upto=None):
        """every step contracts tensors sharing an index (indices needed elsewhere are kept)"""
        cnt = Counter(x for xs in ts for x in set(xs)); pool = [frozenset(xs) for xs in ts]
        for k, (x, y) in enumerate(path[:upto]):
            a, b = pool[x], pool[y]
            need(a & b, 'step %d contracts tensors without a common index' % k)
            z = set(a ^ b)
            for i in a & b:
                cnt[i] -= 1
                if cnt[i] > 1: z.add(i)
            for q in sorted((x, y), reverse=True): pool.pop(q)
            pool.append(frozenset(z))
    sep = g(ts, merge_paths=False, seed=c['seed'])
    used = []
    for p in sep:
        steps, left = run(n, p)
        shares(p)
        tops = [t for t in left if len(t) > 1]
        need(len(tops) <= 1, 'a component path leaves %d tensors' % len(tops))
        used += tops
    need(sorted(map(sorted, used)) == sorted(sorted(x) for x in comps if len(x) > 1), 'component paths cover %s, components %s' % (used, comps))
    m = g(ts, autocomplete=False, seed=c['seed'])
    steps, left = run(n, m); shares(m)
    need(set(left) == set(comps), 'the path leaves %s, components %s' % (left, comps))
    full = g(iter([tuple(x) for x in ts]), seed=c['seed'])
    s2, l2 = run(n, full); need(len(l2) == 1 or n == 0, 'the autocompleted path leaves %d tensors' % len(l2))
    need([frozenset(s) for s in s2][:len(steps)] == [frozenset(s) for s in steps], 'autocompletion changes the path')
    need(g(ts, seed=c['seed']) == full and g(ts, merge_paths=False, seed=c['seed']) == sep, 'another path for the same seed')
    if n >= 3:
        for _ in range(4): need(g(ts, seed=c['seed']) == full, 'another path for the same seed')
