"""C16 at run time: fusing small tensors."""
from .dense import *
RULE = 'random networks (hyper-indices, scalars, size-1 dimensions, several components), any width limit, excluded indices, seeds; non-trivial: at least one step is taken'
CONTRACTS = ['tn.fuse: valid path; every step joins tensors sharing an index, into a tensor within the limit; excluded indices untouched; output indices and those needed elsewhere kept', 'contract(fuse(.)) gives the same fused network with indices and with arrays, with the same value']
STEPS = {}
nontrivial = lambda c: len(c['net']['ts']) >= 2
def cases(rng, tier):
    while True:
        net = random_net(rng, n_ts=rng.randint(1, 9), connected=rng.random() < .7, max_dim=rng.choice([2, 3, 8]))
        inds = all_inds(net)
        mx = rng.choice([0, 1, 2, 2, 3, 4, 6, 100, .5, 1.585, math.log2(6)])
        yield dict(net=net, max_width=mx, exclude=[x for x in inds if rng.random() < .2] if rng.random() < .5 else [], seed=rng.randrange(10 ** 6), how=rng.choice(['list', 'iter']))
def shrink(c):
    for i in range(len(c['exclude'])): yield dict(c, exclude=c['exclude'][:i] + c['exclude'][i + 1:])
def check(c):
    from tnco.utils import tn
    net = c['net']; ts = net['ts']; out = net['out']; src = iter if c['how'] == 'iter' else list
    dims = net['dims'] if isinstance(net['dims'], int) else dict(net['dims'])
    path, fused = tn.fuse(src(ts), dims, c['max_width'], src(out), exclude_inds=src(c['exclude']), seed=c['seed'], return_fused_inds=True)
    need(tn.fuse(ts, dims, c['max_width'], out, exclude_inds=c['exclude'], seed=c['seed']) == path, 'another path for the same seed')
    need(len(path) == len(fused), '%d steps, %d fused tensors' % (len(path), len(fused)))
    pool = [(frozenset([i]), frozenset(xs)) for i, xs in enumerate(ts)]; ex = frozenset(c['exclude'])
    for s, z in zip(path, fused):
        x, y = s
        need(0 <= x < len(pool) and 0 <= y < len(pool) and x != y, 'step %s with %d tensors' % (s, len(pool)))
        (ma, a), (mb, b) = pool[x], pool[y]
        need(a & b, 'step %s joins tensors that share no index' % (s,))
        need(not (a | b) & ex, 'step %s touches excluded indices %s' % (s, sorted((a | b) & ex)))
        mem = ma | mb; below = a | b
        outside = set(out) | set(i for k in range(len(ts)) if k not in mem for i in ts[k])
        # every contracted index disappears, all others stay
        want = frozenset(i for i in below if i in outside or not (i in a and i in b))
        need(set(z) == want and len(z) == len(want), 'fused tensor of %s carries %s, expected %s' % (sorted(mem), sorted(z), sorted(want)))
        need(want >= (frozenset(out) & below), 'an output index is contracted')
        need(ref_width(net, want) <= c['max_width'] + 1e-9, 'fused tensor of %s has width %g, limit %g' % (sorted(mem), ref_width(net, want), c['max_width']))
        for k in sorted((x, y), reverse=True): pool.pop(k)
        pool.append((mem, want))
    i1, o1 = tn.contract(path, ts, out, dims=dims)
    need([frozenset(x) for x in i1] == [w for _, w in pool] and o1 == frozenset(out), 'fused network %s, expected %s' % (i1, [sorted(w) for _, w in pool]))
    if size_ok(net, 4000):
        A = int_arrays(random.Random(c['seed']), net)
        i2, o2, a2 = tn.contract(path, ts, out, A)
        need([tuple(x) for x in i2] == [tuple(x) for x in i1] and o2 == o1, 'fused network differs with arrays')
        ref = value(ts, A, out); got = value([list(x) for x in i2], a2, out)
        need(np.allclose(ref, got, rtol=1e-9, atol=1e-6), 'fusing changes the value of the network')
    bad = 'not an index'
    for what, fn in (('unknown excluded index', lambda: tn.fuse(ts, dims, 2, out, exclude_inds=[bad])), ('unknown output index', lambda: tn.fuse(ts, dims, 2, list(out) + [bad])), ('missing dimension', (lambda: tn.fuse(ts, {x: 2 for x in all_inds(net)[1:]}, 2, out)) if all_inds(net) else None)):
        if fn is None: continue
        try: fn()
        except ValueError: continue
        need(False, 'accepted: %s' % what)
