"""C15 at run time: value of a contraction along any path."""
from .dense import *
RULE = 'random well-formed networks (hyper-indices, scalars, size-1 dimensions, several components) with integer tensors, two random paths each (complete or partial); non-trivial: at least two steps'
CONTRACTS = ['tn.contract: value = sum over non-output indices of the product, axes in the order of the returned indices, for every path; same indices without arrays', 'tensor.tensordot: sum over shared, non-hyper indices']
nontrivial = lambda c: len(c['paths'][0]) >= 2
def cases(rng, tier):
    while True:
        net = random_net(rng, n_ts=rng.randint(1, 6), connected=rng.random() < .7, max_dim=3)
        if not size_ok(net, 30000): continue
        if rng.random() < .1: net['ts'].append([])
        paths = [random_path(rng, net, shared=rng.random() < .3, subset=rng.random() < .2) for _ in range(2)]
        yield dict(net=net, paths=paths, seed=rng.randrange(10 ** 6), cplx=rng.random() < .2, names=rng.choice(['str', 'tuple']), give=rng.choice(['dims', 'nodims', 'intdims']), how=rng.choice(['list', 'iter', 'tuple']))
def shrink(c):
    for i, p in enumerate(c['paths']):
        if p: yield dict(c, paths=[p[:-1], p[:-1]])
def check(c):
    from tnco.utils import tn, tensor
    net = c['net']; f = (lambda x: x) if c['names'] == 'str' else (lambda x: ('q', int(x[1:])))
    ts = [[f(x) for x in xs] for xs in net['ts']]; out = [f(x) for x in net['out']]
    dims = {f(x): dim(net, x) for x in all_inds(net)}
    rng = random.Random(c['seed']); A = int_arrays(rng, net, cplx=c['cplx'])
    want_full = None
    cnt = Counter(x for xs in ts for x in xs)
    hyper = any(n > 2 for n in cnt.values()) or any(cnt[x] > 1 for x in out)
    for path in c['paths']:
        p = [tuple(s) for s in path] if c['how'] != 'tuple' else tuple(list(s) for s in path)
        src = iter if c['how'] == 'iter' else list
        inds, oi, arr = tn.contract(p, src(ts), src(out), src([a.copy() for a in A]), dims=(dims if c['give'] == 'dims' else None))
        # which tensors were joined
        pool = [frozenset([i]) for i in range(len(ts))]
        for x, y in path:
            a, b = pool[x], pool[y]
            for k in sorted((x, y), reverse=True): pool.pop(k)
            pool.append(a | b)
        need(len(inds) == len(pool) == len(arr), '%d tensors remain after %d steps on %d tensors' % (len(inds), len(path), len(ts)))
        need(oi == frozenset(out), 'output indices %s' % (oi,))
        for mem, xs, a in zip(pool, inds, arr):
            xs = list(xs); outside = set(out) | set(x for i in range(len(ts)) if i not in mem for x in ts[i])
            below = set(x for i in mem for x in ts[i])
            want = below & outside if len(mem) > 1 else set(ts[min(mem)])
            need(len(set(xs)) == len(xs) and set(xs) == want, 'tensor of %s carries %s, expected %s' % (sorted(mem), xs, sorted(map(repr, want))))
            ref = value([ts[i] for i in sorted(mem)], [A[i] for i in sorted(mem)], xs)
            need(np.shape(a) == ref.shape, 'shape %s for indices %s (%s)' % (np.shape(a), xs, ref.shape))
            need(np.allclose(a, ref, rtol=1e-9, atol=1e-6), 'value of the tensor of %s along %s is wrong (largest difference %g)' % (sorted(mem), path, np.max(np.abs(a - ref)) if ref.size else 0))
        i2 = tn.contract(p, src(ts), src(out), dims=dims)
        need(len(i2) == 2 and [tuple(x) for x in i2[0]] == [tuple(x) for x in inds] and i2[1] == oi, 'other indices without arrays: %s, with arrays: %s' % (i2[0], inds))
        if not hyper:
            i3, o3, a3 = tn.contract(p, ts, arrays=A)
            need([tuple(x) for x in i3] == [tuple(x) for x in inds] and o3 == frozenset(out) and all(np.array_equal(x, y) for x, y in zip(a3, arr)), 'other result with inferred output indices')
    # one pairwise contraction with hyper-indices
    if len(ts) >= 2:
        i, j = rng.sample(range(len(ts)), 2); sh = [x for x in ts[i] if x in ts[j]]; h = [x for x in sh if rng.random() < .5]
        z, zi = tensor.tensordot((A[i], src(ts[i])), (A[j], src(ts[j])), hyper_inds=src(h))
        want = set(ts[i]) ^ set(ts[j]) | set(h)
        need(set(zi) == want and len(zi) == len(want), 'tensordot carries %s, expected %s' % (zi, want))
        need(np.allclose(z, value([ts[i], ts[j]], [A[i], A[j]], list(zi)), atol=1e-6), 'tensordot value')
        need(tuple(tensor.tensordot((None, ts[i]), (None, ts[j]), hyper_inds=h, return_inds_only=True)) == tuple(zi), 'tensordot indices only')
        bad = [x for x in ts[i] if x not in ts[j]]
        if bad:
            try: tensor.tensordot((A[i], ts[i]), (A[j], ts[j]), hyper_inds=bad[:1])
            except ValueError: pass
            else: need(False, 'a hyper-index that is not shared is accepted')
    # inconsistent input is refused
    k = rng.randrange(len(ts))
    for what, fn in (('fewer arrays', lambda: tn.contract([], ts, out, A[:-1])), ('unknown output index', lambda: tn.contract([], ts, list(out) + ['zz'], A)), ('neither dims nor arrays', lambda: tn.contract([], ts, out)),
                     ('dims contradict arrays', (lambda: tn.contract([], ts, out, A, dims={**dims, ts[k][0]: dims[ts[k][0]] + 1})) if ts[k] else None)):
        if fn is None: continue
        try: fn()
        except ValueError: continue
        need(False, 'accepted: %s' % what)
