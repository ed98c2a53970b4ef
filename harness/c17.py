"""C17 at run time: decomposing diagonal tensors."""
from .dense import *
RULE = 'random networks whose integer tensors are made diagonal in random groups of equal-dimension axes (deltas, permutations, all-zero and constant tensors included), any output indices; non-trivial: at least one tensor diagonal in two axes'
CONTRACTS = ['tensor.decompose_hyper_inds: the tensor equals the reduced tensor on its diagonal and zero elsewhere', 'tn.decompose_hyper_inds: for every assignment of the output indices, value = value of the new network if merged output indices agree, else 0']
nontrivial = lambda c: any(len(g) > 1 for gs in c['groups'] for g in gs)
def cases(rng, tier):
    while True:
        net = random_net(rng, n_ts=rng.randint(1, 5), connected=rng.random() < .8, max_dim=rng.choice([2, 3]), uniform=rng.random() < .6)
        if rng.random() < .4: net['dims'] = 2
        if not size_ok(net, 6000): continue
        groups = []
        for xs in net['ts']:
            gs = []; pos = list(range(len(xs))); rng.shuffle(pos)
            while pos:
                g = [pos.pop()]
                while pos and rng.random() < .55 and dim(net, xs[pos[-1]]) == dim(net, xs[g[0]]): g.append(pos.pop())
                gs.append(g)
            groups.append(gs)
        yield dict(net=net, groups=groups, kind=[rng.choice(['int', 'int', 'one', 'zero', 'const']) for _ in net['ts']], seed=rng.randrange(10 ** 6))
def shrink(c):
    for i in range(len(c['kind'])):
        if len(c['net']['ts']) > 1:
            net = dict(c['net'], ts=c['net']['ts'][:i] + c['net']['ts'][i + 1:]); net['out'] = [x for x in net['out'] if any(x in t for t in net['ts'])]
            cnt = Counter(x for t in net['ts'] for x in t); net['out'] += [x for x in cnt if cnt[x] == 1 and x not in net['out']]
            yield dict(c, net=net, groups=c['groups'][:i] + c['groups'][i + 1:], kind=c['kind'][:i] + c['kind'][i + 1:])
def make(c):
    net = c['net']; rng = random.Random(c['seed']); res = []
    for xs, gs, kind in zip(net['ts'], c['groups'], c['kind']):
        sh = tuple(dim(net, x) for x in xs); a = np.zeros(sh)
        k = rng.choice([2, -1, 3])
        for idx in np.ndindex(*sh):
            if all(len(set(idx[p] for p in g)) == 1 for g in gs): a[idx] = {'int': rng.randint(-3, 3), 'one': 1, 'zero': 0, 'const': k}[kind]
        res.append(a)
    return res
def check(c):
    from tnco.utils import tn, tensor
    net = c['net']; ts = net['ts']; out = list(net['out']); A = make(c)
    for xs, a in zip(ts, A):
        (na, ni), merged = tensor.decompose_hyper_inds(a.copy(), tuple(xs)); ni = list(ni); na = np.asarray(na)
        need(set(ni) <= set(xs) and len(set(ni)) == len(ni), 'new indices %s of a tensor with %s' % (ni, xs))
        # classes: key with its merged indices
        cls = [frozenset([k]) | frozenset(v) for k, v in merged.items()]
        need(all(p <= set(xs) for p in cls) and sum(len(p) for p in cls) == len(frozenset().union(*cls)) if cls else True, 'merged classes %s of %s' % (cls, xs))
        rest = [frozenset([x]) for x in xs if not any(x in p for p in cls)]
        cls += rest; rep = {}
        for p in cls:
            k = [x for x in ni if x in p]; need(len(k) <= 1, 'class %s keeps %s' % (sorted(p), k)); rep[p] = k[0] if k else None
        if any(rep[p] is None for p in cls): need(na.shape == () and ni == [], 'an index disappears from a tensor that is not constant')
        need(na.shape == tuple(dim(net, x) for x in ni), 'shape %s for %s' % (na.shape, ni))
        for idx in np.ndindex(*a.shape):
            v = dict(zip(xs, idx)); diag = all(len(set(v[x] for x in p)) == 1 for p in cls)
            w = na[tuple(v[x] if x in v else 0 for x in ni)] if diag else 0
            need(abs(a[idx] - w) < 1e-6, 'entry %s of the tensor is %g, %g after decomposing' % (v, a[idx], w))
    na, ni, mp = tn.decompose_hyper_inds([a.copy() for a in A], [tuple(x) for x in ts])
    ni = [list(x) for x in ni]
    need(len(na) == len(ni) == len(ts), '%d tensors for %d' % (len(na), len(ts)))
    need(set(mp) == set(all_inds(net)), 'the map covers %s' % sorted(mp))
    need(all(mp[y] == y for y in mp.values()), 'the map is not idempotent')
    need(all(dim(net, x) == dim(net, y) for x, y in mp.items()), 'indices of different dimensions are merged')
    need(set(x for xs in ni for x in xs) <= set(mp.values()), 'new tensors carry %s' % ni)
    lost = sorted(set(mp.values()) - set(x for xs in ni for x in xs))
    need(not lost, 'no tensor carries the index %s any more' % lost, key='lost index')
    for a, xs in zip(na, ni): need(np.shape(a) == tuple(dim(net, x) for x in xs), 'shape %s for %s' % (np.shape(a), xs))
    new_out = []
    for x in out:
        if mp[x] not in new_out: new_out.append(mp[x])
    ref = value(ts, A, out); got = value(*uniq(ni, na), new_out)
    for idx in np.ndindex(*ref.shape):
        v = {}; ok = True
        for x, i in zip(out, idx): ok = ok and v.setdefault(mp[x], i) == i
        w = got[tuple(v[x] for x in new_out)] if ok else 0
        need(abs(ref[idx] - w) < 1e-6 * max(1, abs(ref[idx])), 'value at %s is %g, %g after decomposing' % (dict(zip(out, map(int, idx))), ref[idx], w))
def uniq(ts, arrays):
    """a tensor that carries an index twice stands for its diagonal"""
    T, R = [], []
    for xs, a in zip(ts, arrays):
        xs = list(xs); a = np.asarray(a)
        while True:
            d = next(((i, j) for i in range(len(xs)) for j in range(i + 1, len(xs)) if xs[i] == xs[j]), None)
            if d is None: break
            i, j = d; a = np.diagonal(a, axis1=i, axis2=j); x = xs[i]; xs = [y for k, y in enumerate(xs) if k not in (i, j)] + [x]
        T.append(xs); R.append(a)
    return T, R
