"""C12 at run time: path exported from a tree."""
from .nets import *
from .c11 import sub_problem
RULE = 'trees from random paths (complete or leaving tensors out, several components), straight from the constructor, pickled, or after random optimizer runs of both kinds (current and best tree); non-trivial: at least three steps'
CONTRACTS = ['ContractionTree.path(): valid linear path over the original tensors, contracts exactly the leaves, rebuilds the same set of intermediate tensors with the same cost']
nontrivial = lambda c: len(c['path']) >= 3
def cases(rng, tier):
    while True:
        if rng.random() < .5:
            net = random_net(rng, n_ts=rng.randint(2, 10), connected=rng.random() < .6)
            path = random_path(rng, net, shared=rng.random() < .4, subset=rng.random() < .4)
            if path and len([p for p in sub_problem(net, path)[2] if len(p) > 1]) == 1: yield dict(net=net, path=path)
        else:
            c = random_run(rng, tier=tier)
            if rng.random() < .5:
                # leave some tensors out: put extra tensors first or last in the list
                k = rng.randint(1, 3); n = len(c['net']['ts'])
                c['pad'] = sorted(rng.randrange(n + 1) for _ in range(k))
            yield c
def shrink(c):
    if 'script' in c: yield from shrink_run(c)
def below(ch, leaf):
    n = len(ch); nl = (n + 1) // 2; b = {}
    order = []; st = [n - 1]
    while st:
        x = st.pop(); order.append(x)
        if x >= nl: st += ch[x]
    for x in reversed(order): b[x] = frozenset([leaf[x]]) if x < nl else b[ch[x][0]] | b[ch[x][1]]
    return b
def verify(t, net, used, what, out):
    from tnco.ctree import ContractionTree
    ch, par = links(t.nodes); n = len(ch); nl = (n + 1) // 2
    path = t.path()
    need(len(path) == nl - 1, '%s: %d steps for %d leaves' % (what, len(path), nl))
    m = len(net['ts'])
    for s in path:
        x, y = s
        need(isinstance(x, int) and isinstance(y, int) and x != y and 0 <= x < m and 0 <= y < m, '%s: step %s with %d tensors left' % (what, s, m))
        m -= 1
    steps, u, pool = sub_problem(net, path)
    need(u == used, '%s: the path contracts tensors %s, the leaves are %s' % (what, sorted(u), sorted(used)))
    b = below(ch, sorted(used))
    got = sorted(sorted(a | bb) for a, bb in steps); want = sorted(sorted(b[x]) for x in range(nl, n))
    need(got == want, '%s: intermediate tensors %s, the tree has %s' % (what, got, want))
    gp = sorted(tuple(sorted((sorted(a), sorted(bb)))) for a, bb in steps); wp = sorted(tuple(sorted((sorted(b[ch[x][0]]), sorted(b[ch[x][1]])))) for x in range(nl, n))
    need(gp == wp, '%s: pairs' % what)
    t2 = ContractionTree(path, net['ts'], net['dims'], output_inds=out)
    c2, p2 = links(t2.nodes); i1, i2 = list(t.inds[:]), list(t2.inds[:])
    b2 = below(c2, sorted(used))
    need({b[x]: i1[x] for x in range(n)} == {b2[x]: i2[x] for x in range(n)}, '%s: rebuilt tree has other intermediate tensors' % what)
    need(ref_total(net, ch, i1) == ref_total(net, c2, i2), '%s: rebuilt tree has another cost' % what)
    from tnco.optimize.infinite_memory import optimizer as O, cost_model as M
    cm = M.SimpleCostModel(cost_type='float64')
    try:
        c1, c2_ = (float(O.Optimizer(z, cm, seed=1, disable_shared_inds=True).total_cost) for z in (t, t2))
        need(close(c1, c2_, 1e-12), '%s: cost %r, rebuilt %r' % (what, c1, c2_))
    except ImportError: pass
def check(c):
    import pickle
    from tnco.ctree import ContractionTree
    net = c['net']; ts = net['ts']
    if 'script' not in c:
        steps, used, pool = sub_problem(net, c['path'])
        others = set(x for i in range(len(ts)) if i not in used for x in ts[i])
        out = list(net['out']) + [x for x in sorted(others) if x not in net['out']]
        t = ContractionTree(c['path'], ts, net['dims'], output_inds=out)
        verify(t, net, used, 'new tree', out); verify(pickle.loads(pickle.dumps(t)), net, used, 'pickled tree', out)
        return
    pad = c.get('pad', [])
    if pad:
        # insert unrelated tensors that the path does not touch
        ts2 = list(ts); pos = list(range(len(ts)))
        for k, p in enumerate(pad):
            ts2.insert(p + k, ['pad%d' % k])
        keep = [i for i, xs in enumerate(ts2) if not (xs and xs[0].startswith('pad'))]
        dims = net['dims'] if isinstance(net['dims'], int) else dict(net['dims'], **{'pad%d' % k: 2 for k in range(len(pad))})
        pool = list(range(len(ts2))); path = []; old = [keep[i] for i in range(len(ts))]; nxt = len(ts2)
        for x, y in c['path']:
            a, b = old[x], old[y]
            for k in sorted((x, y), reverse=True): old.pop(k)
            path.append([pool.index(a), pool.index(b)])
            pool.remove(a); pool.remove(b); pool.append(nxt); old.append(nxt); nxt += 1
        net2 = dict(ts=ts2, out=net['out'], dims=dims)
        c = dict(c, net=net2, path=path); used = frozenset(keep); net = net2
    else: used = frozenset(range(len(ts)))
    r = Run(c)
    for k, (kind, beta, upd, reps) in enumerate(c['script']):
        for _ in range(reps): r.step(kind, beta, upd)
        if k in (0, len(c['script']) - 1):
            for nm, t in (('current', r.opt.ctree), ('best', r.opt.min_ctree)): verify(t, net, used, '%s tree after %d rounds' % (nm, k + 1), net['out'])
