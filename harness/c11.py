"""C11 at run time: tree built from a path."""
from .nets import *
RULE = 'random well-formed networks (hyper-indices, several components, tensors left out of the path, scalars, indices of any hashable kind), random paths, output indices given or inferred; non-trivial: at least two steps'
CONTRACTS = ['ContractionTree.__init__(path, ts_inds, dims, output_inds): one leaf per contracted tensor, one inner node per step joining the named tensors, index sets exact, dims, order']
nontrivial = lambda c: len(c['path']) >= 2
def cases(rng, tier):
    while True:
        net = random_net(rng, n_ts=rng.randint(2, 10), connected=rng.random() < .6)
        cnt = Counter(x for xs in net['ts'] for x in xs)
        path = random_path(rng, net, shared=rng.random() < .4, subset=rng.random() < .35)
        if not path: continue
        yield dict(net=net, path=path, names=rng.choice(['str', 'int', 'tuple', 'mixed']), gen=rng.choice(['list', 'tuple', 'iter']), extra=rng.random() < .2)
def shrink(c):
    if len(c['path']) > 1: yield dict(c, path=c['path'][:-1])
def rename(c):
    f = {'str': lambda x: x, 'int': lambda x: int(x[1:]), 'tuple': lambda x: ('q', int(x[1:])), 'mixed': lambda x: x if int(x[1:]) % 2 else int(x[1:])}[c['names']]
    net = c['net']
    return dict(ts=[[f(x) for x in xs] for xs in net['ts']], out=[f(x) for x in net['out']], dims=net['dims'] if isinstance(net['dims'], int) else {f(x): d for x, d in net['dims'].items()})
def sub_problem(net, path):
    """the contraction as sets of original tensors: [(below x, below y)] in order, and the tensors used"""
    pool = [frozenset([i]) for i in range(len(net['ts']))]; steps = []
    for x, y in path:
        a, b = pool[x], pool[y]
        for k in sorted((x, y), reverse=True): pool.pop(k)
        pool.append(a | b); steps.append((a, b))
    used = frozenset().union(*(a | b for a, b in steps)) if steps else frozenset()
    return steps, used, pool
def check(c):
    from tnco.ctree import ContractionTree
    net = rename(c); ts = net['ts']
    steps, used, pool = sub_problem(net, c['path'])
    tops = [p for p in pool if len(p) > 1]
    cnt_used = Counter(x for i in used for x in ts[i])
    # the path may leave tensors out; the tree is a contraction of the tensors it names, so indices that also sit on
    # a left-out tensor are output indices of that contraction
    others = set(x for i in range(len(ts)) if i not in used for x in ts[i])
    out = list(net['out']) + [x for x in sorted(others, key=repr) if x in cnt_used and x not in net['out']]
    if c['extra']: out = out + ['not an index of the network']
    conv = {'list': lambda l: [list(s) for s in l], 'tuple': lambda l: tuple(tuple(s) for s in l), 'iter': lambda l: [tuple(s) for s in l]}[c['gen']]
    path = conv(c['path']); tin = [tuple(x) for x in ts] if c['gen'] != 'iter' else iter([list(x) for x in ts])
    if len(tops) != 1:
        # several trees: not one contraction
        try: t = ContractionTree(path, tin, net['dims'], output_inds=out)
        except (ValueError, RuntimeError, TypeError): return
        raise Fail('a path that leaves %d tensors gave one tree' % len(tops))
    t = ContractionTree(path, tin, net['dims'], output_inds=out)
    compare(t, c, net, ts, used, steps, out)
    if c['gen'] == 'iter':
        t2 = ContractionTree(iter(c['path']), [list(x) for x in ts], net['dims'], output_inds=iter(out))
        compare(t2, c, net, ts, used, steps, out)
    hyper = any(n > 2 for n in cnt_used.values()) or any(cnt_used[x] > 1 for x in out if x in cnt_used)
    if not hyper:
        t3 = ContractionTree(conv(c['path']), ts, net['dims'])
        compare(t3, c, net, ts, used, steps, out)
def compare(t, c, net, ts, used, steps, out):
    ch, par = links(t.nodes); n = len(ch); nl = (n + 1) // 2
    need(tree_problem(ch, par) is None, 'not a valid tree: %s' % tree_problem(ch, par))
    need(nl == len(used) and t.n_leaves == nl, '%d leaves for %d contracted tensors' % (nl, len(used)))
    inds = list(t.inds[:])
    leaf = sorted(used)
    for k, i in enumerate(leaf): need(inds[k] == frozenset(ts[i]), 'leaf %d carries %s, tensor %d has %s' % (k, sorted(map(repr, inds[k])), i, ts[i]))
    below = {k: frozenset([i]) for k, i in enumerate(leaf)}; order = []
    st = [n - 1]
    while st:
        x = st.pop(); order.append(x)
        if x >= nl: st += ch[x]
    for x in reversed(order):
        if x >= nl: below[x] = below[ch[x][0]] | below[ch[x][1]]
    got = sorted([tuple(sorted((sorted(below[ch[x][0]]), sorted(below[ch[x][1]])))) for x in range(nl, n)])
    want = sorted([tuple(sorted((sorted(a), sorted(b)))) for a, b in steps])
    need(got == want, 'inner nodes join %s, the path joins %s' % (got, want))
    ex = ref_exact(ch, par, [ts[i] for i in leaf], [x for x in out if any(x in ts[i] for i in leaf)])
    for x in range(n): need(inds[x] == ex[x], 'node %d (tensors %s) carries %s, needed outside: %s' % (x, sorted(below[x]), sorted(map(repr, inds[x])), sorted(map(repr, ex[x]))))
    present = set(x for i in leaf for x in ts[i])
    need(t.output_inds() == frozenset(x for x in out if x in present), 'output_inds() = %s' % (t.output_inds(),))
    need(inds[-1] == t.output_inds(), 'indices of the root')
    need(t.all_inds() == frozenset(present) and t.n_inds == len(present), 'all_inds()')
    need(dict(t.dims) == {x: (net['dims'] if isinstance(net['dims'], int) else net['dims'][x]) for x in present}, 'dims = %s' % dict(t.dims))
    mw = max(math.log2(ref_cost(net, xs)) for xs in inds)
    need(abs(t.max_width() - mw) <= 1e-9 * max(1, mw), 'max_width() = %r, expected %r' % (t.max_width(), mw))
    need(t.is_valid() is True, 'is_valid()')
