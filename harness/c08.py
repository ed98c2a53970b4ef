"""C08 at run time: accepted exactly when well formed."""
from .nets import *
RULE = 'all link tables of up to 3 nodes with links in -1..3, then random valid trees (1..12 leaves) with up to three random link changes, permutations or cycles spliced in; contraction trees of random networks with random index sets and dimensions changed; non-trivial: at least three nodes'
CONTRACTS = ['Node accepted <=> both or no child, distinct, parent not a child', 'Tree accepted <=> leaves first, root last and alone, links mutual, all reachable', 'ContractionTree accepted <=> tree, sizes, positive dimensions, xor of the operands <= indices <= or of the operands']
nontrivial = lambda c: len(c['ch']) >= 3
def node_ok(ch, p):
    a, b = ch
    if (a < 0) != (b < 0): return False
    if a >= 0 and (a == b or (p >= 0 and p in (a, b))): return False
    return True
def cases(rng, tier):
    for n in (1, 2):
        vals = [-1, 0, 1, 2]
        for links_ in itertools.product(vals, repeat=3 * n): yield dict(ch=[list(links_[3 * i:3 * i + 2]) for i in range(n)], par=[links_[3 * i + 2] for i in range(n)])
    kids = [(-1, -1), (0, 1), (1, 0), (0, 2), (1, 2), (2, 0)]
    for cs in itertools.product(kids, repeat=3):
        for ps in itertools.product([-1, 0, 1, 2], repeat=3): yield dict(ch=[list(x) for x in cs], par=list(ps))
    while True:
        nl = rng.randint(1, 12)
        ch, par = random_tree(rng, nl); n = len(ch)
        mode = rng.random()
        if mode < .35:
            for _ in range(rng.randint(0, 3)):
                r = rng.random(); i = rng.randrange(n)
                v = rng.choice([-1, -7, rng.randrange(n), rng.randrange(n), n])
                if r < .4: par[i] = v
                elif r < .8: ch[i][rng.randrange(2)] = v
                elif r < .9: ch[i] = [-1, -1]
                else:
                    j = rng.randrange(n); ch[i], ch[j] = ch[j], ch[i]
            yield dict(ch=ch, par=par)
        elif mode < .5:
            # relabel: leaves or root may move
            p = list(range(n)); i, j = rng.randrange(n), rng.randrange(n); p[i], p[j] = p[j], p[i]
            m = lambda x: x if x < 0 else p[x]
            ch2 = [None] * n; par2 = [0] * n
            for k in range(n): ch2[p[k]] = [m(x) for x in ch[k]]; par2[p[k]] = m(par[k])
            yield dict(ch=ch2, par=par2)
        elif mode < .6 and nl >= 4:
            # exchange the children of two inner nodes, with consistent links: may close a cycle
            i, j = rng.randrange(nl, n), rng.randrange(nl, n); a, b = rng.randrange(2), rng.randrange(2)
            x, y = ch[i][a], ch[j][b]; ch[i][a], ch[j][b] = y, x; par[y], par[x] = i, j
            yield dict(ch=ch, par=par)
        else:
            net = random_net(rng, n_ts=rng.randint(1, 8))
            nl = len(net['ts']); ch, par = random_tree(rng, nl); n = len(ch)
            order = all_inds(net); k = len(order)
            inds = [sorted(order.index(x) for x in xs) for xs in ref_exact(ch, par, net['ts'], net['out'])]
            dims = net['dims'] if isinstance(net['dims'], int) else [net['dims'][x] for x in order]
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                i = rng.randrange(n); x = rng.randrange(k) if k else 0
                if k: inds[i] = sorted(set(inds[i]) ^ {x})
            r = rng.random()
            if r < .06: dims = 0
            elif r < .12 and not isinstance(dims, int) and k: dims = list(dims); dims[rng.randrange(k)] = 0
            short = rng.random() < .03
            yield dict(ch=ch, par=par, inds=inds[:-1] if short else inds, dims=dims, k=k)
def shrink(c):
    if 'inds' in c: return
    for i in range(len(c['ch'])):
        if c['par'][i] not in (-1,): pass
def accepts(f):
    try: f(); return True
    except (ValueError, RuntimeError, TypeError, IndexError): return False
def check(c):
    import tnco_core as core
    ch, par = c['ch'], c['par']; n = len(ch)
    for a, p in zip(ch, par):
        got = accepts(lambda: core.Node(list(a), p)); want = node_ok(a, p)
        need(got == want, 'Node(%s, %s) %s' % (a, p, 'accepted' if got else 'rejected'))
        if not got: return
        nd = core.Node(list(a), p)
        need(nd.is_valid() is True, 'Node(%s, %s).is_valid()' % (a, p))
        f = lambda x: None if x < 0 else x
        need(nd.parent == f(p) and list(nd.children) == [f(x) for x in a], 'Node(%s, %s) has %s, %s' % (a, p, nd.children, nd.parent))
        need(nd.is_leaf() == (a[0] < 0) and nd.is_root() == (p < 0), 'is_leaf, is_root')
    nodes = mk_nodes(ch, par)
    why = tree_problem(ch, par)
    if 'inds' not in c:
        got = accepts(lambda: core.Tree(nodes))
        need(got == (why is None), 'Tree %s although %s' % ('accepted' if got else 'rejected', why or 'it is well formed'))
        if got:
            t = core.Tree(nodes)
            need(t.is_valid() is True and len(t) == n and t.n_leaves == (n + 1) // 2, 'is_valid, size, n_leaves')
            need(links(t.nodes) == (([[x if x >= 0 else -1 for x in a] for a in ch]), [p if p >= 0 else -1 for p in par]), 'links changed')
        if n:
            g2 = accepts(lambda: core.ContractionTree(nodes, [[0]] * n, 2))
            need(g2 == (why is None), 'ContractionTree over these nodes %s although %s' % ('accepted' if g2 else 'rejected', why or 'it is well formed'))
        return
    inds = [frozenset(x) for x in c['inds']]; nl = (n + 1) // 2
    msg = why
    if len(inds) != n: msg = msg or 'wrong number of index sets'
    else:
        for i in range(nl, n):
            a, b = inds[ch[i][0]], inds[ch[i][1]]
            if not (a ^ b) <= inds[i]: msg = msg or 'node %d misses an index that one operand carries' % i
            if not inds[i] <= (a | b): msg = msg or 'node %d has an index that no operand carries' % i
    used = 1 + max([max(x) for x in inds if x] + [-1])
    d = c['dims']
    if isinstance(d, int):
        if d == 0: msg = msg or 'dimension 0'
    elif 0 in d: msg = msg or 'dimension 0'
    bits = lambda k: [core.Bitset(sorted(x), k) for x in inds]
    k = c['k']
    got = accepts(lambda: core.ContractionTree(nodes, bits(k), d))
    need(got == (msg is None), 'ContractionTree(Bitset) %s although %s' % ('accepted' if got else 'rejected', msg or 'it is well formed'))
    d2 = d if isinstance(d, int) else list(d)[:used]
    m2 = msg
    if m2 == 'dimension 0' and not isinstance(d2, int) and 0 not in d2: m2 = None
    got2 = accepts(lambda: core.ContractionTree(nodes, [sorted(x) for x in inds], d2))
    need(got2 == (m2 is None), 'ContractionTree(positions) %s although %s' % ('accepted' if got2 else 'rejected', m2 or 'it is well formed'))
    if not isinstance(d, int) and k:
        need(not accepts(lambda: core.ContractionTree(nodes, bits(k), list(d) + [2])), 'one dimension too many accepted')
        need(not accepts(lambda: core.ContractionTree(nodes, bits(k), list(d)[:-1])), 'one dimension too few accepted')
    if len(inds) > 1 and len(inds) == n:
        b = bits(k); b[c['par'][0] if n > 1 else 0] = core.Bitset([], k + 1)
        need(not accepts(lambda: core.ContractionTree(nodes, b, d)), 'index sets of different sizes accepted')
    if got:
        t = core.ContractionTree(nodes, bits(k), d)
        need(t.is_valid() is True, 'is_valid of an accepted tree')
        need([frozenset(b.positions()) for b in t.inds] == inds and t.n_inds == k, 'index sets changed')
        need(t.dims == d, 'dims %r became %r' % (d, t.dims))
