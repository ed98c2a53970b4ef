"""Random tensor networks, contraction paths and optimizer runs; reference definitions from scratch (exact integers)."""
from .common import *
from collections import Counter

def components(ts):
    """connected components (lists of tensor positions)"""
    n = len(ts); par = list(range(n))
    def find(x):
        while par[x] != x: par[x] = par[par[x]]; x = par[x]
        return x
    first = {}
    for i, xs in enumerate(ts):
        for x in xs:
            if x in first: par[find(i)] = find(first[x])
            else: first[x] = i
    comp = {}
    for i in range(n): comp.setdefault(find(i), []).append(i)
    return sorted(comp.values())

def random_net(rng, n_ts=None, hyper=None, connected=True, max_dim=4, uniform=None, max_deg=4):
    """dict(ts=[[index]], out=[index], dims=int or {index: dim}); every index in at least one tensor; no repeats."""
    n = n_ts or rng.randint(1, 9)
    hyper = rng.random() < .5 if hyper is None else hyper
    ts = [[] for _ in range(n)]
    k = 0
    def new(members):
        nonlocal k
        x = 'i%d' % k; k += 1
        for m in members: ts[m].append(x)
        return x
    if connected:
        order = list(range(n)); rng.shuffle(order)
        for j in range(1, n): new([order[j], order[rng.randrange(j)]])
    for _ in range(rng.randint(0, n + 2)):
        m = rng.randint(3, n) if hyper and n >= 3 and rng.random() < .5 else min(2, n)
        if m > 4: m = rng.randint(3, 4)
        mem = rng.sample(range(n), m)
        if all(len(ts[i]) < max_deg + 2 for i in mem): new(mem)
    opened = []
    for i in range(n):
        if not ts[i] or rng.random() < .25: opened.append(new([i]))
    cnt = Counter(x for xs in ts for x in xs)
    out = list(opened)
    if hyper:
        for x in sorted(cnt):
            if x not in out and rng.random() < .12: out.append(x)
    out += [x for x in sorted(cnt) if cnt[x] == 1 and x not in out]
    rng.shuffle(out)
    for xs in ts: rng.shuffle(xs)
    if uniform is None: uniform = rng.random() < .3
    inds = sorted(cnt, key=lambda x: int(x[1:]))
    dims = rng.randint(1, 3) if uniform else {x: rng.choice([1, 2, 2, 2, 3, max_dim]) for x in inds}
    return dict(ts=ts, out=out, dims=dims)

def dim(net, x): return net['dims'] if isinstance(net['dims'], int) else net['dims'][x]
def all_inds(net):
    r = []
    for xs in net['ts']:
        for x in xs:
            if x not in r: r.append(x)
    return r

def random_path(rng, net, shared=True, subset=False, cover_all=True):
    """linear path; with shared=True only tensors that share an index are contracted (needs a connected network)."""
    cnt = Counter(x for xs in net['ts'] for x in xs)
    for x in net['out']: cnt[x] += 1
    pool = [(i, frozenset(xs)) for i, xs in enumerate(net['ts'])]
    cnt = dict(cnt)
    path = []
    stop = rng.randint(1, max(1, len(pool) - 1)) if subset else 1
    while len(pool) > stop:
        pairs = [(i, j) for i in range(len(pool)) for j in range(i) if not shared or pool[i][1] & pool[j][1]]
        if not pairs: break
        i, j = rng.choice(pairs)
        a, b = pool[i][1], pool[j][1]
        z = set(a ^ b)
        for x in a & b:
            cnt[x] -= 1
            if cnt[x] > 1: z.add(x)
        for k in sorted((i, j), reverse=True): pool.pop(k)
        pool.append((None, frozenset(z)))
        path.append([i, j] if rng.random() < .5 else [j, i])
    return path

# ---------------------------------------------------------------- reference
def ref_cost(net, inds, sparse=None, n_projs=None):
    d = s = 1
    for x in inds:
        if sparse is not None and x in sparse: s *= dim(net, x)
        else: d *= dim(net, x)
    if sparse is not None: s = min(s, n_projs) if n_projs else s
    return d * s

def ref_width(net, inds, sparse=None, n_projs=None): return math.log2(ref_cost(net, inds, sparse, n_projs))

def ref_exact(ch, par, leaf_inds, out):
    """index set of every node: indices below it that are output indices or occur outside of it."""
    n = len(ch); nl = (n + 1) // 2
    below = [None] * n; outer = [None] * n
    order = []; st = [n - 1]
    while st:
        x = st.pop(); order.append(x)
        if x >= nl: st += ch[x]
    for x in reversed(order): below[x] = frozenset(leaf_inds[x]) if x < nl else below[ch[x][0]] | below[ch[x][1]]
    outer[n - 1] = frozenset(out)
    for x in order:
        if x >= nl:
            a, b = ch[x]
            outer[a] = outer[x] | below[b]; outer[b] = outer[x] | below[a]
    return [below[i] & outer[i] for i in range(n)]

def ref_total(net, ch, inds, slices=(), sparse=None, n_projs=None):
    nl = (len(ch) + 1) // 2
    return sum(ref_cost(net, inds[ch[i][0]] | inds[ch[i][1]] | frozenset(slices), sparse, n_projs) for i in range(nl, len(ch)))

def close(a, b, rel=1e-6): return abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)

# ---------------------------------------------------------------- optimizer runs
def random_run(rng, finite=None, tier='quick', hyper=None):
    finite = rng.random() < .6 if finite is None else finite
    net = random_net(rng, n_ts=rng.randint(1, 10) if rng.random() < .9 else rng.randint(10, 16), hyper=hyper)
    if len(net['ts']) < 2: net = random_net(rng, n_ts=2, hyper=hyper)
    inds = all_inds(net)
    disable = rng.random() < .35
    path = random_path(rng, net, shared=not disable)
    if len(path) != len(net['ts']) - 1:
        disable = True; path = random_path(rng, net, shared=False)
    c = dict(net=net, path=path, finite=finite, disable=disable, seed=rng.randrange(1000), sparse=None, n_projs=None)
    if rng.random() < .35:
        c['sparse'] = [x for x in inds if rng.random() < .5] or inds[:1]; c['n_projs'] = rng.choice([1, 2, 3, 5, 8, 40])
    if finite:
        leafw = max(ref_width(net, xs, c['sparse'], c['n_projs']) for xs in net['ts'])
        c['skip'] = [x for x in inds if rng.random() < .15] if rng.random() < .4 else []
        c['max_new'] = rng.choice([0, 0, 1, 2, 5, 50])
        c['frac'] = rng.random()
    c['script'] = [[rng.choice(['base', 'greedy', 'mh', 'mh']), rng.choice([0, .5, 2, 20, 100]), rng.random() < .6, rng.randint(1, 4)] for _ in range(rng.randint(2, 12) if tier == 'quick' else rng.randint(2, 40))]
    return c

class Run:
    """The real optimizer on a case; states are read back through the core object."""
    def __init__(self, c, **kw):
        from tnco.ctree import ContractionTree
        net = c['net']; self.c = c; self.net = net
        self.ctree0 = ContractionTree(c['path'], net['ts'], net['dims'], output_inds=net['out'])
        self.order = self.ctree0._inds_order
        self.sparse = frozenset(c['sparse']) if c['sparse'] is not None else None; self.n_projs = c['n_projs']
        self.max_width = None
        ch, par = links(self.ctree0.nodes)
        self.inds0 = self.read(self.ctree0)[2]
        if c['finite']:
            from tnco.optimize.finite_width import optimizer as O, cost_model as M
            ws = [ref_width(net, xs, self.sparse, self.n_projs) for xs in self.inds0]
            skip = frozenset(c['skip'])
            lo = max([ref_width(net, xs & skip, self.sparse, self.n_projs) for xs in self.inds0] + [0])
            hi = max(ws + [1])
            self.max_width = c.get('max_width', float(math.ceil(lo + c['frac'] * (hi - lo))) if hi > lo else hi)
            self.cm = M.SimpleCostModel(self.max_width, width_type='float64', cost_type='float64', sparse_inds=c['sparse'], n_projs=c['n_projs'])
            self.opt = O.Optimizer(self.ctree0, self.cm, max_number_new_slices=c['max_new'], skip_slices=c['skip'] or None, seed=c['seed'], disable_shared_inds=c['disable'], **kw)
        else:
            from tnco.optimize.infinite_memory import optimizer as O, cost_model as M
            self.cm = M.SimpleCostModel(cost_type='float64', sparse_inds=c['sparse'], n_projs=c['n_projs'])
            self.opt = O.Optimizer(self.ctree0, self.cm, seed=c['seed'], disable_shared_inds=c['disable'], **kw)
    def read(self, core):
        from tnco_core import ContractionTree as Core
        ch, par = links(Core.nodes.fget(core))
        inds = [frozenset(self.order[p] for p in b.positions()) for b in Core.inds.fget(core)]
        return ch, par, inds
    def state(self, opt=None):
        o = (opt or self.opt)._optimizer
        s = dict(cur=self.read(o.ctree), best=self.read(o.min_ctree), cost=float(o.total_cost), best_cost=float(o.min_total_cost), slices=frozenset(), best_slices=frozenset())
        if self.c['finite']:
            s['slices'] = frozenset(self.order[p] for p in o.slices.positions())
            s['best_slices'] = frozenset(self.order[p] for p in o.min_slices.positions())
        return s
    def prob(self, kind, beta):
        from tnco.optimize import prob as P
        return P.BaseProbability(cost_type='float64') if kind == 'base' else P.Greedy(cost_type='float64') if kind == 'greedy' else P.MetropolisHastings(beta, cost_type='float64')
    def step(self, kind, beta, upd, opt=None):
        o = opt or self.opt
        if self.c['finite']: o.update(self.prob(kind, beta), update_slices=upd)
        else: o.update(self.prob(kind, beta))
    def states(self):
        yield self.state()
        for kind, beta, upd, k in self.c['script']:
            for _ in range(k):
                self.step(kind, beta, upd)
                yield self.state()
    def total(self, st, which='cur'):
        ch, par, inds = st[which]
        return ref_total(self.net, ch, inds, st['slices' if which == 'cur' else 'best_slices'], self.sparse, self.n_projs)

def moved(c): return len(c['net']['ts']) >= 3

def shrink_run(c):
    s = c['script']
    for i in range(len(s)):
        if len(s) > 1: yield dict(c, script=s[:i] + s[i + 1:])
    for i in range(len(s)):
        if s[i][3] > 1: yield dict(c, script=s[:i] + [[s[i][0], s[i][1], s[i][2], s[i][3] - 1]] + s[i + 1:])
