"""C26 at run time: exact distribution of the sampler."""
from .circ import *
from .circ import matrix as gmat
from . import c25
import warnings
RULE = 'random circuits of 1..4 qubits (arbitrary one-qubit gates, permutations with phases on several qubits) as gate lists, cirq and qiskit circuits, several qubit orders and loading options; every branch of the sampler is enumerated through a scripted random source, so the distribution is exact; non-trivial: at least two branches'
CONTRACTS = ['Sampler.sample: probability of every bitstring (bits in the order of the returned qubits) = squared amplitude', 'counts sum to the number of samples (frequencies to 1), samples are independent', 'circuits that are not supported are refused']
nontrivial = lambda c: sum(g[0] in ('H', 'U1', 'RX') for g in c['gates']) >= 1
ONE = ['H', 'H', 'U1', 'RX', 'RZ', 'T', 'X', 'S', 'Y', 'Z']; MANY = ['CX', 'CZ', 'SWAP', 'CY', 'CCX', 'CSWAP', 'ISWAP', 'P2', 'P3', 'P2', 'P3']
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        form = 'qiskit' if k % 8 == 5 else 'cirq' if k % 8 == 3 else 'gates'
        nq = rng.randint(1, 4); m = [x for x in MANY if x not in ('ISWAP', 'CY', 'CSWAP', 'P2', 'P3')] if form == 'qiskit' else MANY
        if form == 'qiskit' and rng.random() < .5: m = ['CZ', 'SWAP']
        o = [x for x in ONE if x != 'U1'] if form == 'qiskit' else ONE
        gs = []
        for _ in range(rng.randint(1, 9)):
            g = gate(rng, nq, o if rng.random() < .55 else m + ['X']); gs.append(g)
            if rng.random() < .1: gs.append([g[0], g[1], g[2], not g[3]])
            if form == 'gates' and len(g[1]) > 1 and rng.random() < .2: gs[-1] = reorder(rng, gs[-1])
        while sum(g[0] in ('H', 'U1', 'RX', 'RZ', 'T', 'S') for g in gs) > 6: gs.pop(next(i for i, g in enumerate(gs) if g[0] in ('H', 'U1', 'RX', 'RZ', 'T', 'S')))
        if not gs: continue
        yield dict(form=form, nq=nq, gates=gs, simplify=rng.random() < .6, dec=rng.random() < .6, fuse=rng.choice([0, 2, 4]), order=rng.random() < .5, seed=rng.choice([0, rng.randrange(1000)]), names=rng.choice(['int', 'str', 'tuple']))
def shrink(c):
    for i in range(len(c['gates'])):
        if len(c['gates']) > 1: yield dict(c, gates=c['gates'][:i] + c['gates'][i + 1:])
class Script:
    """stands for random.Random: random() returns a number that records what it is compared with"""
    def __init__(self): self.plan = []; self.seen = []
    def start(self, plan): self.plan = list(plan); self.seen = []
    def __call__(self, *a): return self
    def random(self):
        i = len(self.seen); low = self.plan[i] if i < len(self.plan) else True
        self.seen.append(None); S = self
        class R(float):
            def __lt__(s, p): S.seen[i] = float(p); return low
            def __le__(s, p): S.seen[i] = float(p); return low
            def __gt__(s, p): S.seen[i] = float(p); return not low
            def __ge__(s, p): S.seen[i] = float(p); return not low
            __array_ufunc__ = None
        return R(0.0 if low else 1 - 1e-16)
def check(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); _check(c)
def _check(c):
    from tnco.app.circuit import sampling as S
    obj, f = c25.build(c); gs = c['gates']; qs = used(gs); rng = random.Random(c['seed'])
    kw = dict(betas=(0, 10), n_steps=3, fuse=c['fuse'], simplify=c['simplify'], decompose_hyper_inds=c['dec'])
    order = None
    if c['order']:
        order = [f(q) for q in qs]; rng.shuffle(order); kw['qubit_order'] = order
    sampler = S.Sampler(seed=c['seed'], n_jobs=1)
    state = sampler.sample(obj, return_intermediate_state_only=True, **kw)
    back = {f(q): q for q in qs}
    z = lambda little: abs(operator(gs, qs, little=little)[(slice(None),) * len(qs) + (0,) * len(qs)]) ** 2
    script = Script(); orig = S.Random; dist = {}; probe = True; first = None; done = {}
    def one(plan, n=1, **k):
        script.start(plan); S.Random = script
        try: return sampler.sample(state, n, **dict(kw, **k))
        finally: S.Random = orig
    stack = [((), 1.0)]
    while stack and probe:
        plan, p = stack.pop()
        res, got_order = one(plan, normalize=False)
        need(len(res) == 1 and list(res.values()) == [1], 'one sample gives %s' % res)
        if first is None: first = tuple(got_order)
        need(tuple(got_order) == first, 'order of the qubits changes')
        if any(x is None for x in script.seen): probe = False; break
        for i in range(len(plan), len(script.seen)):
            q = script.seen[i]; need(-1e-6 <= q <= 1 + 1e-6, 'a probability of %g' % q); q = min(max(q, 0), 1)
            if 1 - q > 1e-9: stack.append((tuple([True] * 0) + tuple(plan) + (True,) * (i - len(plan)) + (False,), p * (1 - q)))
            p *= q
            if p < 1e-9: break
        b = next(iter(res))
        if p >= 1e-9: dist[b] = dist.get(b, 0) + p; done[b] = (tuple(plan) + (True,) * (len(script.seen) - len(plan)))
    if probe and abs(sum(dist.values()) - 1) > 1e-5: probe = False
    if not probe:
        n = 3000; res, first = sampler.sample(state, n, normalize=False, **kw); first = tuple(first)
        need(sum(res.values()) == n, 'counts sum to %s' % sum(res.values())); dist = {b: v / n for b, v in res.items()}
    need(sorted(map(str, first)) == sorted(str(f(q)) for q in qs) and (order is None or list(first) == order), 'qubits %s, requested %s' % (first, order))
    need(all(isinstance(b, str) and len(b) == len(qs) and set(b) <= set('01') for b in dist), 'bitstrings %s' % sorted(dist))
    got = np.zeros((2,) * len(qs))
    for b, p in dist.items():
        bit = {back[q]: int(x) for q, x in zip(first, b)}
        got[tuple(bit[q] for q in qs)] += p
    def ok(want):
        if probe: return np.max(abs(got - want)) < 1e-4
        return np.all(abs(got - want) <= 6 * np.sqrt(want * (1 - want) / 3000) + 2e-3)
    if c['form'] == 'qiskit' and not ok(z(False)) and ok(z(True)): need(False, 'qiskit circuit: bitstrings are sampled as if gates on several qubits had their qubits in reverse order', key='qiskit-endianness')
    need(ok(z(False)), 'distribution (%s) %s, expected %s' % ('exact' if probe else 'from 3000 samples', np.round(got, 4).ravel(), np.round(z(False), 4).ravel()))
    # several samples: independent, counts and frequencies
    if probe and done:
        bs = [rng.choice(sorted(done)) for _ in range(3)]
        res, _ = one(sum((done[b] for b in bs), ()), 3, normalize=False); need(res == dict(Counter(bs)), 'three samples give %s, expected %s' % (res, dict(Counter(bs))))
        need(list(res.values()) == sorted(res.values(), reverse=True), 'not sorted by frequency')
        r2, _ = one(sum((done[b] for b in bs), ()), 3); need(r2.keys() == res.keys() and all(abs(r2[b] - res[b] / 3) < 1e-12 for b in res), 'frequencies %s for counts %s' % (r2, res))
    # unsupported circuits and orders are refused
    if c['form'] == 'gates':
        for what, fn in (('a two-qubit gate that is not a permutation', lambda: sampler.sample(obj + [(unitary(4, 3), (f(0), 'other'))], **{**kw, 'qubit_order': None})), ('an order of other qubits', lambda: sampler.sample(obj, **{**kw, 'qubit_order': ['nobody']}))):
            try: fn()
            except ValueError: continue
            need(False, 'accepted: %s' % what)
