"""C19 at run time: symbols and einsum expressions."""
from .nets import *
RULE = 'all symbol numbers 0..70000 and the largest ones; random networks of 0..12 tensors and some with hundreds of indices, repeated indices, outputs in any order; non-trivial: at least two tensors'
CONTRACTS = ['get_symbol injective, one character', 'tn.get_einsum_subscripts, tensor.get_einsum_subscripts: a renaming of the indices, operands and output in order']
nontrivial = lambda c: c.get('sym') is None and len(c['ts']) >= 2
def cases(rng, tier):
    yield dict(sym=[0, 70000]); yield dict(sym=[1111000, 1112064])
    while True:
        if rng.random() < .03:
            a = rng.randrange(0, 1100000); yield dict(sym=[a, a + 3000]); continue
        k = rng.choice([0, 1, 2, 3, 5, 12]); n = rng.choice([1, 3, 8, 20, 60, 300]) if rng.random() < .9 else 3000
        ts = [[rng.randrange(n) for _ in range(rng.randint(0, 6 if n < 60 else n // 2))] for _ in range(k)]
        fl = [x for xs in ts for x in xs]
        out = [rng.choice(fl) for _ in range(rng.randint(0, 5))] if fl else []
        if rng.random() < .2: out.append(n + 1)
        yield dict(sym=None, ts=ts, out=out, names=rng.choice(['int', 'str', 'tuple']))
def shrink(c):
    if c.get('sym'): return
    for i in range(len(c['ts'])): yield dict(c, ts=c['ts'][:i] + c['ts'][i + 1:])
def check(c):
    from tnco.utils import tn, tensor
    if c.get('sym'):
        lo, hi = c['sym']; s = [tn.get_symbol(i) for i in range(lo, hi)]
        need(all(isinstance(x, str) and len(x) == 1 for x in s), 'a symbol is not one character')
        need(len(set(s)) == len(s), 'symbols %s are not distinct' % c['sym'])
        base = [tn.get_symbol(i) for i in range(0, 400)]
        if lo >= 400: need(not set(base) & set(s), 'symbol of a large number equals one of a small number')
        need(not set(',->') & set(s), 'a symbol is a separator')
        return
    f = {'int': lambda x: x, 'str': lambda x: 'x%d' % x, 'tuple': lambda x: ('i', x)}[c['names']]
    ts = [[f(x) for x in xs] for xs in c['ts']]; out = [f(x) for x in c['out']]
    def match(e, ts, what):
        need(e.count('->') == 1, '%s: %r' % (what, e[:200]))
        l, r = e.split('->'); parts = l.split(',') if ts else [l]
        need(len(parts) == max(1, len(ts)), '%s: %d operands for %d tensors' % (what, len(parts), len(ts)))
        fw, bw = {}, {}
        for xs, p in list(zip(ts, parts)) + [(out, r)]:
            need(len(xs) == len(p), '%s: operand %r for indices %s' % (what, p, xs))
            for i, s in zip(xs, p):
                need(fw.setdefault(i, s) == s, '%s: index %r has symbols %r and %r' % (what, i, fw[i], s)); need(bw.setdefault(s, i) == i, '%s: symbol %r stands for %r and %r' % (what, s, bw[s], i))
    match(tn.get_einsum_subscripts(ts, out), ts, 'get_einsum_subscripts')
    match(tn.get_einsum_subscripts(iter(ts), iter(out)), ts, 'get_einsum_subscripts(iterators)')
    if len(ts) == 2: match(tensor.get_einsum_subscripts(ts[0], ts[1], out), ts, 'tensor.get_einsum_subscripts')
    if len(ts) == 2: match(tensor.get_einsum_subscripts(iter(ts[0]), iter(ts[1]), iter(out)), ts, 'tensor.get_einsum_subscripts(iterators)')
