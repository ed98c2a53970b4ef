"""C18 at run time: ordered frozen sets against frozenset."""
from .common import *
RULE = 'all pairs of sequences over 3 values with lengths up to 4 (121 x 121 sampled), then random sequences of mixed values; second operand as ordered frozen set, set, frozenset, list or iterator; non-trivial: both non-empty'
CONTRACTS = ['OrderedFrozenSet: membership, len, ==, hash, <, <=, >, >=, &, |, -, ^, named methods, iteration order, copy']
nontrivial = lambda c: bool(c['a']) and bool(c['b'])
def cases(rng, tier):
    seqs = [list(s) for k in range(5) for s in itertools.product([0, 1, 2], repeat=k)]
    pairs = [(a, b) for a in seqs for b in seqs]; rng.shuffle(pairs)
    for a, b in pairs[:3000]: yield dict(a=a, b=b)
    vals = [0, 1, 2, 3, 4, 5, 'a', 'b', 'c', -1, 2.5, None, True]
    while True:
        k = lambda: [rng.choice(vals) for _ in range(rng.randint(0, 9))]
        a = k(); b = rng.choice([k(), list(reversed(a)), a + k(), a[:len(a) // 2]])
        yield dict(a=a, b=b)
def shrink(c):
    for l in 'ab':
        for i in range(len(c[l])): yield dict(c, **{l: c[l][:i] + c[l][i + 1:]})
def uniq(xs):
    r = []
    for x in xs:
        if x not in r: r.append(x)
    return r
def check(c):
    from tnco.ordered_frozenset import OrderedFrozenSet as OFS
    a, b = c['a'], c['b']; A, B = frozenset(a), frozenset(b); ua, ub = uniq(a), uniq(b)
    x, y = OFS(a), OFS(iter(b))
    def same(z, order, what):
        need(type(z) is OFS, '%s is a %s' % (what, type(z).__name__))
        need(list(z) == order and [type(q) for q in z] == [type(q) for q in order], '%s iterates %s, expected %s' % (what, list(z), order))
        need(len(z) == len(order), '%s: len %d' % (what, len(z)))
        for v in uniq(a + b + ['zz']): need((v in z) == (v in order), '%s: membership of %r' % (what, v))
    same(x, ua, 'set'); same(y, ub, 'set'); same(x.copy(), ua, 'copy'); same(OFS(x), ua, 'OrderedFrozenSet(ordered)')
    res = dict(union=uniq(ua + ub), intersection=[v for v in ua if v in B], difference=[v for v in ua if v not in B], symmetric_difference=[v for v in ua if v not in B] + [v for v in ub if v not in A])
    for nm, want in res.items():
        ref = getattr(A, nm)(B)
        for o in (y, B, set(B), ub, iter(ub), tuple(b), (v for v in b)):
            z = getattr(x, nm)(o)
            if isinstance(o, (set, frozenset)):
                need(frozenset(z) == ref and len(list(z)) == len(ref), '%s(%s)' % (nm, type(o).__name__))
                kept = [v for v in z if v in A]; need(kept == [v for v in ua if v in kept], '%s(%s): order' % (nm, type(o).__name__))
            else: same(z, want, '%s(%s)' % (nm, type(o).__name__))
    for s, nm in (('|', 'union'), ('&', 'intersection'), ('-', 'difference'), ('^', 'symmetric_difference')):
        z = {'|': lambda p, q: p | q, '&': lambda p, q: p & q, '-': lambda p, q: p - q, '^': lambda p, q: p ^ q}[s](x, y); same(z, res[nm], 'x %s y' % s)
        z = {'|': lambda p, q: p | q, '&': lambda p, q: p & q, '-': lambda p, q: p - q, '^': lambda p, q: p ^ q}[s](x, B); need(frozenset(z) == getattr(A, nm)(B), 'x %s frozenset' % s)
    for o in (y, B, set(B)):
        t = type(o).__name__
        for nm, got, want in (('==', x == o, A == B), ('!=', x != o, A != B), ('<', x < o, A < B), ('<=', x <= o, A <= B), ('>', x > o, A > B), ('>=', x >= o, A >= B)): need(got is want, 'x %s %s is %r' % (nm, t, got))
    for o in (y, B, ub, iter(ub)):
        t = type(o).__name__
        if not hasattr(o, '__next__'):
            need(x.isdisjoint(o) is A.isdisjoint(B) and x.issubset(o) is A.issubset(B) and x.issuperset(o) is A.issuperset(B), 'isdisjoint/issubset/issuperset(%s)' % t)
    need(x.isdisjoint(iter(ub)) is A.isdisjoint(B) and x.issubset(iter(ub)) is A.issubset(B) and x.issuperset(iter(ub)) is A.issuperset(B), 'isdisjoint/issubset/issuperset(iterator)')
    need(bool(x) is bool(A), 'truth value')
    if A == B: need(hash(x) == hash(y), 'equal sets have hashes %d and %d' % (hash(x), hash(y)), key='hash')
    need(len({x, OFS(list(reversed(a)))}) == 1, 'equal sets are two elements of a set', key='hash')
    need(hash(x) == hash(OFS(a)), 'hash changes'); same(x, ua, 'x afterwards'); same(y, ub, 'y afterwards')
    need({x: 1}[OFS(a)] == 1, 'look-up')
