"""C10 at run time: bitsets against Python sets."""
from .common import *
import pickle
RULE = 'all pairs of subsets for sizes 0..4, then random subsets of sizes up to 300 (block boundaries 63..65, 127..129 favoured); non-trivial: non-empty operands'
CONTRACTS = ['Bitset(positions, size), &, |, ^, -, ~, ==, comparisons, isdisjoint, issubset, issuperset, count, positions, visit, str, repr, pickle against finite sets']
nontrivial = lambda c: bool(c['a']) and bool(c['b'])
def cases(rng, tier):
    for n in range(5):
        for i in range(2 ** n):
            for j in range(2 ** n): yield dict(n=n, a=[k for k in range(n) if i >> k & 1], b=[k for k in range(n) if j >> k & 1], bad=None)
    while True:
        n = rng.choice([5, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 300, rng.randint(1, 300)])
        p = rng.choice([.02, .3, .5, .98])
        a = [k for k in range(n) if rng.random() < p]
        b = rng.choice([[k for k in range(n) if rng.random() < p], [k for k in a if rng.random() < .7], sorted(set(a) | {rng.randrange(n)}), list(a), [k for k in range(n) if k not in a]])
        rng.shuffle(a); rng.shuffle(b)
        yield dict(n=n, a=a, b=b, bad=rng.choice([None, n, n + 1, n + 64]))
def check(c):
    import tnco_core as core
    from tnco.bitset import Bitset as Py
    n = c['n']; A, B = set(c['a']), set(c['b']); U = set(range(n))
    x, y = core.Bitset(c['a'], n), core.Bitset(c['b'], n)
    def same(z, s, what):
        need(len(z) == n, '%s: size %d' % (what, len(z)))
        need(z.positions() == sorted(s), '%s: positions %s, expected %s' % (what, z.positions()[:40], sorted(s)[:40]))
        need(z.count() == len(s), '%s: count %d' % (what, z.count()))
        need(str(z) == ''.join('1' if k in s else '0' for k in range(n)), '%s: text %s' % (what, str(z)[:80]))
        need([z[k] for k in range(n)] == [k in s for k in range(n)], '%s: membership' % what)
        v = []; z.visit(v.append); need(v == sorted(s), '%s: visit %s' % (what, v[:40]))
    same(x, A, 'Bitset(positions)'); same(y, B, 'Bitset(positions)')
    same(x & y, A & B, 'and'); same(x | y, A | B, 'or'); same(x ^ y, A ^ B, 'xor'); same(x - y, A - B, 'difference'); same(~x, U - A, 'complement')
    same(x, A, 'left operand afterwards'); same(y, B, 'right operand afterwards')
    for nm, got, want in (('==', x == y, A == B), ('!=', x != y, A != B), ('isdisjoint', x.isdisjoint(y), A.isdisjoint(B)), ('issubset', x.issubset(y), A <= B), ('issuperset', x.issuperset(y), A >= B),
                          ('<=', x <= y, A <= B), ('>=', x >= y, A >= B), ('<', x < y, A < B), ('>', x > y, A > B)): need(got == want, '%s = %r' % (nm, got))
    need(repr(x) == 'Bitset(%s)' % str(x), 'repr')
    r = core.Bitset(str(x)); same(r, A, 'from text'); need(r == x, 'from text')
    r = pickle.loads(pickle.dumps(x)); same(r, A, 'pickled'); need(r == x, 'pickled')
    for cls in (core.Bitset, Py):
        def rejected(*a):
            try: cls(*a)
            except (ValueError, IndexError, TypeError, RuntimeError): return True
            return False
        if c['bad'] is not None: need(rejected(c['a'] + [c['bad']], n), '%s: position %d accepted for size %d' % (cls.__name__, c['bad'], n))
        else: need(rejected([n], n), '%s: position %d accepted for size %d' % (cls.__name__, n, n))
        need(rejected([-1], n), 'position -1 accepted')
    p = Py(c['a'], n); need(p == x and p.positions() == sorted(A), 'tnco.bitset.Bitset')
    try: x[n]; need(False, 'x[size] accepted')
    except IndexError: pass
    if n:
        p = Py(str(x)); need(p == x, 'tnco.bitset.Bitset from text')
