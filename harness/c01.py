"""C01 at run time: swap_with_nn against the declarative exchange."""
from .common import *
import tnco_core as core
RULE = 'every labelled tree with <=5 leaves and every position -3..n+2, then random trees (<=24 leaves, permuted inner labels) with sequences of swaps; non-trivial: the position has an uncle'
CONTRACTS = ['Tree.swap_with_nn: exact exchange with the uncle or no change; result valid (reference re-implemented on lists)']

def cases(rng, tier):
    for nl in (1, 2, 3, 4, 5):
        for ch, par in all_trees(nl):
            n = len(ch)
            for p in range(-3, n + 3): yield dict(ch=ch, par=par, seq=[p])
    for k in range(3000 if tier == 'quick' else 60000):
        nl = rng.randint(2, 24)
        ch, par = random_tree(rng, nl)
        n = len(ch)
        yield dict(ch=ch, par=par, seq=[rng.choice([rng.randrange(n)] * 12 + [-1, -2, -n, n, n + 1, 10**9, -10**9]) for _ in range(rng.randint(1, 30))])

def nontrivial(case):
    return any(0 <= p < len(case['par']) and case['par'][p] >= 0 and case['par'][case['par'][p]] >= 0 for p in case['seq'])

def expected(ch, par, D):
    ch = [list(c) for c in ch]; par = list(par)
    if not 0 <= D < len(par) or par[D] < 0 or par[par[D]] < 0: return ch, par, None
    B = par[D]; A = par[B]; C = [c for c in ch[A] if c != B][0]
    ch[A] = [D if c == C else c for c in ch[A]]
    ch[B] = [C if c == D else c for c in ch[B]]
    par[C], par[D] = B, A
    return ch, par, (A, B)

def check(case):
    t = mk_tree(case['ch'], case['par'])
    ch, par = [list(c) for c in case['ch']], list(case['par'])
    for k, p in enumerate(case['seq']):
        t.swap_with_nn(p)
        ech, epar, ab = expected(ch, par, p)
        rch, rpar = links(t.nodes)
        need(len(rch) == len(ch), 'number of nodes changed')
        for i in range(len(ch)):
            need(rpar[i] == epar[i], 'after swap #%d of %d: parent of %d is %d, expected %d' % (k, p, i, rpar[i], epar[i]))
            ok = rch[i] == ech[i] or (ab and i in ab and sorted(rch[i]) == sorted(ech[i]))
            need(ok, 'after swap #%d of %d: children of %d are %r, expected %r' % (k, p, i, rch[i], ech[i]))
        pb = tree_problem(rch, rpar)
        need(pb is None, 'after swap #%d of %d the tree is not valid: %s' % (k, p, pb))
        ch, par = rch, rpar

def shrink(case):
    s = case['seq']
    for i in range(len(s)):
        if len(s) > 1: yield dict(case, seq=s[:i] + s[i + 1:])
