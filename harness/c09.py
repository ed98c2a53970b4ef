"""C09 at run time: traversal."""
from .common import *
RULE = 'all trees with up to 5 leaves (first inner labelling), then random trees with 1..40 leaves and a few with 1000; non-trivial: at least two leaves'
CONTRACTS = ['traverse(tree, f): f once per node, after both children, root last', 'get_contraction(tree): one entry {child, child, node} per inner node, operands first']
nontrivial = lambda c: len(c['ch']) > 1
def cases(rng, tier):
    for nl in range(1, 6):
        for ch, par in all_trees(nl):
            yield dict(ch=ch, par=par)
    while True:
        nl = rng.choice([1, 2, 3, 5, 8, 13, 40]) if rng.random() < .98 else 1000
        ch, par = random_tree(rng, nl)
        yield dict(ch=ch, par=par)
def check(c):
    import tnco_core as core
    ch = c['ch']; n = len(ch); nl = (n + 1) // 2
    t = mk_tree(ch, c['par'])
    calls = []
    core.utils.traverse(t, calls.append)
    need(sorted(calls) == list(range(n)), 'traverse called %s for %d nodes' % (calls[:50], n))
    at = {x: i for i, x in enumerate(calls)}
    for x in range(nl, n): need(at[ch[x][0]] < at[x] and at[ch[x][1]] < at[x], 'node %d before a child' % x)
    need(calls[-1] == n - 1, 'last call is %d' % calls[-1])
    need(links(t.nodes) == (ch, c['par']), 'the tree changed')
    con = core.utils.get_contraction(t)
    need(len(con) == nl - 1, '%d contractions for %d inner nodes' % (len(con), nl - 1))
    have = set(range(nl)); made = set()
    for e in con:
        a, b, z = e
        need(nl <= z < n and z not in made, 'contraction %s' % (e,))
        need(sorted((a, b)) == sorted(ch[z]), 'contraction %s: children are %s' % (e, ch[z]))
        need(a in have and b in have, 'contraction %s: an operand does not exist yet' % (e,))
        have.add(z); made.add(z)
