"""Input generators and reference definitions shared by the run-time contracts."""
import random, itertools, math
from fractions import Fraction
import __main__
Fail = __main__.Fail

def need(cond, msg, key=None):
    if not cond: raise Fail(msg, key)

# ---------------------------------------------------------------- trees
def random_tree(rng, nl, shape=None, relabel=True):
    """children/parent lists of a random full binary tree: leaves 0..nl-1, root last, inner labels permuted."""
    n = 2 * nl - 1
    ch = [(-1, -1)] * n; par = [-1] * n
    pool = list(range(nl)); nxt = nl
    shape = shape or rng.choice(['rand', 'path', 'bal'])
    while len(pool) > 1:
        if shape == 'path': i, j = len(pool) - 1, rng.randrange(len(pool) - 1)
        elif shape == 'bal': i, j = 1, 0
        else: i, j = rng.sample(range(len(pool)), 2)
        a, b = pool[i], pool[j]
        for k in sorted((i, j), reverse=True): pool.pop(k)
        if rng.random() < .5: a, b = b, a
        ch[nxt] = (a, b); par[a] = par[b] = nxt
        pool.append(nxt); nxt += 1
    if relabel and n > nl + 1:
        p = list(range(nl, n - 1)); rng.shuffle(p)
        m = list(range(nl)) + p + [n - 1]
        mm = lambda x: x if x < 0 else m[x]
        ch2 = [None] * n; par2 = [None] * n
        for i in range(n):
            ch2[m[i]] = (mm(ch[i][0]), mm(ch[i][1])); par2[m[i]] = mm(par[i])
        ch, par = ch2, par2
    return [list(c) for c in ch], par

def all_trees(nl):
    """every full binary tree on labelled leaves (one inner labelling, children in one order)."""
    def rec(pool, nxt, ch):
        if len(pool) == 1: yield dict(ch); return
        # canonical: always merge the pair containing ... enumerate merges of sets without duplicates via frozenset trees
        raise NotImplementedError
    def shapes(leaves):
        leaves = tuple(leaves)
        if len(leaves) == 1: yield leaves[0]; return
        first, rest = leaves[0], leaves[1:]
        for r in range(len(rest)):
            for left in itertools.combinations(rest, r):
                l = (first,) + left; rr = tuple(x for x in rest if x not in left)
                for a in shapes(l):
                    for b in shapes(rr): yield (a, b)
    for s in shapes(range(nl)):
        ch = {}; par = {}; cnt = [nl]
        def walk(t):
            if not isinstance(t, tuple): return t
            a, b = walk(t[0]), walk(t[1])
            k = cnt[0]; cnt[0] += 1
            ch[k] = [a, b]; par[a] = par[b] = k
            return k
        r = walk(s)
        n = 2 * nl - 1
        yield [ch.get(i, [-1, -1]) for i in range(n)], [par.get(i, -1) for i in range(n)]

def tree_problem(ch, par):
    """None if (ch, par) is a valid tree with its leaves first and its root last, else what is wrong."""
    n = len(ch)
    if n < 1 or n % 2 == 0: return 'number of nodes %d' % n
    nl = (n + 1) // 2
    for i in range(n):
        leaf = ch[i][0] is None or ch[i][0] < 0
        leaf2 = ch[i][1] is None or ch[i][1] < 0
        if leaf != leaf2: return 'node %d has one child' % i
        if leaf != (i < nl): return 'node %d: leaves must come first' % i
        root = par[i] is None or par[i] < 0
        if root != (i == n - 1): return 'node %d: the root must be the last node, and alone' % i
        if not leaf:
            a, b = ch[i]
            if a == b: return 'node %d: equal children' % i
            for c in (a, b):
                if not 0 <= c < n: return 'node %d: child out of range' % i
                if par[c] != i: return 'node %d is not the parent of its child %d' % (i, c)
        if not root:
            if not 0 <= par[i] < n: return 'node %d: parent out of range' % i
            if i not in ch[par[i]]: return 'node %d is not a child of its parent' % i
    seen = set(); stack = [n - 1]
    while stack:
        x = stack.pop()
        if x in seen: return 'cycle through %d' % x
        seen.add(x)
        if x >= nl: stack += list(ch[x])
    if len(seen) != n: return '%d nodes are not reachable from the root' % (n - len(seen))
    return None

def mk_nodes(ch, par):
    import tnco_core as c
    return [c.Node(list(a), p) for a, p in zip(ch, par)]
def mk_tree(ch, par):
    import tnco_core as c
    return c.Tree(mk_nodes(ch, par))
def links(nodes):
    f = lambda x: -1 if x is None else x
    return [[f(x) for x in nd.children] for nd in nodes], [f(nd.parent) for nd in nodes]
