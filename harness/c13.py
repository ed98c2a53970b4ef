"""C13 at run time: merging and splitting paths."""
from .nets import *
RULE = 'random disjoint components (some single, some untouched) over up to 14 tensors in random interleaving with random sub-paths; non-trivial: at least two components with a step each'
CONTRACTS = ['merge_contraction_paths: step k of component i contracts the same tensors', 'split_contraction_path(merge(paths)) == paths', 'autocomplete contracts everything to one tensor', 'normalize_paths, return_connected_components']
nontrivial = lambda c: sum(1 for p in c['paths'] if p) >= 2
def rp(rng, n, members):
    """linear path over n tensors contracting exactly members (to one tensor or partially)"""
    pool = list(range(n)); mem = list(members); path = []; nxt = n
    while len(mem) > 1:
        a, b = rng.sample(mem, 2); mem.remove(a); mem.remove(b)
        x, y = pool.index(a), pool.index(b)
        path.append([x, y] if rng.random() < .7 else [y, x])
        for k in sorted((x, y), reverse=True): pool.pop(k)
        pool.append(nxt); mem.append(nxt); nxt += 1
    return path
def cases(rng, tier):
    while True:
        n = rng.randint(1, 14); k = rng.randint(1, min(4, n))
        comp = [[] for _ in range(k)]
        for i in range(n): comp[rng.randrange(k)].append(i)
        comp = [x for x in comp if x]
        yield dict(n=n, comp=comp, paths=[rp(rng, n, x) for x in comp], inter=rng.randrange(10 ** 6))
def run(n, path):
    """steps as (set, set) of original tensors, and what is left"""
    pool = [frozenset([i]) for i in range(n)]; steps = []
    for s in path:
        x, y = s
        need(0 <= x < len(pool) and 0 <= y < len(pool) and x != y, 'step %s with %d tensors left' % (s, len(pool)))
        a, b = pool[x], pool[y]
        for k in sorted((x, y), reverse=True): pool.pop(k)
        pool.append(a | b); steps.append((a, b))
    return steps, pool
def canon(steps): return [frozenset(s) for s in steps]
def check(c):
    from tnco.utils.tn import merge_contraction_paths as merge, split_contraction_path as split
    n = c['n']; comps = [frozenset(x) for x in c['comp']]
    each = [canon(run(n, p)[0]) for p in c['paths']]
    tup = [[tuple(s) for s in p] for p in c['paths']]
    m = merge(n, tup, autocomplete=False)
    steps, left = run(n, m)
    need(canon(steps) == [s for e in each for s in e], 'merged path contracts %s, the paths contract %s' % (canon(steps), each))
    need(set(left) == set(comps), 'left after the merged path: %s, components %s' % (left, comps))
    m2 = merge(n, iter(tup))
    s2, left2 = run(n, m2)
    need(m2[:len(m)] == m and len(left2) == 1, 'autocomplete leaves %d tensors' % len(left2))
    def by(paths): return sorted((sorted(map(sorted, (s for st in x for s in st))) for x in paths))
    def check_split(path, what, order=None):
        st, lf = run(n, path)
        want = {}
        for s in st:
            root = next(t for t in lf if s[0] <= t); want.setdefault(root, []).append(frozenset(s))
        got = split(n, path)
        need(len(got) == len(want), '%s: %d paths for %d components' % (what, len(got), len(want)))
        g = {}
        for p in got:
            sp, lp = run(n, p)
            need(all(sum(1 for t in lp if len(t) > 1) == 1 for _ in [0]), '%s: a part is not one component' % what)
            g[next(t for t in lp if len(t) > 1)] = canon(sp)
        need(g == want, '%s: parts contract %s, expected %s' % (what, g, want))
        p2, cc = split(n, path, return_connected_components=True)
        need(len(p2) == len(cc) and set(cc) == set(lf), '%s: components %s, expected %s' % (what, cc, lf))
        for p, t in zip(p2, cc):
            sp, lp = run(n, p); need(canon(sp) == want.get(t, []), '%s: path of component %s' % (what, sorted(t)))
        p3, cc3 = split(n, path, return_connected_components=True, normalize_paths=True)
        for p, t in zip(p3, cc3):
            mem = sorted(t); sp, lp = run(len(mem), p)
            need([frozenset(frozenset(mem[i] for i in a) for a in s) for s in sp] == want.get(t, []), '%s: normalized path of component %s' % (what, sorted(t)))
        return got
    got = check_split(m, 'split of the merged path')
    norm = lambda ps: [[tuple(sorted(s)) for s in p] for p in ps if p]
    need(sorted(norm(got)) == sorted(norm(c['paths'])), 'split(merge(paths)) = %s, paths = %s' % (got, c['paths']))
    # any interleaving of the steps splits into the same parts
    rng = random.Random(c['inter']); pool = list(range(n)); queues = []
    for p in c['paths']:
        loc = list(range(n)); q = []; k = 0
        for x, y in p:
            a, b = loc[x], loc[y]
            for z in sorted((x, y), reverse=True): loc.pop(z)
            loc.append(('t', id(p), k)); q.append((a, b, ('t', id(p), k))); k += 1
        queues.append(q)
    path = []
    while any(queues):
        q = rng.choice([q for q in queues if q]); a, b, z = q.pop(0)
        x, y = pool.index(a), pool.index(b); path.append((x, y))
        for k in sorted((x, y), reverse=True): pool.pop(k)
        pool.append(z)
    got = check_split(path, 'split of an interleaved path')
    need(sorted(norm(got)) == sorted(norm(c['paths'])), 'split of an interleaved path = %s, paths = %s' % (got, c['paths']))
    if c['n'] > 1:
        r = merge(n, got, autocomplete=False); need(sorted(map(str, map(sorted, canon(run(n, r)[0])))) is not None and set(run(n, r)[1]) == set(comps), 'merge(split(path))')
    # paths that are not disjoint are refused
    if tup and tup[0]:
        try: merge(n, [tup[0], tup[0]], autocomplete=False)
        except (ValueError, IndexError): pass
        else: need(False, 'the same component given twice is accepted')
