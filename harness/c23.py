"""C23 at run time: read_inds, TensorNetwork and load_tn."""
from .c17 import *
from . import c17
import json, os, tempfile, shutil, gzip, bz2, warnings
RULE = 'random networks written as lists, tuples, text (comments, blank lines, odd spacing), JSON, plain and compressed files, and TensorNetwork objects with and without arrays, with and without fusing and hyper-index decomposition; malformed variants; non-trivial: at least two tensors'
CONTRACTS = ['tn.read_inds / app.load_tn: exactly the tensors, indices in order, output and sparse indices, dimensions', 'TensorNetwork: rejects conflicting dimensions, unknown output or sparse indices, wrong shapes', 'load_tn(tn, fuse, decompose_hyper_inds): same value for every assignment of the outputs; without arrays same outer structure']
nontrivial = lambda c: len(c['net']['ts']) >= 2
def cases(rng, tier):
    g = c17.cases(rng, tier); k = 0
    while True:
        k += 1
        if k % 2:
            c = next(g); c.update(form='tn', fuse=rng.choice([0, None, 1, 2, 4, 10]), dec=rng.random() < .6, arrays=rng.choice(['all', 'all', 'none', 'some']), sparse=False, seed2=rng.randrange(100)); yield c
        else:
            net = random_net(rng, n_ts=rng.randint(1, 8), connected=rng.random() < .7, max_dim=12)
            inds = all_inds(net); spare = []
            if rng.random() < .3: spare = [inds[i] for i in range(len(inds)) if rng.random() < .4]
            yield dict(net=net, form=rng.choice(['list', 'tuple', 'text', 'json', 'file', 'gz', 'bz2', 'jsonfile', 'read', 'tn0']), tok=rng.choice([['*', '/'], ['out', 'sp'], ['/', '*']]) if rng.random() < .3 else ['*', '/'], sp=spare, seed=rng.randrange(10 ** 6), names=rng.choice(['s', 'i', 'n']), groups=[], explicit=rng.random() < .5)
def shrink(c): return c17.shrink(c) if c['form'] == 'tn' else ()
def check(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); (objects if c['form'] == 'tn' else spec)(c)
def rejects(fn, exc, what):
    try: fn()
    except exc: return
    except Exception as e: need(False, '%s: %s instead of %s' % (what, type(e).__name__, exc))
    need(False, 'accepted: %s' % what)
def spec(c):
    from tnco.app import app
    from tnco.app.tn import Tensor, TensorNetwork
    from tnco.utils import tn as U
    rng = random.Random(c['seed']); net = c['net']; inds = all_inds(net); rng.shuffle(inds); num = {x: k for k, x in enumerate(inds)}
    name = {'s': lambda i: 't%d' % i, 'i': lambda i: str(i), 'n': lambda i: ['A', '*x', '#y', 'β', '-1', '/2', 'x*'][i] if i < 7 else 'q%d' % i}[c['names']]
    out = set(net['out']); sp = set(c['sp']); O, S = c['tok']; rows = []; order = []
    for x in inds:
        mem = [i for i, xs in enumerate(net['ts']) if x in xs]; rng.shuffle(mem); t = [name(i) for i in mem]
        if x in out: t.insert(rng.randint(0, len(t)), O)
        if x in sp: t.insert(rng.randint(0, len(t)), S)
        rows.append([dim(net, x)] + t); order += [i for i in mem if i not in order]
    want = {i: tuple(num[x] for x in inds if x in net['ts'][i]) for i in order}
    dims = {num[x]: dim(net, x) for x in inds}; wo = frozenset(num[x] for x in out); ws = frozenset(num[x] for x in sp)
    kw = dict(fuse=0, decompose_hyper_inds=False)
    tk = dict(output_index_token=O, sparse_index_token=S)
    f = c['form']
    if f == 'read':
        m, d, o, s = U.read_inds({('k', k): tuple(r) for k, r in enumerate(rows)}, **tk)
        need(list(m) == [name(i) for i in order], 'tensors %s, expected %s' % (list(m), [name(i) for i in order]))
        need(list(m.values()) == [tuple(('k', k) for k in want[i]) for i in order], 'indices of the tensors: %s' % m)
        need(d == {('k', k): v for k, v in dims.items()} and o == frozenset(('k', k) for k in wo) and s == frozenset(('k', k) for k in ws), 'dims, outputs or sparse indices')
        rejects(lambda: U.read_inds({0: (2, 'A')}, output_index_token='*', sparse_index_token='*'), ValueError, 'identical tokens'); return
    if f == 'tn0':
        T = [Tensor([num[x] for x in xs], [dim(net, x) for x in xs], tags={'k': i}) for i, xs in enumerate(net['ts'])]
        cnt = Counter(x for xs in net['ts'] for x in xs)
        simple = all(cnt[x] <= 2 for x in cnt) and all(cnt[x] == 1 for x in out)
        tn = TensorNetwork(T if rng.random() < .5 else iter(T), output_inds=None if simple and not c['explicit'] else wo, sparse_inds=ws)
        if not simple and any(cnt[x] > 2 for x in cnt): rejects(lambda: TensorNetwork(T), ValueError, 'hyper-indices without output indices')
        got = app.load_tn(tn, **kw)
        for t in (tn, got):
            need([tuple(x) for x in t.ts_inds] == [tuple(num[x] for x in xs) for xs in net['ts']] and [x['k'] for x in t.ts_tags] == list(range(len(T))), 'tensors %s' % (t.ts_inds,))
            need(dict(t.dims) == dims and t.output_inds == wo and t.sparse_inds == ws and t.inds == frozenset(dims) and t.n_tensors == len(T) == len(t) and t.n_inds == len(dims), 'dims, outputs or sparse indices')
            need(all(a is None for a in t.arrays) and list(t) == T and t[0] == T[0], 'arrays')
        # malformed
        k = rng.randrange(len(T)); xs = list(T[k].inds)
        rejects(lambda: TensorNetwork(T, output_inds=wo | {'zz'}), ValueError, 'unknown output index')
        rejects(lambda: TensorNetwork(T, output_inds=wo, sparse_inds=['zz']), ValueError, 'unknown sparse index')
        if xs:
            bad = Tensor(xs, [d + (i == 0) for i, d in enumerate(T[k].dims)])
            if any(xs[0] in t.inds for i, t in enumerate(T) if i != k): rejects(lambda: TensorNetwork([bad if i == k else t for i, t in enumerate(T)], output_inds=wo), ValueError, 'conflicting dimensions')
            rejects(lambda: Tensor(xs, [0] * len(xs)), ValueError, 'dimension 0'); rejects(lambda: Tensor(xs, [1.5] * len(xs)), ValueError, 'fractional dimension')
            rejects(lambda: Tensor(xs, list(T[k].dims) + [2]), ValueError, 'too many dimensions')
            rejects(lambda: Tensor(xs, T[k].dims, np.zeros([d + 1 for d in T[k].dims])), ValueError, 'array of another shape')
            rejects(lambda: TensorNetwork([xs]), ValueError, 'something that is not a tensor')
        rejects(lambda: Tensor(xs), ValueError, 'neither dims nor array'); return
    d = tempfile.mkdtemp(prefix='tnco23')
    try:
        if f == 'list': obj = [list(r) for r in rows]
        elif f == 'tuple': obj = tuple(tuple(r) for r in rows)
        else:
            if f in ('json', 'jsonfile'): text = json.dumps(rows, indent=rng.choice([None, 1]))
            else:
                L = []
                for r in rows:
                    if rng.random() < .2: L.append(rng.choice(['', '# 2 A B', '#', '   ', '#OPENQASM 2.0']))
                    L.append(rng.choice([' ', '  ', '\t']).join(map(str, r)) + rng.choice(['', '', ' ', '\t']))
                text = '\n'.join(L) + rng.choice(['', '\n', '\n\n'])
            obj = text
            if f in ('file', 'gz', 'bz2', 'jsonfile'):
                b = text.encode()
                if f == 'gz' or (f == 'jsonfile' and rng.random() < .3): b = gzip.compress(b)
                if f == 'bz2': b = bz2.compress(b)
                obj = os.path.join(d, 'net' + rng.choice(['', '.txt', '.json', '.gz']))
                with open(obj, 'wb') as o: o.write(b)
        tn = app.load_tn(obj, **kw, **tk)
    finally: shutil.rmtree(d)
    need(len(tn) == len(order), '%d tensors, expected %d' % (len(tn), len(order)))
    need([t.tags.get('name') for t in tn] == [name(i) for i in order], 'tensor names %s' % [t.tags for t in tn])
    need([tuple(t.inds) for t in tn] == [want[i] for i in order], 'indices %s, expected %s' % ([tuple(t.inds) for t in tn], [want[i] for i in order]))
    need([tuple(t.dims) for t in tn] == [tuple(dims[k] for k in want[i]) for i in order] and dict(tn.dims) == dims, 'dimensions %s' % dict(tn.dims))
    need(tn.output_inds == wo and tn.sparse_inds == ws, 'output indices %s (expected %s), sparse %s (expected %s)' % (tn.output_inds, wo, tn.sparse_inds, ws))
    need(all(a is None for a in tn.arrays), 'arrays')
    rejects(lambda: app.load_tn([list(r) for r in rows], output_index_token='*', sparse_index_token='*', **kw), ValueError, 'identical tokens')
    rejects(lambda: app.load_tn([list(r) for r in rows] + [[2, O]], **kw, **tk), ValueError, 'an output index of no tensor')
    rejects(lambda: app.load_tn([list(r) for r in rows] + [[2, S]], **kw, **tk), ValueError, 'a sparse index of no tensor')
    rejects(lambda: app.load_tn([list(r) for r in rows] + [[rng.choice([0, -1]), 'Z']], **kw, **tk), ValueError, 'a dimension that is not positive')
    rejects(lambda: app.load_tn(iter(rows), **kw), NotImplementedError, 'an iterator')
def objects(c):
    from tnco.app import app
    from tnco.app.tn import Tensor, TensorNetwork
    net = c['net']; A = make(c); rng = random.Random(c['seed2']); out = list(net['out'])
    have = [c['arrays'] == 'all' or (c['arrays'] == 'some' and i % 2 == 0) for i in range(len(A))]
    tn = TensorNetwork([Tensor(xs, [dim(net, x) for x in xs], a if h else None, tags={'k': i}) for i, (xs, a, h) in enumerate(zip(net['ts'], A, have))], output_inds=out, tags={'mine': 1})
    got = app.load_tn(tn, fuse=c['fuse'], decompose_hyper_inds=c['dec'], seed=c['seed2'])
    need([t.tags for t in tn] == [{'k': i} for i in range(len(A))] and tn.tags == {'mine': 1}, 'the given network was changed')
    need(got.tags.get('mine') == 1, 'tags of the network are lost')
    full = all(have); fuse = c['fuse'] or 0
    if not any(have) or full:
        path = got.tags.get('fuse_path', []); mp = got.tags.get('hyper_inds_map', {x: x for x in all_inds(net)})
        need(fuse > 0 or not path, 'fused although fusing is off'); need(c['dec'] and full or 'hyper_inds_map' not in got.tags, 'decomposed although it was not asked for')
    else: path, mp = [], {x: x for x in all_inds(net)}
    need(len(got) == len(A) - len(path), '%d tensors after %d fusions of %d' % (len(got), len(path), len(A)))
    new_out = []
    for x in out:
        if mp[x] not in new_out: new_out.append(mp[x])
    need(got.output_inds == frozenset(new_out), 'output indices %s, expected %s' % (sorted(got.output_inds), sorted(new_out)))
    for x in got.inds: need(got.dims[x] == dim(net, x), 'dimension of %s' % x)
    need(all((t.array is not None) == full for t in got) if full or not any(have) else [t.array is not None for t in got] == have, 'arrays are lost or invented')
    for t in got:
        if t.array is not None: need(t.array.shape == tuple(dim(net, x) for x in t.inds), 'shape of a tensor')
    if full:
        ref = value(net['ts'], A, out); have_inds = set(x for t in got for x in t.inds)
        need(set(new_out) <= have_inds, 'an output index is in no tensor')
        v = value(*uniq([t.inds for t in got], [t.array for t in got]), new_out)
        for idx in np.ndindex(*ref.shape):
            a = {}; ok = True
            for x, i in zip(out, idx): ok = ok and a.setdefault(mp[x], i) == i
            w = v[tuple(a[x] for x in new_out)] if ok else 0
            need(abs(ref[idx] - w) < 1e-6 * max(1, abs(ref[idx])), 'value at %s is %g, %g after loading' % (dict(zip(out, map(int, idx))), ref[idx], w))
    else:
        pool = [frozenset([i]) for i in range(len(A))]
        for x, y in path:
            a, b = pool[x], pool[y]
            for k in sorted((x, y), reverse=True): pool.pop(k)
            pool.append(a | b)
        for mem, t in zip(pool, got):
            if len(mem) == 1: need(tuple(t.inds) == tuple(net['ts'][min(mem)]) and t.tags == {'k': min(mem)}, 'a tensor that was not fused changed'); continue
            outside = set(out) | set(x for i in range(len(A)) if i not in mem for x in net['ts'][i])
            need(set(t.inds) == set(x for i in mem for x in net['ts'][i]) & outside, 'fused tensor of %s carries %s' % (sorted(mem), t.inds))
