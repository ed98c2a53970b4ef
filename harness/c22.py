"""C22 at run time: dump_results and load_file, inside a scratch directory of their own."""
from .nets import *
import os, tempfile, shutil, json, pickle, gzip, bz2
RULE = 'combinations of file name suffix, format, compression, overwrite flag, an existing file (or link to one, or none) for random small networks and results; through dump_results, its check, and Optimizer(...).optimize; files of every kind through load_file; non-trivial: a file name is given'
CONTRACTS = ['dump_results: existing file unchanged unless overwrite_output_file; inconsistent request refused before any work, with and without check_only', 'dump_results then load_file (unpickle) returns the same network and results, in the requested format and compression', 'load_file(f) returns the decompressed JSON value, text or bytes of f']
nontrivial = lambda c: c.get('name') is not None
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 7 == 3:
            yield dict(kind='load', data=rng.choice(['json', 'text', 'bin', 'empty', 'utf8']), comp=[rng.choice(['gzip', 'bz2']) for _ in range(rng.choice([0, 1, 1, 2]))], seed=rng.randrange(10 ** 6), name='f' + rng.choice(['', '.gz', '.json', '.bz2', '.txt'])); continue
        name = rng.choice([None, 'out', 'out.json', 'out.gzip', 'out.bz2', 'out.dat.bz2', 'out.gz', 'sub/out.gzip', 'out.'])
        yield dict(kind='dump' if rng.random() < .85 else 'opt', name=name, fmt=rng.choice([None, 'raw', 'json', 'json', 'JSON', 'Raw', 'xml', '']) if rng.random() < .5 else rng.choice(['raw', 'json']),
                   comp=rng.choice(['auto', 'auto', 'none', 'bz2', 'gzip', 'GZIP', 'Auto', 'zip', 'json', None]) if rng.random() < .7 else 'auto', over=rng.random() < .4,
                   old=rng.choice([None, None, 'file', 'link', 'empty', 'late']), arrays=rng.choice([None, 'real', 'complex']), n_res=rng.choice([0, 1, 3]), finite=rng.random() < .3, seed=rng.randrange(10 ** 6), n=rng.randint(1, 4))
def check(c):
    d = tempfile.mkdtemp(prefix='tnco22')
    try: (load if c['kind'] == 'load' else dump)(c, d)
    finally: shutil.rmtree(d)
def load(c, d):
    from tnco.app.app import load_file
    rng = random.Random(c['seed'])
    val = {'json': {'a': [1, 2.5, None, 'x'], 'b': rng.random()}, 'text': 'some text\n%d [' % rng.randrange(100), 'bin': bytes([0x80, 0xff, rng.randrange(256)]) + os.urandom(8), 'empty': '', 'utf8': 'é' * rng.randint(1, 9) + '{'}[c['data']]
    b = val if isinstance(val, bytes) else (json.dumps(val) if c['data'] == 'json' else val).encode()
    for k in c['comp']: b = (gzip if k == 'gzip' else bz2).compress(b)
    f = os.path.join(d, c['name'])
    with open(f, 'wb') as o: o.write(b)
    got = load_file(f)
    need(type(got) is type(val) and got == val, 'load_file of %s %s gives %r, not %r' % (c['data'], c['comp'], got, val))
    with open(f, 'rb') as o: need(o.read() == b, 'load_file changes the file')
    try: load_file(f + 'x')
    except FileNotFoundError: pass
    else: need(False, 'load_file of a missing file')
def snap(d):
    r = {}
    for p, ds, fs in os.walk(d):
        for x in fs:
            q = os.path.join(p, x)
            r[os.path.relpath(q, d)] = ('link', os.readlink(q)) if os.path.islink(q) else open(q, 'rb').read()
    return r
def problem(c, exists):
    """the exception a request deserves"""
    ok = []
    if c['fmt'] is not None and c['fmt'].lower() not in ('raw', 'json'): ok.append(ValueError)
    if str(c['comp']).lower() not in ('auto', 'none', 'bz2', 'gzip'): ok.append(ValueError)
    elif str(c['comp']).lower() in ('bz2', 'gzip') and not c['name']: ok.append(ValueError)
    if c['name'] and exists and not c['over']: ok.append(FileExistsError)
    return tuple(ok)
def dump(c, d):
    import numpy as np
    from tnco.app import app
    from tnco.app.tn import Tensor, TensorNetwork
    from tnco.app.infinite_memory.sa import ContractionResults as R1
    from tnco.app.finite_width.sa import ContractionResults as R2
    rng = random.Random(c['seed']); net = random_net(rng, n_ts=c['n'])
    def arr(xs):
        if not c['arrays']: return None
        sh = tuple(dim(net, x) for x in xs); a = np.array([rng.random() for _ in range(int(np.prod(sh, dtype=int)))]).reshape(sh)
        return a if c['arrays'] == 'real' else a + 1j * a
    tn = TensorNetwork([Tensor(xs, [dim(net, x) for x in xs], arr(xs), tags=dict(name='t%d' % i)) for i, xs in enumerate(net['ts'])], output_inds=net['out'], sparse_inds=net['out'][:1])
    res = []
    for _ in range(c['n_res']):
        p = [tuple(s) for s in random_path(rng, net)]
        kw = dict(cost=rng.random() * 1e5, runtime_s=rng.random(), path=p, disconnected_costs=[1.5], disconnected_paths=[p])
        res.append(R2(**kw, disconnected_slices=[frozenset(net['out'][:1])], slices=frozenset(net['out'][:1])) if c['finite'] else R1(**kw))
    os.mkdir(os.path.join(d, 'sub'))
    f = os.path.join(d, c['name']) if c['name'] else None
    with open(os.path.join(d, 'other'), 'w') as o: o.write('other data')
    def make():
        if c['old'] in ('file', 'empty', 'late'):
            with open(f, 'w') as o: o.write('' if c['old'] == 'empty' else 'precious')
        elif c['old'] == 'link':
            with open(os.path.join(d, 'precious'), 'w') as o: o.write('precious')
            os.symlink(os.path.join(d, 'precious'), f)
    if f and c['old'] != 'late': make()
    opts = dict(output_format=c['fmt'], output_filename=f, output_compression=c['comp'], overwrite_output_file=c['over'])
    exists = bool(f) and c['old'] not in (None, 'late'); bad = problem(c, exists)
    s0 = snap(d)
    def refused(fn, bad, what):
        try: r = fn()
        except Exception as e:
            need(bad and isinstance(e, bad), '%s: %s: %s for a request that %s' % (what, type(e).__name__, e, 'deserves ' + str([b.__name__ for b in bad]) if bad else 'is consistent'))
            need(snap(d) == s0, '%s: refused, but files changed' % what)
            return True, None
        need(not bad, '%s: an inconsistent request is accepted (%s expected)' % (what, [b.__name__ for b in bad]))
        return False, r
    stop, r = refused(lambda: app.dump_results(None, None, check_only=True, **opts), bad, 'check only')
    if not stop: need(r is None and snap(d) == s0, 'the check changes files or returns something')
    late = False
    if c['kind'] == 'opt':
        def build(): return app.Optimizer(method='sa', max_width=(50 if c['finite'] else None), n_jobs=1, seed=1, width_type='float64', cost_type='float64', **opts)
        stop, o = refused(build, bad, 'Optimizer construction')
        need(snap(d) == s0, 'constructing an optimizer changes files')
        if stop: return
        if f and c['old'] == 'late': make(); late = True; s0 = snap(d); bad = problem(c, True)
        def run(): return o.optimize(tn, betas=(0, 10), n_steps=3, n_runs=max(1, c['n_res']), fuse=0, decompose_hyper_inds=False, **(dict(n_projs=2) if tn.sparse_inds else {}))
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); stop, r = refused(run, bad, 'optimize')
    else:
        if f and c['old'] == 'late': make(); late = True; s0 = snap(d); bad = problem(c, True)
        stop, r = refused(lambda: app.dump_results(tn, res, **opts), bad, 'dump_results')
    if stop: return
    js = (c['fmt'] or 'raw').lower() == 'json'
    if f:
        need(r is None, 'a result is returned although it was written to a file')
        s1 = snap(d); rel = os.path.relpath(f, d); target = 'precious' if c['old'] == 'link' else rel
        for k in s0:
            if k != target: need(s1.get(k) == s0[k], 'another file (%s) was changed' % k)
        need(set(s1) == set(s0) | {rel}, 'files written: %s' % sorted(set(s1) - set(s0)))
        b = open(f, 'rb').read(); cm = str(c['comp']).lower()
        if cm == 'auto': cm = {'.gzip': 'gzip', '.bz2': 'bz2'}.get(os.path.splitext(f)[1], 'none')
        magic = 'gzip' if b[:2] == b'\x1f\x8b' else 'bz2' if b[:3] == b'BZh' else 'none'
        need(magic == cm, 'the file is compressed as %s, requested %s' % (magic, cm))
        raw = {'gzip': gzip.decompress, 'bz2': bz2.decompress, 'none': lambda x: x}[cm](b)
        val = app.load_file(f)
        if js: need(json.loads(raw) == val, 'load_file reads other data than was written')
        else: need(isinstance(val, bytes) and val == raw, 'load_file reads other data than was written'); val = pickle.loads(val)
    else:
        need(snap(d) == s0, 'a file was written although no file name was given')
        if js: need(isinstance(r, str), 'JSON output is not text'); val = json.loads(r)
        else: val = r
    norm = lambda x: json.loads(json.dumps(x, default=str))
    if js:
        need(set(val) == {'tn', 'res'} and len(val['tn']['tensors']) == len(tn), 'JSON content: %s' % str(val)[:300])
        for t, u in zip(tn, val['tn']['tensors']):
            need(list(t.inds) == u['inds'] and list(t.dims) == u['dims'] and u['tags'] == norm(t.tags) and (t.array is None) == (u['array'] is None), 'JSON tensor %s' % str(u)[:300])
            if t.array is not None:
                want = [complex(x) for x in t.array.ravel()]; flat = np.array(u['array'], dtype=object).ravel().tolist()
                need([complex(x.replace(' ', '').replace('+-', '-')) if isinstance(x, str) else complex(x) for x in flat] == want, 'JSON array')
        need(sorted(val['tn']['output_inds']) == sorted(tn.output_inds) and sorted(val['tn']['sparse_inds']) == sorted(tn.sparse_inds), 'JSON output or sparse indices')
        got = [(float(x['cost']), x['path'], x['disconnected_paths'], x['runtime_s'], sorted(x.get('slices', ()))) for x in val['res']]
        if c['kind'] == 'dump': need(got == [(x.cost, norm(x.path), norm(x.disconnected_paths), x.runtime_s, sorted(getattr(x, 'slices', ()))) for x in res], 'JSON results %s' % str(got)[:300])
        else: need(len(got) == max(1, c['n_res']), 'number of results')
    else:
        need(isinstance(val, tuple) and len(val) == 2, 'raw output')
        t2, r2 = val
        need(len(t2) == len(tn) and all(a == b and a.tags == b.tags for a, b in zip(tn, t2)) and t2.output_inds == tn.output_inds and t2.sparse_inds == tn.sparse_inds, 'another network was written')
        if c['kind'] == 'dump': need([type(x) for x in r2] == [type(x) for x in res] and [vars(x) for x in r2] == [vars(x) for x in res], 'other results were written')
        else: need(len(r2) == max(1, c['n_res']), 'number of results')
