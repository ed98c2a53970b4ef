"""C24 at run time: Parallel and Buffer."""
from .common import *
import os, sys, time, threading, io, contextlib
RULE = 'random numbers of tasks (1..12), positional and keyword arguments, extra buffers, delays that reverse the finishing order, 1 to 3 workers, tasks that raise, timeouts that stop long tasks while others have finished; non-trivial: at least two tasks'
CONTRACTS = ['Parallel: result k is what the core returns for the k-th arguments, for every worker count', 'Parallel: after the timeout every stop flag is set, finished results are kept', 'Parallel: timer and shared memory are released, also when a task raises', 'Buffer: a fixed-size list of numbers']
nontrivial = lambda c: c.get('n', 0) >= 2
CASE_LIMIT_S = 100
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 5 == 0:
            yield dict(kind='buffer', dtype=rng.choice('qifdb?'), n=rng.randint(1, 20), seed=rng.randrange(10 ** 6)); continue
        n = rng.randint(1, 12); par = k % 40 == 3; c = dict(kind='run', n=n, jobs=rng.choice([2, 3]) if par else 1, args=rng.randint(0, 2), kw=rng.randint(0, 2), bufs=rng.randint(0, 2), fail=[i for i in range(n) if rng.random() < .3] if rng.random() < .3 else [], timeout=None, seed=rng.randrange(10 ** 6), verbose=rng.choice([0, 0, 0, 1]), short=rng.random() < .2)
        if not c['args'] and not c['kw']: c['kw'] = 1
        if k % 30 == 7 or k % 60 == 35: c.update(n=min(n, 4), timeout=rng.choice([.2, 0, 0., .05]), fail=[], jobs=2 if k % 60 == 35 else 1)
        yield c
def check(c): (buffer if c['kind'] == 'buffer' else run)(c)
def buffer(c):
    from tnco.parallel import Buffer
    rng = random.Random(c['seed'])
    val = lambda: bool(rng.randrange(2)) if c['dtype'] == '?' else rng.random() if c['dtype'] == 'd' else rng.randrange(-64, 64) * (.5 if c['dtype'] == 'f' else 1)
    ref = [val() for _ in range(c['n'])]; b = Buffer(ref, c['dtype'])
    try:
        for _ in range(30):
            need(len(b) == len(ref) and list(b) == ref and b.dtype == c['dtype'], 'buffer holds %s, expected %s' % (list(b), ref))
            i = rng.randrange(len(ref)); ref[i] = val(); b[i] = ref[i]; need(b[i] == ref[i], 'entry %d' % i)
        for f in (lambda: b[len(ref)], lambda: b.__setitem__(len(ref), ref[0])):
            try: f()
            except IndexError: pass
            else: need(False, 'access beyond the end is accepted')
    finally: b.shm.unlink()
    z = Buffer(c['n'], c['dtype'])
    try: need(len(z) == c['n'] and not any(z), 'a buffer of a given size is not %d zeros' % c['n'])
    finally: z.shm.unlink()
def run(c):
    from multiprocessing import shared_memory as SM
    import tnco.parallel as P, warnings
    n = c['n']; fail, timeout, seed = set(c['fail']), c['timeout'], c['seed']
    names = []; orig = SM.SharedMemory.__init__
    def init(self, name=None, create=False, *a, **k):
        orig(self, name, create, *a, **k)
        if create: names.append(self.name.lstrip('/'))
    rng = random.Random(seed); delays = [rng.choice([0, 0, .02]) * (n - i) / n for i in range(n)]
    args = [['a%d_%d' % (j, i) for i in range(n)] for j in range(c['args'])]
    kws = {'k%d' % j: [(j, i) for i in range(n + (j and c['short']))] for j in range(c['kw'])}
    bufs = [('b%d' % j, 'qd'[j]) for j in range(c['bufs'])]
    long = [timeout is not None and (i % 2 == 0 or i == n - 1) for i in range(n)]
    bnames = [b for b, _ in bufs]; delays_ = delays; long_ = long
    def core(*xs, idx, status, stop, **kw):
        import time
        time.sleep(delays_[idx])
        if idx in fail: raise ZeroDivisionError('task %d' % idx)
        ok = len(status) == len(stop) == len(delays_) and all(len(kw[b]) == len(delays_) for b in bnames)
        for b in bnames: kw[b][idx] = idx + 7
        status[idx] = .5
        t0 = time.time()
        if long_[idx]:
            while not stop[idx] and time.time() - t0 < 25: time.sleep(.01)
        return (idx, xs, {k: v for k, v in kw.items() if k not in bnames}, ok, [kw[b][idx] for b in bnames], bool(stop[idx]))
    before = set(threading.enumerate()); err = None; res = None
    SM.SharedMemory.__init__ = init
    t0 = time.time()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): res = P.Parallel(core, *args, n_jobs=c['jobs'], timeout=timeout, buffers=bufs, verbose=0 if c['jobs'] > 1 else c['verbose'], **kws)
    except Exception as e: err = e
    finally: SM.SharedMemory.__init__ = orig
    wall = time.time() - t0
    if fail: need(isinstance(err, ZeroDivisionError), 'a task raises and Parallel gives %r' % (err or res,))
    else:
        need(err is None, 'Parallel raises %r' % err)
        need(isinstance(res, list) and len(res) == n, '%s results for %d tasks' % (res if res is None else len(res), n))
        for i, r in enumerate(res):
            need(r[0] == i, 'result %d is that of task %d' % (i, r[0]))
            need(r[1] == tuple(a[i] for a in args) and r[2] == {k: v[i] for k, v in kws.items()}, 'task %d got the arguments %s %s' % (i, r[1], r[2]))
            need(r[3] and r[4] == [i + 7] * len(bufs), 'buffers of task %d' % i)
            if timeout is None: need(not r[5], 'task %d is told to stop without a timeout' % i)
            elif long[i]: need(r[5], 'task %d is not told to stop after the timeout' % i)
        if timeout is not None: need(wall < 20, 'the timeout of %s s stops nothing for %.0f s' % (timeout, wall))
    left = [x for x in names if os.path.exists('/dev/shm/' + x)]
    for x in left: os.unlink('/dev/shm/' + x)
    need(not left, 'shared memory %s is left behind%s' % (left, ' after a failed task' if fail else ''))
    t1 = time.time()
    timers = lambda: [t for t in threading.enumerate() if t not in before and isinstance(t, threading.Timer)]
    while timers() and time.time() - t1 < 3: time.sleep(.01)
    tm = timers()
    for t in tm: t.cancel()
    need(not tm, 'the timer is left running%s' % (' after a failed task' if fail else ''))
