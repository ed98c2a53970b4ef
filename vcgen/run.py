"""Runs a proof unit: symbolic execution of one real function against its contract, then discharge."""
import time, traceback, os, re, signal, multiprocessing as mp
import z3
from .core import *
from .core import Engine, Ctx, Obligation
from . import core
from .core import reset_caches
from .cxxexec import Interp, Restart, Thrown, Ret, Brk, Cont, LV

class Unit:
    """One function under contract.

    body(it): builds the symbolic pre-state, assumes the precondition, runs the function with
              it.call_fn(...) and states the postcondition with it.ctx.oblige(..., kind='post').
    """
    def __init__(self, name, props, body, contracts=None, loops=None, opts=None, lang='c++', timeout=20000, about='', regex=None):
        self.name, self.props, self.body = name, props, body
        self.contracts, self.loops, self.opts = contracts or {}, loops or {}, opts or {}
        self.lang, self.timeout, self.about, self.regex = lang, timeout, about, regex

class Result:
    def __init__(self, unit):
        self.unit = unit.name; self.status = 'undecided'; self.reason = ''
        self.obligations = []     # dicts
        self.covers = 0; self.vacuous = []
        self.paths = 0; self.others = 0; self.inlined = []; self.called = []; self.wall = 0.0
    def as_dict(self): return dict(self.__dict__)

def generate(unit, ast, make_interp=None):
    modsets = {}
    if unit.lang == 'python' and make_interp is None:
        from .pyexec import PyInterp as make_interp
    for attempt in range(80):
        eng = Engine(unit.name)
        last = {}
        def body(ctx):
            it = (make_interp or Interp)(ctx, ast, unit.contracts, unit.loops, modsets, unit.opts)
            last['it'] = it
            try:
                unit.body(it)
            except Thrown:
                # exceptional exit reached without the contract allowing it
                h = unit.opts.get('on_throw')
                if h: h(it)
                raise PathEnd()
            finally:
                last.setdefault('inlined', set()).update(it.inlined)
                last.setdefault('called', set()).update(it.called)
        try:
            eng.run(body)
            return eng, last
        except Restart:
            continue
    raise OutOfFragment('modified-variable discovery does not terminate')

def relevant(ob, prop):
    """Obligations labelled [Cnn] belong to that property only; the others to every property of the unit."""
    m = re.search(r'\[(C\d\d(?:,C\d\d)*)\]', ob.name)
    return prop is None or m is None or prop in m.group(1).split(',')

def _discharge_one(ob, unit, deadline, second):
    if deadline and time.time() > deadline:
        ob.status, ob.backend, ob.note = 'unknown', '-', 'time budget'
    else:
        try: discharge(ob, unit.timeout, second)
        except OutOfFragment as e: ob.status, ob.note = 'unknown', str(e)
        except z3.Z3Exception as e: ob.status, ob.note = 'unknown', 'z3: %s' % e
    d = dict(name=ob.name, kind=ob.kind, status=ob.status, backend=ob.backend, time=round(ob.time, 3), path=''.join('T' if b else 'F' for b in ob.path), note=ob.note[:200])
    if ob.status == 'refuted' and ob.model is not None:
        try: d['model'] = str(ob.model)[:3000]
        except Exception: pass
    return d

def discharge_all(obs, unit, deadline, second, jobs):
    reset_caches()
    k = max(1, min(jobs, len(obs) // 6))
    if k == 1: return [_discharge_one(ob, unit, deadline, second) for ob in obs]
    # blocks of consecutive obligations (they share hypotheses), dealt out to the workers
    part = [[i for i in range(len(obs)) if (i // 12) % k == j] for j in range(k)]
    procs = []
    for j in range(k):
        a, b = mp.Pipe(False)
        pid = os.fork()
        if pid == 0:
            try: b.send([_discharge_one(obs[i], unit, deadline, second) for i in part[j]])
            except BaseException as e:
                try: b.send(repr(e))
                except Exception: pass
            os._exit(0)
        b.close(); procs.append((pid, a))
    out = [None] * len(obs)
    for j, (pid, a) in enumerate(procs):
        try: r = a.recv()
        except EOFError: r = 'worker ended'
        os.waitpid(pid, 0)
        if isinstance(r, str): r = [dict(name=obs[i].name, kind=obs[i].kind, status='unknown', backend='-', time=0, path='', note=r[:200]) for i in part[j]]
        for i, d in zip(part[j], r): out[i] = d
    return out

def run_unit(unit, ast, deadline=None, second=False, make_interp=None, prop=None, jobs=8):
    res = Result(unit); t0 = time.time()
    try:
        eng, last = generate(unit, ast, make_interp)
    except OutOfFragment as e:
        res.reason = 'out of fragment: %s' % e; res.wall = time.time() - t0; return res
    except RecursionError as e:
        res.reason = 'out of fragment: recursion'; res.wall = time.time() - t0; return res
    except Exception as e:
        res.reason = 'generator error: %s: %s' % (type(e).__name__, str(e)[:300])
        res.trace = traceback.format_exc()
        res.wall = time.time() - t0; return res
    res.paths = eng.paths
    res.inlined = sorted(last.get('inlined', ())); res.called = sorted(last.get('called', ()))
    obs = [ob for ob in eng.obligations if relevant(ob, prop)]
    res.obligations, res.others = discharge_all(obs, unit, deadline, second, jobs), len(eng.obligations) - len(obs)
    bad = {k: [d for d in res.obligations if d['status'] == k] for k in ('refuted', 'unknown', 'disagree')}
    covers = {}
    for ob in eng.covers:
        covers.setdefault(ob.name, []).append(ob)
    for nm, obs in covers.items():
        st = None
        for ob in obs[:6]:
            discharge_cover(ob)
            if ob.status == 'covered': st = 'covered'; break
            st = 'unknown' if ob.status == 'unknown' or st == 'unknown' else 'vacuous'
        res.covers += 1
        if st == 'vacuous': res.vacuous.append(nm)
    res.wall = round(time.time() - t0, 2)
    if bad['refuted'] or bad['disagree']: res.status = 'refuted'
    elif bad['unknown']: res.status = 'undecided'; res.reason = 'solver: ' + '; '.join(sorted(set(o['name'] for o in bad['unknown']))[:4])
    elif not res.obligations: res.reason = 'no obligation generated'
    elif res.vacuous: res.reason = 'vacuous: ' + ', '.join(res.vacuous)
    else: res.status = 'proved'
    return res

def _worker(unit, ast, q, deadline, second, make_interp, prop=None, jobs=8):
    try:
        r = run_unit(unit, ast, deadline, second, make_interp, prop, jobs).as_dict()
    except BaseException as e:
        r = Result(unit).as_dict(); r['reason'] = 'error: %r' % (e,)
    try: q.send(r)
    except Exception: pass
    q.close()
    os._exit(0)

def run_units(units, asts, budget=600, jobs=8, second=False, prop=None):
    """Each unit in its own forked process (own z3 state); returns list of result dicts."""
    t0 = time.time(); deadline = t0 + budget
    pend = list(units); running = []; out = {}
    while pend or running:
        while pend and len(running) < jobs:
            u = pend.pop(0)
            if time.time() > deadline:
                r = Result(u).as_dict(); r['reason'] = 'time budget'; out[u.name] = r; continue
            a, b = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=_worker, args=(u, asts[u.lang]() if callable(asts[u.lang]) else asts[u.lang], b, deadline, second, getattr(u, 'make_interp', None), prop))
            p.start(); b.close()
            running.append((u, p, a))
        nr = []
        for u, p, a in running:
            if a.poll(0.02):
                try: out[u.name] = a.recv()
                except EOFError:
                    r = Result(u).as_dict(); r['reason'] = 'worker ended'; out[u.name] = r
                p.join()
            elif time.time() > deadline + 30:
                p.kill(); p.join()
                r = Result(u).as_dict(); r['reason'] = 'time budget'; out[u.name] = r
            else: nr.append((u, p, a))
        running = nr
    return [out[u.name] for u in units]
