"""Evaluates a property's contracts at run time on the real code (run by the interpreter that tnco runs under).

usage: main.py PROPERTY --so PATH --seed N --tier T --budget S --out FILE [--replay FILE]
Bounded: it only samples (or, below the stated sizes, enumerates) inputs.  It is used to find a concrete failing
input for a failed obligation, and as the labelled stand-in where an obligation could not be decided.
"""
import sys, os, json, time, argparse, traceback, importlib, importlib.util, random, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True

def load_real(so, repo):
    sys.meta_path[:] = [f for f in sys.meta_path if type(f).__name__ not in ('ScikitBuildInplaceFinder', 'ScikitBuildRedirectingFinder')]
    sys.path[:] = [repo] + [p for p in sys.path if p not in (HERE, '/repo')]
    sys.path.insert(0, os.path.dirname(HERE))
    if so:
        spec = importlib.util.spec_from_file_location('tnco_core', so)
        m = importlib.util.module_from_spec(spec); sys.modules['tnco_core'] = m
        spec.loader.exec_module(m)

class Fail(Exception):
    """The contract is broken on this input.  key identifies the specific site (known findings)."""
    def __init__(self, msg, key=None): super().__init__(msg); self.key = key

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--so', default=''); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick'); ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--out', required=True); ap.add_argument('--replay'); ap.add_argument('--known', default='')
    a = ap.parse_args()
    repo = os.environ.get('TNCO_REPO', '/repo')
    load_real(a.so, repo)
    sys.modules['harness.main'] = sys.modules['__main__']
    mod = importlib.import_module('harness.%s' % a.prop.lower())
    known = json.load(open(a.known)) if a.known else []
    known_keys = {k['key']: k for k in known if k.get('property') == a.prop and k.get('key') and not k.get('fixed')}
    res = dict(evaluations=0, distinct=0, samples=[], failure=None, known=[], rule=getattr(mod, 'RULE', ''), exhaustive=None, contracts=getattr(mod, 'CONTRACTS', []))
    cur = open(a.out + '.case', 'w')
    t0 = time.time(); seen = set()
    limit = int(getattr(mod, 'CASE_LIMIT_S', 120))
    def on_alarm(*_): raise Fail('no answer within %d s' % limit)
    signal.signal(signal.SIGALRM, on_alarm)
    def one(case):
        s = json.dumps(case)
        cur.seek(0); cur.truncate(); cur.write(s); cur.flush()
        signal.alarm(limit)
        try:
            mod.check(case)
        except Fail as e: return dict(message=str(e), key=e.key)
        except Exception as e:
            return dict(message='%s: %s' % (type(e).__name__, str(e)[:500]), key=None, traceback=traceback.format_exc()[-3000:])
        finally: signal.alarm(0)
        return None
    if a.replay:
        case = json.load(open(a.replay))['case']
        f = one(case)
        res['failure'] = dict(case=case, **f) if f else None
    else:
        rng = random.Random(a.seed)
        gen = mod.cases(rng, a.tier)
        while True:
            try: case = next(gen)
            except StopIteration: break
            if time.time() - t0 > a.budget: res['stopped'] = 'time budget'; break
            res['evaluations'] += 1
            h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()
            if h not in seen:
                seen.add(h)
                if not hasattr(mod, 'nontrivial') or mod.nontrivial(case): res['distinct'] += 1
                if len(res['samples']) < 3 or (len(seen) in (50, 500)): res['samples'].append(case)
            f = one(case)
            if f and f.get('key') in known_keys and f.get('key'):
                if f['key'] not in [k['key'] for k in res['known']]: res['known'].append(dict(key=f['key'], message=f['message'], case=case))
                continue
            if f:
                if hasattr(mod, 'shrink'):
                    t1 = time.time()
                    changed = True
                    while changed and time.time() - t1 < 20:
                        changed = False
                        for c in mod.shrink(case):
                            g = one(c)
                            if g and not (g.get('key') and g.get('key') in known_keys): case, f, changed = c, g, True; break
                            if time.time() - t1 > 20: break
                res['failure'] = dict(case=case, **f); break
    res['wall'] = time.time() - t0
    res['calls'] = getattr(mod, 'CALLS', {})
    json.dump(res, open(a.out, 'w'))
    cur.close()
    if 'joblib' in sys.modules:
        try:
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True)
            import atexit; atexit._run_exitfuncs()
        except Exception: pass
    os._exit(0)

if __name__ == '__main__': main()
