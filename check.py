#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

1. re-extracts the functions under contract from the current tree (clang AST of the headers, Python AST of the
   modules), generates the proof obligations and discharges them (z3, then cvc5);
2. rebuilds the extension from the current tree and evaluates the same contracts on the real code at run time, to
   give a failed obligation a concrete failing input (and as the labelled bounded stand-in where one is undecided).

exit 0: held; exit 1: VIOLATION line; 2: the check could not run.
"""
import sys, os, json, time, subprocess, threading, argparse, tempfile, signal
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT); sys.dont_write_bytecode = True
REPO = os.environ.get('TNCO_REPO', '/repo')
VENV = '/opt/venv/bin/python'

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--no-proof', action='store_true'); ap.add_argument('--no-run', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from contracts import registry
    from vlib import build
    prop = registry.PROPS[a.prop]
    thorough = a.tier == 'thorough'
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='tnco_verif_')
    known_file = os.path.join(ROOT, 'known_findings.json')
    known = json.load(open(known_file)) if os.path.exists(known_file) else []
    run = {'state': 'not run'}

    def runtime():
        try:
            so = build.build(prop.get('build_thorough', 'full') if thorough and prop['build'] != 'none' else prop['build'])
        except Exception as e:
            run['state'] = 'error'; run['error'] = str(e)[:2000]; return
        out = os.path.join(scratch, 'run.json')
        budget = prop.get('budget_thorough', 900) if thorough else prop.get('budget', 90)
        cmd = [VENV, os.path.join(ROOT, 'harness', 'main.py'), a.prop, '--seed', str(seed), '--tier', a.tier, '--budget', str(budget), '--out', out, '--known', known_file if known else '']
        if so: cmd += ['--so', so]
        if a.replay: cmd += ['--replay', a.replay]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TNCO_REPO=REPO, HOME=scratch, TMPDIR=scratch, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        env.pop('PYTHONPATH', None)
        p = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try: o, e = p.communicate(timeout=budget + 240)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); run['hang'] = True
        if a.v and (o or e): print(o[-3000:], e[-3000:])
        if os.path.exists(out):
            run.update(json.load(open(out))); run['state'] = 'ran'
        else:
            case = None
            try: case = json.load(open(out + '.case'))
            except Exception: pass
            if case is not None and (p.returncode < 0):
                # the real code crashed (or never answered) on this input
                run['state'] = 'ran'; run.update(evaluations=1, distinct=1, samples=[case], known=[], rule='', failure=dict(case=case, message='no answer' if run.get('hang') else 'the process died with signal %d' % -p.returncode))
            else:
                run['state'] = 'error'; run['error'] = 'harness failed rc=%s %s' % (p.returncode, e[-1500:])

    th = None
    if not a.no_run:
        th = threading.Thread(target=runtime); th.start()

    results = []
    perr = None
    if not a.replay and not a.no_proof and prop['units']:
        from vcgen import run as vrun
        try:
            units = [u() for u in prop['units']]
            asts = registry.asts(units)
            results = vrun.run_units(units, asts, budget=1500 if thorough else prop.get('proof_budget', 420), jobs=6, second=thorough, prop=a.prop)
        except Exception as e:
            perr = '%s: %s' % (type(e).__name__, str(e)[:1500])
            if a.v: import traceback; traceback.print_exc()
    if th: th.join()

    nob = sum(len(r['obligations']) for r in results)
    ndis = sum(1 for r in results for o in r['obligations'] if o['status'] == 'proved')
    refuted = [r for r in results if r['status'] == 'refuted']
    undecided = [r for r in results if r['status'] == 'undecided']
    solver_time = sum(o['time'] for r in results for o in r['obligations'])
    backends = {}
    for r in results:
        for o in r['obligations']:
            if o['status'] == 'proved': backends[o['backend']] = backends.get(o['backend'], 0) + 1
    proved = bool(results) and all(r['status'] == 'proved' for r in results) and nob > 0
    fail = run.get('failure')
    viol = None
    replay = os.path.join(ROOT, 'evidence', 'replay_%s.json' % a.prop)
    if fail:
        json.dump(dict(property=a.prop, case=fail['case'], message=fail['message'], traceback=fail.get('traceback', ''),
                       failed_obligations=[(r['unit'], o['name'], o['path']) for r in refuted for o in r['obligations'] if o['status'] != 'proved'][:20],
                       how='python3-vt %s/check.py %s --replay %s' % (ROOT, a.prop, replay)), open(replay, 'w'), indent=1)
        viol = 'VIOLATION property=%s replay=%s' % (a.prop, replay)
    elif refuted:
        json.dump(dict(property=a.prop, failed_obligations=[dict(function=r['unit'], **o) for r in refuted for o in r['obligations'] if o['status'] not in ('proved',)],
                       note='the obligation is refuted by the verifier (its counter-model is included); no concrete failing input was found by the run-time search'), open(replay, 'w'), indent=1)
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, replay)

    assumptions = list(prop.get('assumptions', []))
    for r in undecided: assumptions.append('UNDECIDED on this tree (covered only by the bounded run): %s: %s' % (r['unit'], r['reason']))
    if perr: assumptions.append('UNDECIDED on this tree (covered only by the bounded run): extraction: ' + perr)
    level = 'proof' if prop.get('level', 'proof') == 'proof' else prop['level']
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (a.prop, a.tier),
               trusted_base=registry.TRUSTED + prop.get('trusted', []),
               functions_under_contract=[dict(function=r['unit'], status=r['status'], reason=r['reason'], obligations=len(r['obligations']), discharged=sum(1 for o in r['obligations'] if o['status'] == 'proved'), paths=r['paths'], covers=r['covers'], inlined_real_code=r['inlined'], callee_contracts_used=r['called'], wall_s=r['wall']) for r in results],
               solver_time_s=round(solver_time, 2), discharged_by=backends,
               bounded=dict(label='bounded run of the real code, not counted as proved', evaluations=run.get('evaluations', 0), distinct_nontrivial=run.get('distinct', 0), rule=run.get('rule', ''), samples=run.get('samples', [])[:3], stopped=run.get('stopped'), contracts=run.get('contracts', []), state=run['state']),
               all_obligations_discharged=proved)
    cov['evaluations'] = run.get('evaluations', 0); cov['distinct_nontrivial'] = run.get('distinct', 0); cov['rule'] = run.get('rule', '') or '-'; cov['samples'] = [json.dumps(s)[:400] for s in run.get('samples', [])[:3]]
    cov['explanation'] = prop.get('explanation', '')
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=1 if viol else 0)
    if not a.replay:
        with open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    subprocess.run(['rm', '-rf', scratch])
    for k in run.get('known', []): print('KNOWN-FINDING: property=%s %s' % (a.prop, k['message']))
    print('%s: %d/%d obligations discharged in %d function(s) (%s), %d run-time evaluations (%s), %.0f s' % (a.prop, ndis, nob, len(results), ', '.join('%s=%d' % kv for kv in sorted(backends.items())) or '-', run.get('evaluations', 0), run['state'], time.time() - t0))
    for r in results:
        if r['status'] != 'proved' or a.v: print('   %-11s %s %s' % (r['status'], r['unit'], r['reason']))
        if a.v and r.get('trace'): print(r['trace'])
        if r['status'] == 'refuted':
            for o in r['obligations']:
                if o['status'] not in ('proved',): print('      failed obligation: %s [%s] %s' % (o['name'], o['kind'], o['status']))
    if perr: print('   extraction: ' + perr[:400])
    if viol:
        if fail: print('   failing input: %s\n   %s' % (json.dumps(fail['case'])[:1500], fail['message'][:800]))
        print(viol); sys.exit(1)
    if run['state'] == 'error':
        print('   run-time part: ' + run['error'])
        sys.exit(2)
    sys.exit(0)

if __name__ == '__main__': main()
