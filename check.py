"""Driver: python check.py <PROPERTY> [--tier quick|thorough] [--case NAME] | --replay FILE"""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('SX_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')


def quiet():
    sys.stdout.flush()
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)


def load(prop):
    from sx import env
    env.load_modules()
    warnings.simplefilter('ignore')
    warnings.warn = lambda *a, **k: None
    mod = importlib.import_module('props.' + prop)
    return mod


def work_case(case, seed, scale, store):
    from sx import env
    from sx.engine import Explorer
    ex = Explorer(case, case.budget * scale, case.paths, case.validate, env.install, seed=seed, timeout_ms=case.timeout_ms, store_queries=store)
    t0 = time.time()
    ex.run()
    xc = {'checked': 0, 'agree': 0, 'unknown': 0, 'disagree': 0}
    if store:
        from sx.solver import cross_check
        for s in ex.stored:
            r = cross_check(s)
            xc['checked'] += 1
            xc['agree' if r == 'unsat' else ('disagree' if r == 'sat' else 'unknown')] += 1
    s = ex.solver
    return {
        'case': case.name, 'paths': ex.paths, 'aborted': ex.aborted, 'branches': ex.branches, 'checks': ex.checks, 'discharged': ex.discharged,
        'trivial': ex.trivial, 'inconclusive': ex.inconclusive, 'unsupported': ex.unsupported, 'incomplete_paths': ex.incomplete_paths,
        'unknown_branches': ex.unknown_branches, 'validated': ex.validated, 'validation_skipped': ex.validation_skipped, 'conc_sites': ex.conc_sites, 'notes': ex.notes,
        'covers': sorted(ex.covers), 'violations': ex.violations, 'irrepro': ex.irrepro[:5], 'samples': ex.samples, 'cut': ex.cut,
        'remaining': ex.remaining, 'queries': s.queries, 'sat': s.sat, 'unsat': s.unsat, 'unknown': s.unknown, 'solver_s': round(s.time, 3),
        'solver_errors': s.errors, 'restarts': s.restarts, 'fallback': s.fallback, 'wall_s': round(time.time() - t0, 2), 'functions': sorted(ex.functions),
        'cross': xc, 'known': ex.known_hits,
    }


def run_all(cases, seed, scale, store, jobs, deadline):
    import tempfile
    d = tempfile.mkdtemp(prefix='sxrun_')
    pending = sorted(range(len(cases)), key=lambda i: -cases[i].budget)
    running = {}
    results = {}
    try:
        while pending or running:
            while pending and len(running) < jobs and time.time() < deadline:
                i = pending.pop(0)
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        w = os.path.join(d, 'cwd%d' % i)
                        os.mkdir(w)
                        os.chdir(w)
                        quiet()
                        r = work_case(cases[i], seed, scale, store)
                    except BaseException as e:
                        import traceback
                        r = {'case': cases[i].name, 'error': traceback.format_exc()[-3000:]}
                    with open(os.path.join(d, 'r%d.json.tmp' % i), 'w') as f:
                        json.dump(r, f, default=str)
                    os.rename(os.path.join(d, 'r%d.json.tmp' % i), os.path.join(d, 'r%d.json' % i))
                    os._exit(0)
                running[pid] = (i, time.time())
            if not running:
                break
            try:
                pid, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid in running:
                i, t = running.pop(pid)
                p = os.path.join(d, 'r%d.json' % i)
                if os.path.exists(p):
                    results[i] = json.load(open(p))
                else:
                    results[i] = {'case': cases[i].name, 'error': 'worker died (status %d)' % st}
                if os.environ.get('SX_FIRST') and results[i].get('violations'):   # development only: the first violation is enough
                    break
                continue
            now = time.time()
            for pid, (i, t) in list(running.items()):
                if now - t > cases[i].budget * scale * 1.5 + 60 or now > deadline + 30:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                    running.pop(pid)
                    results[i] = {'case': cases[i].name, 'timeout': True}
            time.sleep(0.02)
        for i in range(len(cases)):
            results.setdefault(i, {'case': cases[i].name, 'timeout': True})
    finally:
        for pid in running:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return [results[i] for i in range(len(cases))]


def replay_file(path):
    """Runs a recorded counterexample on the unmodified code; exit 1 when it fails there."""
    r = json.load(open(path))
    mod = load(r['property'])
    case = [c for c in mod.R.cases if c.name == r['case']][0]
    from sx import env
    from sx.engine import run_concrete, unjson
    out = os.dup(1)
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix='sxreplay_')
    os.chdir(d)
    quiet()
    if 'unreachable' in r:
        # concrete runs on arbitrary values and draws: none may reach what no symbolic path reaches
        from sx.engine import random_runs
        hits = random_runs(case, env.install, 400, r['unreachable'])
        res = {'failures': [] if hits else [[r['label'], {'concrete runs that reach it': 0}]], 'status': 'ok' if hits else 'fail'}
    else:
        res = run_concrete(case, unjson(r['values']), env.install)
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
    os.write(out, (json.dumps(res['failures'], default=str, indent=1) + '\n' + res['status'] + '\n').encode())
    return 1 if res['status'] == 'fail' else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SX_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_file(a.replay))
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = a.prop
    mod = load(prop)
    thorough = a.tier == 'thorough'
    cases = [c for c in mod.R.cases if thorough or c.tier == 'quick']
    if a.case:
        cases = [c for c in mod.R.cases if a.case in c.name]
    if a.list:
        for c in cases:
            print(c.name, c.tier, c.budget)
        return
    limit = 820 if not thorough else float(os.environ.get('SX_THOROUGH_LIMIT', '5400'))
    scale = 10.0 if thorough else 1.0
    res = run_all(cases, seed, scale, 5 if thorough else 0, a.jobs, t0 + limit)
    outdir = os.environ.get('SX_OUT') or os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    viol, errors, irrepro, unsound, incomplete = [], [], [], [], []
    for c, r in zip(cases, res):
        if 'error' in r:
            errors.append((c.name, r['error']))
            continue
        if r.get('timeout'):
            incomplete.append(c.name + ': killed at its time limit')
            continue
        for v in r['violations']:
            viol.append(v)
        if r['irrepro']:
            irrepro.append((c.name, r['irrepro'][0]))
        if r['cross']['disagree']:
            errors.append((c.name, 'cvc5 disagrees with z3'))
        if r['cut'] or r['unsupported'] or r['incomplete_paths'] or r['inconclusive']:
            incomplete.append('%s: cut=%s unsupported=%d concretised=%d undecided=%d' % (c.name, r['cut'], r['unsupported'], r['incomplete_paths'], r['inconclusive']))
        if not r['violations'] and not r['cut']:
            if r['paths'] == 0 and not r['unsupported']:
                errors.append((c.name, 'vacuous: no path reached the end of the harness'))
            miss = [x for x in c.covers if x not in r['covers']]
            if miss and not r['unsupported'] and not r['incomplete_paths']:
                errors.append((c.name, 'vacuous: never reached %s' % miss))
            # all paths were explored: what none of them reaches is impossible for every input and draw
            if not r['unsupported'] and not r['incomplete_paths'] and not r['inconclusive']:
                for x in c.must:
                    if x not in r['covers']:
                        viol.append({'case': c.name, 'label': 'an outcome that must be possible never happens: %s' % x, 'values': {}, 'detail': [], 'unreachable': x})
    lines = []
    confirmed = []
    seen = set()
    for k, v in enumerate(viol):
        key = (v['label'], v['case'].split('[')[0])
        if key in seen and len(confirmed) >= 3:
            continue
        seen.add(key)
        if len(confirmed) >= 6:
            break
        p = os.path.join(outdir, '%s-%d.json' % (prop, k))
        rec = {'property': prop, 'case': v['case'], 'label': v['label'], 'values': v['values'], 'detail': v['detail']}
        if 'unreachable' in v:
            rec['unreachable'] = v['unreachable']
        json.dump(rec, open(p, 'w'), indent=1, default=str)
        env = dict(os.environ)
        q = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--replay', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=300)
        if q.returncode == 1:
            confirmed.append((v, p))
        else:
            irrepro.append((v['case'], [v['label'], v['values'], 'fresh-process replay: ' + q.stdout.decode()[-300:]]))
    for v, p in confirmed:
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  case %s: %s %s' % (v['case'], v['label'], json.dumps(v['detail'], default=str)[:600]))
    good = [r for r in res if 'error' not in r and not r.get('timeout')]
    tot = lambda k: sum(r[k] for r in good)
    funcs = sorted(set(f for r in good for f in r['functions']))
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths') + tot('aborted') + tot('branches'),
            'transitions': tot('branches'),
            'traces_validated_against_impl': tot('validated'),
            'samples': [s for r in good for s in r['samples'][:1]][:12],
            'exhaustive': not incomplete and not errors,
            'explanation': 'states: symbolic states (path ends and branch nodes) of the real code reached in this run; transitions: branch decisions on symbolic '
                           'conditions, each decided by the solver; every harness assertion is a solver query over all input values of its path.',
            'symbolic_paths_completed': tot('paths'), 'assertions_evaluated': tot('checks'), 'assertions_discharged_by_solver_unsat': tot('discharged'),
            'assertions_constant_on_path': tot('trivial'), 'solver_queries': tot('queries'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'),
            'solver_unknown': tot('unknown'), 'solver_seconds': round(tot('solver_s'), 2), 'solver_fallbacks': tot('fallback'),
            'functions_encoded': funcs,
            'bounds': {c.name: c.bounds for c in cases if c.bounds},
            'cases': {r['case']: {'paths': r['paths'], 'queries': r['queries'], 'discharged': r['discharged'], 'constant': r['trivial'], 'validated': r['validated'],
                                  'wall_s': r['wall_s']} for r in good},
            'incomplete': incomplete, 'errors': ['%s: %s' % (n, str(e)[-300:]) for n, e in errors],
            'counterexamples_not_reproduced_on_real_code': ['%s: %s' % (n, str(e)[:300]) for n, e in irrepro], 'concretised_at': sorted(set(s for r in good for s in r['conc_sites'])),
            'notes': sorted(set(n for r in good for n in r['notes']))[:40],
            'second_solver_agreement': {k: sum(r['cross'][k] for r in good) for k in ('checked', 'agree', 'unknown', 'disagree')},
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
        'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
    }
    if not a.case:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: cases=%d paths=%d branches=%d assertions=%d (solver unsat %d, constant %d) queries=%d solver=%.1fs validated=%d wall=%.1fs' % (
        prop, a.tier, len(cases), tot('paths'), tot('branches'), tot('checks'), tot('discharged'), tot('trivial'), tot('queries'), tot('solver_s'), tot('validated'), time.time() - t0))
    if a.v:
        for r in res:
            print('   ', {k: v for k, v in r.items() if k in ('case', 'paths', 'branches', 'queries', 'discharged', 'trivial', 'wall_s', 'validated', 'cut', 'unsupported', 'incomplete_paths', 'validation_skipped', 'error', 'timeout', 'covers')})
            for n in sorted(r.get('notes', {})):
                print('       note', n)
    for x in incomplete:
        print('  INCOMPLETE', x)
    for n, e in errors:
        print('  ERROR %s: %s' % (n, e))
    for n, e in irrepro:
        print('  NOT REPRODUCED %s: %s' % (n, str(e)[:600]))
    for f in getattr(mod, 'KNOWN', []):
        print('KNOWN-FINDING: property=%s %s' % (prop, f))
    if confirmed:
        sys.exit(1)
    strict = os.environ.get('SX_STRICT')
    if strict and (errors or irrepro or incomplete):
        sys.exit(2)
    if any('error' not in r and not r.get('timeout') for r in res) or not cases:
        # cases that could not be decided are listed above and in the evidence; they claim nothing
        sys.exit(0)
    sys.exit(2)


COMMON = [
    'real-valued inputs are mathematical reals (rationals in z3); IEEE rounding is outside the claim, assertions on reals carry a 1e-7 tolerance',
    'sizes (lengths, shapes, batch sizes, history lengths) are the concrete values listed per case; contents are symbolic',
    'numpy itself is trusted; the numpy functions the code calls run on object arrays of symbolic scalars, those that cannot are replaced by the kernels in sx/npshim.py, '
    'validated on every run by replaying path inputs on the unmodified code',
]

if __name__ == '__main__':
    main()
