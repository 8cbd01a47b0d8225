"""check.py ID [quick|thorough]: verify the contracts of a property on /repo's current source."""
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPS  # noqa: E402

VT = 'python3-vt'


def verify(spec, task, seconds):
    t0 = time.time()
    try:
        p = subprocess.run([VT, '-m', 'pyvc.task', spec, task, str(seconds)], cwd=HERE,
                           capture_output=True, text=True, timeout=seconds + 45)
        r = json.loads(p.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        r = {'spec': spec, 'task': task, 'obligations': {}, 'undecided': 'time limit'}
    except (ValueError, IndexError):
        r = {'spec': spec, 'task': task, 'obligations': {},
             'undecided': 'verifier error: %s' % p.stderr[-500:]}
    r.setdefault('wall_s', round(time.time() - t0, 2))
    return r


def concrete(pid, n, seconds, seed, hints, known, limit=1):
    with tempfile.TemporaryDirectory() as d:
        hf, kf = os.path.join(d, 'h'), os.path.join(d, 'k')
        json.dump(hints, open(hf, 'w'))
        json.dump(known, open(kf, 'w'))
        env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        try:
            p = subprocess.run([sys.executable, '-m', 'oracle.run', pid, '--n', str(n), '--seconds',
                                str(seconds), '--seed', str(seed), '--hints', hf, '--known', kf, '--max',
                                str(limit)], cwd=d, env=env, capture_output=True, text=True,
                               timeout=seconds + 90)
            return json.loads(p.stdout.strip().splitlines()[-1])
        except subprocess.TimeoutExpired:
            return {'error': 'time limit', 'failures': [], 'evaluations': 0, 'distinct_nontrivial': 0,
                    'samples': []}
        except (ValueError, IndexError):
            return {'error': p.stderr[-1500:], 'failures': [], 'evaluations': 0,
                    'distinct_nontrivial': 0, 'samples': []}


def replay(pid, case):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'c')
        json.dump({'case': case}, open(f, 'w'))
        env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        p = subprocess.run([sys.executable, '-m', 'oracle.run', pid, '--replay', f], cwd=d, env=env,
                           capture_output=True, text=True, timeout=120)
        try:
            return json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return {'violated': False, 'error': p.stderr[-500:]}


def tree_shape(seconds, seed):
    """Trees the parser builds against the shape the contracts assume; evidence, not a verdict."""
    try:
        p = subprocess.run([VT, '-m', 'oracle.shape', str(seconds), str(seed)], cwd=HERE,
                           capture_output=True, text=True, timeout=seconds + 60)
        return json.loads(p.stdout)
    except Exception as x:
        return {'error': repr(x)[:300]}


def known_findings(pid):
    out = []
    f = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                d = json.loads(l)
                if d['property'] == pid:
                    out.append(d)
    return out


def model_strings(detail):
    """Texts of a verifier counterexample, tried first on the real code."""
    import ast
    import re
    out = []
    for m in re.findall(r'"(?:[^"\\]|\\.|"")*"', str(detail)):
        try:
            out.append(ast.literal_eval(m))
        except Exception:
            pass
    return [x for x in out if isinstance(x, str) and 0 < len(x) < 60]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = PROPS[pid]
    t0 = time.time()
    budget = 420 if tier == 'quick' else 700
    with ThreadPoolExecutor(8) as pool:
        res = list(pool.map(lambda x: verify(x[0], x[1], budget), p.tasks))
    obligations, failed, unknown = {}, [], []
    for r in res:
        for k, o in r['obligations'].items():
            if r.get('undecided') and o['status'] == 'yes':
                o['status'] = 'yes on the paths reached'
            if p.mine(k):
                key = '%s/%s: %s' % (r['spec'], r['task'], k)
                obligations[key] = o
                # a path cut short by an undecided construct leaves the other obligations standing
                if o['status'] == 'no':
                    failed.append((key, o))
                elif o['status'] not in ('yes', 'yes on the paths reached'):
                    unknown.append(key)
        if r.get('undecided'):
            unknown.append('%s/%s: %s' % (r['spec'], r['task'], r['undecided']))
    proved = not failed and not unknown and bool(obligations)
    known = known_findings(pid)
    for k in known:
        rr = replay(pid, k['case']) if 'case' in k else {'violated': True}
        if rr.get('violated'):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            print('note: known finding no longer fails: %s' % k['what'])
    sigs = sorted({s for k in known for s in k.get('signatures', [])})
    hints = []
    for key, o in failed:
        hints.extend(model_strings(o.get('detail')))
    # concrete cross-check of the contracts, or the search for a witness of a failed obligation
    seconds, n = p.cross, p.n
    if not proved and p.tasks:
        seconds, n = max(60, 3 * seconds), 10 * n
    if tier == 'thorough':
        seconds, n = max(300, 10 * seconds), 50 * n
    jobs = 1 if proved and tier == 'quick' else 6
    with ThreadPoolExecutor(8) as pool:
        cs = list(pool.map(lambda i: concrete(pid, n, seconds, seed + 1000 * i, hints[:50] if i == 0 else [],
                                              sigs), range(jobs)))
    fails = [f for c in cs for f in c['failures']]
    shape = tree_shape(p.shape * (5 if tier == 'thorough' else 1), seed) if p.shape else None
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join('evidence', 'replay-%s.json' % pid)
    if os.path.exists(os.path.join(HERE, rp)):
        os.remove(os.path.join(HERE, rp))
    rc = 0
    if fails:
        f = min(fails, key=lambda f: len(json.dumps(f['case'])))
        json.dump({'property': pid, 'case': f['case'], 'what': f['what'],
                   'replay': 'python3 -m oracle.run %s --replay <this file> (in /verif)' % pid,
                   'failed_obligations': [k for k, _ in failed]},
                  open(os.path.join(HERE, rp), 'w'), indent=1)
        print(f['what'][:1500])
        for k, _ in failed:
            print('failed obligation: %s' % k)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif failed:
        json.dump({'property': pid, 'failed_obligations': [
            {'obligation': k, 'verifier': o.get('detail')} for k, o in failed], 'undecided': unknown},
            open(os.path.join(HERE, rp), 'w'), indent=1)
        for k, o in failed:
            print('failed obligation: %s' % k)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    for u in unknown:
        print('undecided (bounded stand-in used): %s' % u[:300])
    errors = [c['error'] for c in cs if c.get('error')] + \
             [c['error_sample'] for c in cs if c.get('errors')]
    cov = {
        'obligations': len(obligations), 'discharged': sum(o['status'] == 'yes' for o in obligations.values()),
        'undecided': unknown, 'failed': [k for k, _ in failed],
        'checker_cmd': 'python3 check.py %s %s' % (pid, tier), 'back_end': 'z3 (python API)',
        'trusted_base': p.trusted,
        'solver_s': round(sum(r.get('stats', {}).get('solver_s', 0) for r in res), 2),
        'solver_queries': sum(r.get('stats', {}).get('queries', 0) for r in res),
        'paths': sum(r.get('stats', {}).get('paths', 0) for r in res),
        'functions_verified': sorted({f for r in res for f in r.get('functions', [])}),
        'contracts_used': sorted({f for r in res for f in r.get('contracts', [])}),
        'externals_assumed': sorted({f for r in res for f in r.get('externals', [])}),
        'obligation_list': {k: {'status': o['status'], 'paths': o['paths'], 'seconds': o['time']}
                            for k, o in obligations.items()},
        'evaluations': sum(c['evaluations'] for c in cs),
        'distinct_nontrivial': sum(c['distinct_nontrivial'] for c in cs),
        'rule': next((c['rule'] for c in cs if c.get('rule')), ''),
        'samples': [s for c in cs for s in c['samples']][:3],
        'concrete_role': 'cross-check of the contracts on CPython; never counted as proved',
    }
    if shape:
        cov['tree_shape_assumption_checked'] = shape
        for k in shape.get('mismatches', ()):
            print('note: a tree of the parser does not have the assumed shape at %s' % k)
    if p.bounded:
        cov['bounded'] = p.bounded
    if errors:
        cov['oracle_errors'] = errors[:2]
        print('oracle error: %s' % str(errors[0])[:600])
    level = p.level
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
               'assumptions': p.assumptions + (['NOT PROVED ON THIS RUN: ' + u for u in unknown]),
               'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc else 0},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged, %d concrete cases, %.0f s' % (
        pid, 'VIOLATED' if rc else ('proved' if proved else 'held (not proved)'), cov['discharged'],
        cov['obligations'], cov['evaluations'], time.time() - t0))
    return rc


sys.exit(main())
