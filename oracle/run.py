"""python3 -m oracle.run ID --n CASES --seconds S --seed N [--hints FILE] [--replay FILE]; one JSON object."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import base


def judge(mod, case, limit):
    try:
        r = base.limited(lambda: mod.judge(case), limit)
    except base.Hang:
        r = mod.on_hang(case) if hasattr(mod, 'on_hang') else None
    except RecursionError:
        r = mod.on_recursion(case) if hasattr(mod, 'on_recursion') else None
    return r


def shrink(mod, case, limit, sig):
    """Greedy removal of chunks from the text of a failing case."""
    t0 = time.time()

    def fails(c):
        r = judge(mod, c, limit)
        return r is not None and r[0] == sig
    while time.time() - t0 < 20:
        for cand in mod.smaller(case):
            if time.time() - t0 > 20:
                break
            if fails(cand):
                case = cand
                break
        else:
            break
    return case


def main():
    a = argparse.ArgumentParser()
    a.add_argument('id')
    a.add_argument('--n', type=int, default=2000)
    a.add_argument('--seconds', type=float, default=20)
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--hints')
    a.add_argument('--replay')
    a.add_argument('--known')
    a.add_argument('--max', type=int, default=1)
    o = a.parse_args()
    sys.setrecursionlimit(1500)
    base.load()
    mod = importlib.import_module('oracle.' + o.id.lower())
    limit = getattr(mod, 'LIMIT', 5.0)
    if o.replay:
        case = json.load(open(o.replay))
        case = case.get('case', case)
        r = judge(mod, case, limit)
        print(json.dumps({'violated': r is not None, 'signature': r and r[0], 'what': r and r[1],
                          'case': case}))
        return
    known = set(json.load(open(o.known))) if o.known else set()
    hints = json.load(open(o.hints)) if o.hints else []
    out = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failures': [], 'known_seen': 0,
           'errors': 0, 'hangs': 0}
    seen = set()
    rng = base.Rng(o.seed)
    t0 = time.time()
    k = 0
    for case in mod.cases(rng, o.n, hints):
        if k >= o.n or time.time() - t0 > o.seconds:
            break
        k += 1
        key = json.dumps(case, sort_keys=True)
        out['evaluations'] += 1
        try:
            r = judge(mod, case, limit)
        except Exception as x:
            out['errors'] += 1
            out.setdefault('error_sample', [repr(case)[:500], traceback.format_exc()[-800:]])
            continue
        if key not in seen:
            seen.add(key)
            if mod.nontrivial(case):
                out['distinct_nontrivial'] += 1
                if len(out['samples']) < 3 and len(key) < 400 and k % 7 == 3:
                    out['samples'].append(case)
        if r is not None:
            if r[0] in known:
                out['known_seen'] += 1
                continue
            case = shrink(mod, case, limit, r[0])
            r = judge(mod, case, limit) or r
            out['failures'].append({'case': case, 'signature': r[0], 'what': r[1]})
            if len(out['failures']) >= o.max:
                break
    out['wall_s'] = round(time.time() - t0, 2)
    out['rule'] = mod.RULE
    print(json.dumps(out))


main()
