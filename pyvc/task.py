"""One verification task: symbolic execution of a function of the real code against its contract.
Run as: python3-vt -m pyvc.task SPEC TASK [SECONDS]; prints one JSON object."""
import importlib
import json
import os
import sys
import threading
import time
import traceback

from .engine import Budget, Unsupported, STR
from .interp import PyRaise
from .values import Atom, rope


def sym(e, base):
    """An arbitrary text."""
    return rope(Atom(e.fresh(base, STR)))


def guarded(e, name, run, allowed=()):
    """Verify run() on every path; it may raise no exception (other than the allowed ones)."""
    def thunk():
        try:
            run()
            e.oblige('%s: raises no exception' % name, True)
        except PyRaise as r:
            ok = any(isinstance(r.exc.cls, type) and issubclass(r.exc.cls, a) for a in allowed)
            e.oblige('%s: raises no exception' % name, ok, lambda: repr(r.exc))
        if e.finished < 3 and str(e.check()) == 'sat':
            e.finished += 1
    e.explore(thunk)


def solve(spec, task, seconds=None):
    from .machine import Machine
    from .program import Program
    t0 = time.time()
    out = {'spec': spec, 'task': task, 'obligations': {}, 'undecided': None}
    try:
        mod = importlib.import_module('pyvc.specs.' + spec)
        e = Machine(Program())
        e.cur = task
        if seconds:
            e.deadline = t0 + seconds
        mod.setup(e)
        out['engine'] = e
        getattr(mod, 'task_' + task)(e)
    except Budget:
        out['undecided'] = 'budget exhausted'
    except Unsupported as x:
        out['undecided'] = 'outside the verified subset: %s' % x
    except Exception as x:
        out['undecided'] = 'verifier error: %s: %s' % (type(x).__name__, x)
        out['traceback'] = traceback.format_exc()[-3000:]
    e = out.pop('engine', None)
    if e is not None:
        if out['undecided'] and e.kept is not None:
            # inferred invariants were not final: what failed under them is not decided
            for k, o in e.obl.items():
                if o['status'] == 'no' and e.kept.get(k, {}).get('status') != 'no':
                    o['status'] = 'unknown'
        out['obligations'] = {k: {'status': o['status'], 'paths': o['paths'], 'time': round(o['time'], 3),
                                  'detail': o['detail']} for k, o in e.obl.items()}
        out['stats'] = e.stats
        out['functions'] = sorted(e.used['body'])
        out['contracts'] = sorted(e.used['contract'])
        out['externals'] = sorted(e.used['external'])
        if not out['undecided'] and (not e.obl or not e.finished):
            out['undecided'] = 'vacuous: no obligation or no feasible path'
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def main():
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    spec, task = sys.argv[1:3]
    seconds = float(sys.argv[3]) if len(sys.argv) > 3 else None
    res = {}

    def go():
        try:
            res.update(solve(spec, task, seconds))
        except BaseException as x:
            res.update({'spec': spec, 'task': task, 'obligations': {},
                        'undecided': 'verifier error: %r' % x})
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.write(json.dumps(res) + '\n')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
