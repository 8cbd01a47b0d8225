"""Concrete side of the checks: generated inputs are run on the real code and judged by an oracle that
states the property.  Used to replay failed obligations on the real code, to cross-check the contracts
against CPython, and as the bounded stand-in where the verifier cannot decide a function."""
import ast
import glob
import importlib
import os
import random
import signal
import sys

REPO = os.environ.get('VP_REPO', '/repo')
WS = ' \n\t'


def load():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return importlib.import_module('sqlvalidator')


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def limited(f, seconds=3.0):
    """f() within a time limit; raises Hang."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def nows(s):
    return ''.join(c for c in s if c not in WS)


_mined = None


def mined():
    """String and integer constants of the current source (special cases there get tried)."""
    global _mined
    if _mined is None:
        strs, ints = set(), set()
        for f in sorted(glob.glob(os.path.join(REPO, 'sqlvalidator', '**', '*.py'), recursive=True)):
            try:
                tree = ast.parse(open(f, encoding='utf-8').read())
            except Exception:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, str) and 0 < len(n.value) <= 24:
                        strs.add(n.value)
                    elif isinstance(n.value, int) and not isinstance(n.value, bool) and \
                            0 <= n.value <= 400:
                        ints.add(n.value)
        _mined = (sorted(strs), sorted(ints))
    return _mined


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p
