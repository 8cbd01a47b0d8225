import sys

from . import base, sqlgen, text

RULE = ('texts for the tokeniser, and grammar-generated statements with tokens dropped, swapped, repeated or '
        'inserted, read by the real tokeniser and parser within a time limit; non-trivial: more than 5 characters')
LIMIT = 4.0
smaller = sqlgen.smaller


def cases(rng, n, hints):
    a, b = text.texts(rng, n, hints), sqlgen.wild(rng, n)
    while True:
        yield next(b)
        yield next(b)
        t = next(a)
        yield t if rng.chance(0.5) else 'select ' + t


def nontrivial(t):
    return len(t) > 5


def judge(t):
    from sqlvalidator.grammar.tokeniser import to_tokens
    try:
        toks = list(to_tokens(t))
    except RecursionError:
        return ('stack', 'tokenising %r exhausts the stack' % t)
    except Exception:
        return None
    try:
        sqlgen.parse(t)
    except RecursionError:
        if len(toks) < 60:
            return ('stack', 'parsing %r exhausts the stack' % t)
    except Exception:
        return None


def on_hang(t):
    return ('hang', 'reading %r does not end' % t)


def on_recursion(t):
    return None
