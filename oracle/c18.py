from . import pyfiles

RULE = ('generated Python sources with comments: which literals are rewritten and which errors are located, against an '
        'independent reading of the comments; non-trivial: with a select')


def cases(rng, n, hints):
    while True:
        yield [pyfiles.valid_source(rng, .03), rng.choice(((True, False), (True, True), (False, True)))]


def smaller(c):
    ls = c[0].split('\n')
    for i in range(len(ls)):
        yield ['\n'.join(ls[:i] + ls[i + 1:]), c[1]]


def nontrivial(c):
    return 'select' in c[0].lower()


def judge(c):
    text, (sf, sv) = c
    try:
        want = pyfiles.model(text, sf, sv)
    except pyfiles.Fails:
        return None
    r = pyfiles.compute(text, sf, sv)
    if isinstance(r, RecursionError):
        return None
    if isinstance(r, Exception):
        return ('raise', '%r raises %r' % (text, r))
    n, new, k, where, toks = r
    errs = [(t.start[0], e) for t, _, e in want if e is not None]
    if k != len(errs) or [(l, list(e)) for l, e in where] != errs:
        return ('errors', '%r: %d invalid, %r, not %r' % (text, k, where, errs))
    if not sf:
        return None
    changed = [t.string for t, x, _ in want if x is not None]
    if n != len(changed):
        return ('count', '%r: %d changed, not %r' % (text, n, changed))
    if len(toks) == len(want):
        for (t, x, _), u in zip(want, toks):
            if t.string != u[1] and x is None:
                return ('optout', '%r: %r was rewritten to %r' % (text, t.string, u[1]))
            if x is not None and u[1] == t.string:
                return ('kept', '%r: %r was not rewritten' % (text, t.string))
