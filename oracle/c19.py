from . import pyfiles

RULE = ('generated string literals with every prefix and quote style in a file: the literal that comes back; '
        'non-trivial: over 15 characters')


def cases(rng, n, hints):
    while True:
        yield pyfiles.literal(rng)


def smaller(s):
    p, q, b = pyfiles.split_literal(s)
    for x in pyfiles.sqlgen.smaller(b):
        if '\n' not in x or len(q) == 3:
            yield p + q + x + q


def nontrivial(s):
    return len(s) > 15


def judge(s):
    try:
        t = pyfiles.tokens_of(s)
    except Exception:
        return None
    if t[0].string != s or not pyfiles.is_select(s):
        return None
    try:
        want = pyfiles.rewritten(s)[0]
    except pyfiles.Fails:
        want = None
    r = pyfiles.compute('x = %s\n' % s, True, False)
    if isinstance(r, Exception):
        return None if want is None or isinstance(r, RecursionError) else ('raise', '%r raises %r' % (s, r))
    got = r[4][2][1]
    if want is None:
        return ('refused', '%r is refused and became %r' % (s, got))
    if got != want:
        return ('literal', '%r became %r, not %r' % (s, got, want))
