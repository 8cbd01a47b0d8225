import tokenize

from . import pyfiles

RULE = ('generated Python sources: the tokens written against the tokens read; non-trivial: with a select')


def cases(rng, n, hints):
    while True:
        yield [pyfiles.valid_source(rng, .03), rng.choice(((True, False), (True, True), (False, True)))]


def smaller(c):
    ls = c[0].split('\n')
    for i in range(len(ls)):
        yield ['\n'.join(ls[:i] + ls[i + 1:]), c[1]]


def nontrivial(c):
    return 'select' in c[0].lower()


def judge(c):
    text, (sf, sv) = c
    r = pyfiles.compute(text, sf, sv)
    if isinstance(r, Exception):
        return None
    n, new, k, where, toks = r
    old = pyfiles.tokens_of(text)
    if len(toks) != len(old):
        return ('number', '%d tokens of %r became %d' % (len(old), text, len(toks)))
    diff = 0
    for a, b in zip(old, toks):
        a, b = tuple(a), tuple(b)
        if a == b:
            continue
        diff += a[1] != b[1]
        if a[0] != b[0] or a[0] != tokenize.STRING or not pyfiles.is_select(a[1]):
            return ('other', 'token %r became %r' % (a, b))
        try:
            want = pyfiles.rewritten(a[1])[0]
        except pyfiles.Fails:
            want = None
        if b[1] != want and a[1] != b[1]:
            return ('form', 'literal %r became %r, not %r' % (a[1], b[1], want))
    if diff != n:
        return ('count', '%d literals differ in %r, %d reported' % (diff, text, n))
