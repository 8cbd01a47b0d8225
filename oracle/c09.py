from . import sqlgen, val

RULE = ('generated and mutated statements given to SQLQuery: verdict and errors after every operation of a random '
        'sequence of is_valid and format; non-trivial: more than 15 characters')


def cases(rng, n, hints):
    a, b = val.cases(rng, n, hints), sqlgen.wild(rng, n)
    while True:
        for t in (next(a)[0], next(b), 'select ' + next(b)):
            yield [t, [rng.choice('vvf') for _ in range(4)]]


def smaller(c):
    for x in sqlgen.smaller(c[0]):
        yield [x, c[1]]


def nontrivial(c):
    return len(c[0]) > 15


def judge(c):
    import sqlvalidator
    q = sqlvalidator.parse(c[0])
    tree = sqlgen.try_parse(c[0])
    seen = text = None
    for op in c[1]:
        if op == 'f':
            try:
                r = q.format()
            except Exception:
                r = None
            if text is not None and r != text:
                return ('format', 'formatting %r gives %r after %r' % (c[0], r, text))
            text = r
            if (r is None) != (tree is None):
                return ('format', 'formatting %r: %r' % (c[0], r))
            continue
        try:
            v = q.is_valid()
        except RecursionError:
            return None
        except Exception as x:
            return ('raise', 'is_valid of %r raises %r' % (c[0], x))
        if v != (len(q.errors) == 0):
            return ('verdict', '%r: valid %r with errors %r' % (c[0], v, q.errors))
        if tree is None and v:
            return ('refused', '%r is refused by the parser and reported valid' % c[0])
        if seen is not None and (v, q.errors) != seen:
            return ('unstable', '%r: %r after %r' % (c[0], (v, q.errors), seen))
        seen = (v, list(q.errors))
        if tree is not None:
            want = sorted(tree.validate())
            if sorted(q.errors) != want:
                return ('other', '%r: errors %r, of its own text %r' % (c[0], q.errors, want))
