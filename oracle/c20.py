from . import sqlgen, val

RULE = ('generated and mutated statements that the parser accepts, with and without known columns; asking for the '
        'errors returns a list of texts; non-trivial: the parser accepts it')
smaller = val.smaller


def cases(rng, n, hints):
    a, b = val.cases(rng, n, hints), sqlgen.wild(rng, n)
    while True:
        yield next(a)
        yield [next(b), []]


def nontrivial(c):
    return sqlgen.try_parse(c[0]) is not None


def judge(c):
    q = sqlgen.try_parse(c[0])
    if q is None:
        return None
    try:
        r = q.validate(val.fields(c[1])) if c[1] and val.kind(q) == 'SelectStatement' else q.validate()
    except RecursionError:
        return None
    except Exception as x:
        return ('crash:' + type(x).__name__, 'validating %r raises %r' % (c[0], x))
    if not isinstance(r, list) or not all(isinstance(e, str) for e in r):
        return ('result', 'validating %r gives %r' % (c[0], r))
