from . import sqlgen, val

RULE = ('generated statements; rendering and validating them repeatedly, in random order: the structure of the tree '
        'and of the column sets passed in, and the results, never change; non-trivial: the parser accepts it')


def cases(rng, n, hints):
    a, b = val.cases(rng, n, hints), sqlgen.wild(rng, n)
    while True:
        yield next(a) + [[rng.choice('fvk') for _ in range(4)]]
        yield [next(b), [], [rng.choice('fvk') for _ in range(4)]]


def smaller(c):
    for x in val.smaller(c[:2]):
        yield x + [c[2]]


def nontrivial(c):
    return sqlgen.try_parse(c[0]) is not None


def judge(c):
    from sqlvalidator.grammar.sql import transform
    q = sqlgen.try_parse(c[0])
    if q is None:
        return None
    known = val.fields(c[1])
    before, kb = sqlgen.dump(q), set(known)
    seen = {}
    for op in c[2] + c[2]:
        try:
            if op == 'f':
                r = transform(q)
            elif op == 'v':
                r = sorted(q.validate(known) if val.kind(q) == 'SelectStatement' else q.validate())
            else:
                r = sorted(f.name for f in q.known_fields)
        except RecursionError:
            return None
        except Exception as x:
            r = ('raised', type(x).__name__)
        if seen.setdefault(op, r) != r:
            return ('unstable', '%s of %r gives %r after %r' % (op, c[0], r, seen[op]))
        if sqlgen.dump(q) != before:
            return ('mutated', '%s changes the tree of %r' % ({'f': 'rendering', 'v': 'validating'}.get(op, op), c[0]))
        if known != kb:
            return ('columns', 'validating %r changes the columns passed in' % c[0])
