from . import base, sqlgen, tree

RULE = ('grammar-generated SELECT statements with many literals without line breaks, parsed and rendered by the real '
        'code; the literals of the rendered text, in order, are those of the tree, character for character; '
        'non-trivial: has a literal')
smaller = sqlgen.smaller


def cases(rng, n, hints):
    return sqlgen.wild(rng, n, hints)


def nontrivial(t):
    return any(q in t for q in tree.QUOTES)


def judge(t):
    from sqlvalidator.grammar.sql import String, transform
    q = sqlgen.try_parse(t)
    if q is None:
        return None
    for o in tree.walk(q):
        if isinstance(o, String) and '\n' in o.value:
            return None
    lits = [x for x in tree.toks(q) if x[-1:] in tree.QUOTES and len(x) > 1]
    try:
        out = transform(q)
    except Exception as x:
        return ('raise', 'rendering %r raised %r' % (t, x))
    i = 0
    for l in lits:
        j = out.find(l, i)
        if j < 0:
            return ('literal', 'the literal %r of %r is not in %r' % (l, t, out))
        i = j + len(l)
