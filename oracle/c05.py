from . import base, sqlgen, tree

RULE = ('grammar-generated SELECT statements (and mutated ones that still parse), parsed by the real parser and '
        'rendered; every sub-tree is rendered too; the rendered text without blanks is compared with the canonical '
        'sequence of the parts of the tree; non-trivial: more than 8 tokens')
smaller = sqlgen.smaller


def cases(rng, n, hints):
    return sqlgen.wild(rng, n, hints)


def nontrivial(t):
    return len(t) > 30


def judge(t):
    from sqlvalidator.grammar.sql import transform
    q = sqlgen.try_parse(t)
    if q is None:
        return None
    for o in tree.walk(q):
        if type(o).__name__ == '_FieldInfo' or 't_' + type(o).__name__ not in vars(tree):
            continue
        try:
            got = base.nows(transform(o))
        except Exception as x:
            return ('raise', 'rendering %s of %r raised %r' % (type(o).__name__, t, x))
        want = base.nows(''.join(tree.toks(o)))
        if ';' in want or ';' in got:
            # a statement in parentheses may show its semicolon or not
            if got.replace(';', '') == want.replace(';', ''):
                continue
        if got != want:
            return ('layout', 'rendering %s of %r: %r instead of %r' % (type(o).__name__, t, got, want))
