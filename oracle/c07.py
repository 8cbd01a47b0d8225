from . import base, sqlgen, tree

RULE = ('grammar-generated SELECT statements, and ones with tokens dropped, swapped, repeated or inserted: either the '
        'parser refuses the text or the tree holds its tokens, in order (letter case, number spellings and trailing '
        'commas aside); texts with unbalanced brackets are left out; non-trivial: the parser accepts it')
smaller = sqlgen.smaller


def cases(rng, n, hints):
    return sqlgen.wild(rng, n, hints)


def nontrivial(t):
    return sqlgen.try_parse(t) is not None


def judge(t):
    from sqlvalidator.grammar.tokeniser import to_tokens
    q = sqlgen.try_parse(t)
    if q is None:
        return None
    try:
        given = tree.merge_literals(list(to_tokens(t)))
    except Exception:
        return None
    if given is None:
        return None
    depth = []
    for x in given:
        if isinstance(x, str) and x in ('(', '['):
            depth.append(x)
        elif isinstance(x, str) and x in (')', ']'):
            if not depth or depth.pop() + x not in ('()', '[]'):
                return None
    if depth:
        return None
    want = tree.canonical([x for x in given if x != ';'])
    kept = tree.toks(q)
    kept = [(x,) if x[-1:] in tree.QUOTES and len(x) > 1 and x[:1] in tree.QUOTES else x for x in kept]
    flat = []
    for x in kept:
        if isinstance(x, str) and x[-1:] in tree.QUOTES and len(x) > 1:      # prefix, then the literal
            k = min(i for i, ch in enumerate(x) if ch in tree.QUOTES)
            flat += [x[:k], (x[k:],)]
        else:
            flat.append(x)
    got = tree.canonical([x for x in flat if x != ';'])
    if ''.join(got) != ''.join(want):
        return ('tokens', '%r is read as %r: %r instead of %r' % (t, type(q).__name__, got, want))
