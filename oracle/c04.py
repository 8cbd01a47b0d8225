from . import base, sqlgen

RULE = ('random token sequences over brackets, CASE/END in any letter case, quotes, terminating words and other '
        'words, given to the three collecting functions and compared with a direct reading of the statement; '
        'and whole SELECT statements whose clauses are generated separately: each clause must be parsed as it is '
        'alone; non-trivial: has a bracket, CASE, quote or terminating word before the end')
WORDS = ['(', ')', '[', ']', 'case', 'CASE', 'end', 'End', "'", '"', '`', 'from', 'FROM', 'where', 'Group', 'by',
         'limit', 'with', 'offset', 'OFFSET', ',', ';', 'a', 'b', 'x y', 'when', '1', 'and', 'union', 'join', 'JOIN',
         'on', 'as', 'AS', 'asc']
STOPS = [['from', 'where', ';'], ['limit', 'offset'], [','], [']'], ['end'], ['as'], [], ['with', 'offset', ')'],
         ['join', ',', 'on'], ['asc', 'desc', 'by', 'a']]
KEEPS = [None, [], [('with', 'offset')], [('group', 'by'), ('a', 'from')], [('x y', 'where')]]
QUOTES = "'\"`"


def cases(rng, n, hints):
    k = 0
    while True:
        k += 1
        if k % 4 == 0:
            yield ['sql', sqlgen.Gen(rng).clauses()]
            continue
        words = rng.sample(WORDS, rng.randint(3, 9)) if rng.chance(0.6) else WORDS
        toks = [rng.choice(words) for _ in range(rng.choice([2, 4, 7, 12, 25]))]
        first = rng.choice(words) if rng.chance(0.4) else None
        f = rng.choice(['one', 'one', 'closing', 'notin'])
        if f == 'notin':
            yield [f, toks, first, rng.choice([['join', 'left'], ['union', 'a', 'by'], ['a', 'b', ',']]), None]
        else:
            yield [f, toks, first, rng.choice(STOPS), rng.choice(KEEPS)]


def nontrivial(c):
    return c[0] == 'sql' or any(t.lower() in ('(', '[', 'case', "'", '"', '`') or t.lower() in (c[3] or ())
                                for t in c[1][:-1])


def quote(q, t):
    return (t if t in QUOTES and t else None) if q is None else (None if t == q else q)


def ref_one(toks, first, stops, keep):
    par = sq = case = 0
    q = None
    got = []
    if first is not None:
        par, sq, case = int(first == '('), int(first == '['), int(first.lower() == 'case')
        q = quote(None, first)
        got.append(first)
    for i, t in enumerate(toks):
        l = t.lower()
        if q is None and l in stops and par <= 0 and sq <= 0 and case <= 0 and not (
                got and (got[-1].lower(), l) in (keep or [])):
            return got, t, toks[i + 1:]
        if q is None:
            par += (t == '(') - (t == ')')
            sq += (t == '[') - (t == ']')
            case += (l == 'case') - (l == 'end')
        q = quote(q, t)
        got.append(t)
    return got, None, []


def ref_closing(toks, first):
    par, q, got = 0, None, []
    if first is not None:
        toks = [first] + toks
    for i, t in enumerate(toks):
        if q is None and t == ')':
            if par == 0:
                return got, toks[i + 1:]
            par -= 1
        elif q is None and t == '(':
            par += 1
        q = quote(q, t)
        got.append(t)
    return got, []


def judge(c):
    from sqlvalidator.grammar import tokeniser as T
    if c[0] == 'sql':
        return sqlgen.judge_clauses(c[1])
    f, toks, first, stops, keep = c
    it = iter(toks)
    kw = {} if first is None else {'first_token': first}
    if f == 'one':
        if keep is not None:
            keep = kw['keep'] = [tuple(k) for k in keep]
        r = T.get_tokens_until_one_of(it, stops, **kw)
        got = (list(r[0]), r[1], list(it))
        want = ref_one(toks, first, stops, keep)
    elif f == 'closing':
        r = T.get_tokens_until_closing_parenthesis(it, **kw)
        got, want = (list(r), list(it)), ref_closing(toks, first)
    else:
        r = T.get_tokens_until_not_in(it, stops, **kw)
        got = (list(r[0]), r[1], list(it))
        i = 0
        while i < len(toks) and toks[i].lower() in stops:
            i += 1
        want = (([first] if first is not None else []) + toks[:i], toks[i] if i < len(toks) else None,
                toks[i + 1:])
    if got != tuple(want):
        return ('collect', '%s on %r, first %r, stops %r, keep %r: %r instead of %r' % (
            f, toks, first, stops, keep, got, want))


def smaller(c):
    if c[0] == 'sql':
        for d in sqlgen.smaller_clauses(c[1]):
            yield ['sql', d]
        return
    for i in range(len(c[1])):
        yield [c[0], c[1][:i] + c[1][i + 1:]] + c[2:]
    if c[2] is not None:
        yield c[:2] + [None] + c[3:]
