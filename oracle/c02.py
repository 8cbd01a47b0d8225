from . import base, text

RULE = ('texts as for C01 with at least one quote; each is split by a left-to-right reading of its quotes '
        'and its tokens compared with those of the parts; non-trivial: holds a literal')
smaller = text.smaller
QUOTES = "'\"`"


def cases(rng, n, hints):
    for t in text.texts(rng, n, hints):
        if any(q in t for q in QUOTES):
            yield t


def parts(t):
    """(outside, quote, content, closed) of each literal, then the rest."""
    out, i, start = [], 0, 0
    while i < len(t):
        c = t[i]
        if c in QUOTES and (i == start or t[i - 1] != '\\'):
            j = i + 1
            while j < len(t) and not (t[j] == c and (t[j - 1] != '\\' or j == i + 1)):
                j += 1
            out.append((t[start:i], c, t[i + 1:j], j < len(t)))
            start = i = j + 1
        else:
            i += 1
    return out, t[start:] if start <= len(t) else ''


def nontrivial(t):
    return bool(parts(t)[0])


def judge(t):
    from sqlvalidator.grammar import tokeniser
    ps, rest = parts(t)
    if not ps:
        return None
    try:
        toks = list(tokeniser.to_tokens(t))
        want = []
        for before, q, content, closed in ps:
            if before:
                want.extend(tokeniser.to_tokens(before))
            want.append(q)
            if content:
                want.append(content)
            if closed:
                want.append(q)
        if rest:
            want.extend(tokeniser.to_tokens(rest))
    except Exception as x:
        return ('raise', 'to_tokens raised %r on %r' % (x, t))
    if toks != want:
        return ('literal', 'to_tokens(%r) = %r instead of %r' % (t, toks, want))
