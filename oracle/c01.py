from . import base, text

RULE = ('texts: every text of up to 4 symbols over {a,quote,backslash,blank,dot,<,newline}, then random '
        'mixes of quotes, escapes, separators, operators, words and constants of the source; non-trivial: '
        'has a quote, operator, separator or blank')
smaller = text.smaller


def cases(rng, n, hints):
    return text.texts(rng, n, hints)


def nontrivial(t):
    return not t.isalnum()


def judge(t):
    from sqlvalidator.grammar import tokeniser
    try:
        toks = list(tokeniser.to_tokens(t))
    except Exception as x:
        return ('raise', 'to_tokens(%r) raised %r' % (t, x))
    got = base.nows(''.join(toks))
    want = base.nows(t)
    if got != want:
        return ('loss', 'to_tokens(%r) = %r: %r is not %r' % (t, toks, got, want))
