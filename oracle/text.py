"""Texts for the tokeniser."""
import itertools

from . import base

SMALL = ["a", "'", '"', "\\", " ", ".", "<", "\n"]
PIECES = ["'", '"', '`', "\\", "\\'", '\\"', "\\`", " ", "\n", "\t", ",", ";", "(", ")", "[", "]", "+",
          "-", "*", "/", "=", "<", ">", ".", "<>", "<=", ">=", "<<", ">>", "||", "|", "!=", "!", "a", "b1",
          "1", "2.5", "1.2.3", "select", "FROM", "é", "\r", "\x0b", "%", "\\\\", "'x y'", '"q.c"', "``",
          "''", "it\\'s", "--", "{", "}", ":"]


def texts(rng, n, hints=()):
    for h in hints:
        yield h
    for k in range(1, 5):
        for t in itertools.product(SMALL, repeat=k):
            yield ''.join(t)
    strs, _ = base.mined()
    while True:
        m = rng.choice([3, 5, 8, 12, 20, 40])
        out = []
        focus = rng.sample(PIECES, 4) if rng.chance(0.4) else None
        for _ in range(rng.randint(1, m)):
            r = rng.random()
            if focus and r < 0.7:
                out.append(rng.choice(focus))
            elif r < 0.85:
                out.append(rng.choice(PIECES))
            elif strs and r < 0.95:
                out.append(rng.choice(strs))
            else:
                out.append(rng.choice('abcxyz01 _'))
        yield ''.join(out)


def smaller(t):
    k = len(t) // 2
    while k >= 1:
        for i in range(0, len(t) - k + 1, max(1, k // 2)):
            yield t[:i] + t[i + k:]
        k //= 2
