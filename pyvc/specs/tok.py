"""Contracts of the tokeniser."""
import z3

from ..engine import *
from ..interp import PyRaise, T_STR
from ..folds import Fold, fold_template
from ..task import guarded, sym
from ..templates import *
from ..values import *

SPLIT = z3.Function('SPLIT', STR, STR, SEQ)
PARTS = z3.Function('PARTS', STR, STR, SEQ)
TOKS = z3.Function('TOKS', STR, SEQ)


def split_axiom(e, s, sep):
    """s.split(sep): at least one piece; joined with sep they are s; no piece contains sep."""
    if sep == '':
        e.raise_(ValueError, 'empty separator')
    zs, zsep = e.zstr(s), e.zstr(sep)
    ch = Chunk(SPLIT(zs, zsep), T_STR)
    parts_facts(e, ch, s, sep)
    e.foralls[tid(ch.t)].append(lambda ps: [z3.Not(e.cont(ps[0], zsep))])
    if not e.params:
        e.assume(e.cont(zs, zsep) == (LENF()(ch.t) >= 2))
    return e.new_list((('c', ch),))


def parts_facts(e, ch, s, sep):
    zs, zsep = e.zstr(s), e.zstr(sep)
    k = ('parts', tid(ch.t))
    n = LENF()(ch.t)
    if k in e.lits_seen:
        return
    e.lits_seen.add(k)
    e.assume(n >= 1)
    # lemma `shorter` (proved in task_lemmas): a piece is never longer than the text, and is shorter
    # when there are others
    e.foralls[tid(ch.t)] = [lambda ps: [
        z3.Length(ps[0]) <= z3.Length(zs),
        z3.Implies(n > 1, z3.Length(ps[0]) + z3.Length(zsep) <= z3.Length(zs))]]
    if not e.params:
        e.add_rfact(e.sigma((('c', ch),), sep), rope(s, sep), None, True)


def c_split_with_escaping(e, func, args):
    a = list(args.values())
    s, sep = e.force(a[0]), e.force(a[1])
    if e.top == func.qual and len(e.frames) == 0:
        return NotImplemented
    ch = Chunk(PARTS(e.zstr(s), e.zstr(sep)), T_STR)
    if tid(ch.t) not in e.foralls:
        parts_facts(e, ch, s, sep)
    return e.new_list((('c', ch),))


def c_split_tokens(e, func, args):
    v = e.force(list(args.values())[0])
    z = e.zstr(v)
    m = e.functional.get('measure:' + func.qual)
    if m is not None:
        e.oblige('%s: recursive call on a shorter text' % func.qual, z3.And(z3.Length(z) < m))
    ch = Chunk(TOKS(z), T_STR)
    return e.new_list((('c', ch),), 'iter')


FIRSTQ = z3.Function('FIRSTQ', STR, STR)      # '' when the text holds no literal
QUOTES = ("'", '"', '`')


def first_quote(e, v):
    z = e.zstr(v)
    q = FIRSTQ(z)
    k = ('firstq', tid(q))
    if k not in e.lits_seen:
        e.lits_seen.add(k)
        e.assume(z3.Or([q == sval('')] + [q == sval(x) for x in QUOTES]))
        e.assume(z3.Implies(q != sval(''), LENF()(PARTS(z, q)) >= 2))
    return CaseV([(q == sval(''), None), (q != sval(''), rope(Atom(q)))])


def c_first(e, func, args):
    return first_quote(e, e.force(list(args.values())[0]))


def setup(e):
    e.contracts['tokeniser:_get_first_string_token'] = c_first
    e.functional['pure'] = {'tokeniser:_get_first_string_token': first_quote}
    e.functional['split'] = split_axiom
    e.contracts['tokeniser:split_with_escaping'] = c_split_with_escaping
    e.contracts['tokeniser:split_tokens'] = c_split_tokens
    e.chunkrules[('nows', 'TOKS')] = lambda t: e.hom('nows', rope(Atom(t.arg(0))))


def task_split_with_escaping(e):
    f = e.program.find('tokeniser:split_with_escaping')
    e.loop_templates = [conservation(None, ()), unread_left, none_means_exhausted, some_left]

    def run():
        s, sep = sym(e, 's'), sym(e, 'sep')
        e.assume(z3.Length(e.zstr(sep)) == 1)
        r = e.call_func(f, [('e', s), ('e', sep)], {}, inline=True)
        segs = e.segs_of(r)
        e.oblige('split_with_escaping: the pieces with their separators are the text',
                 lambda: e.eq_text(e.sigma(segs, sep), rope(s, sep)))
        e.oblige('split_with_escaping: at least one piece', zint(e.len_segs(segs)) >= 1)
    guarded(e, f.name, run)


NOUNESC = z3.Function('NOUNESC', STR, STR, BOOL)


def nounesc(e, v, sep):
    """Term implying that no sep occurs in v without a backslash right before it.  Axioms (proved in
    task_lemma_unescaped): a text that does not hold sep; and a + sep + b when a and b have none and a
    ends with a backslash."""
    if isinstance(v, CaseV) or v is None:
        return z3.And([z3.Implies(c, nounesc(e, x, sep)) for c, x in v.cases if x is not None]
                      if v is not None else [])
    ps = pieces(v)
    opts = []
    for i, p in enumerate(ps):
        if vkey(rope(p)) == vkey(sep):
            left, right = rope(*ps[:i]), rope(*ps[i + 1:])
            opts.append(z3.And(nounesc(e, left, sep), nounesc(e, right, sep),
                               z3.SuffixOf(sval('\\'), e.zstr(left))))
    z, zs = e.zstr(v), e.zstr(sep)
    t = NOUNESC(z, zs)
    k = ('nounesc', tid(t))
    if k not in e.lits_seen and not e.params:
        e.lits_seen.add(k)
        e.assume(z3.Implies(z3.Not(e.cont(z, zs)), t))
    return z3.Or(opts + [t]) if opts else t


def piece_fold(sep):
    def step(e, st, v):
        bad, last, clean, n = st
        return (z3.Or(bad, last), z3.SuffixOf(sval('\\'), e.zstr(v)),
                z3.And(clean, nounesc(e, v, sep)), n + 1)
    return Fold('PIECES', (BOOL, BOOL, BOOL, INT), step)


PIECE0 = (z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(True), z3.IntVal(0))


def piece_template(e, ctx):
    """Pieces so far: none but the last ends with a backslash; the last does only at the end of the text."""
    sep = e.ghost['sep']
    fold = piece_fold(sep)

    def preds(e, ctx, st):
        bad, last, clean, n = st
        yield 'only the last ends escaped', z3.Not(bad)
        yield 'no separator left in a piece', clean
        yield 'the last does not end escaped', z3.Not(last)
        for nm in str_vars(ctx):
            if nm in ctx.entry.vals:
                t = e.is_term(ctx.var(nm), None)
                yield 'escaped end only when %s is None' % nm, z3.Implies(last, zbool_(t))
    out = fold_template(fold, PIECE0, preds)(e, ctx)
    for nm in str_vars(ctx):
        if nm in ctx.entry.vals:
            out.append(pred('no separator left in ' + nm, e,
                            lambda nm=nm: nounesc(e, ctx.var(nm), sep)))
    return out


def task_pieces(e):
    """split_with_escaping cuts exactly at the separators that no backslash precedes."""
    f = e.program.find('tokeniser:split_with_escaping')
    e.loop_templates = [piece_template, unread_left, none_means_exhausted, some_left]

    def run():
        s, sep = sym(e, 's'), sym(e, 'sep')
        z = e.zstr(sep)
        e.assume(z3.Length(z) == 1)
        e.assume(z != sval('\\'))
        e.ghost['sep'] = sep
        r = e.call_func(f, [('e', s), ('e', sep)], {}, inline=True)
        bad, last, clean, n = piece_fold(sep).run(e, e.segs_of(r), PIECE0)
        e.oblige('split_with_escaping: no piece holds a separator without a backslash before it', clean)
        e.oblige('split_with_escaping: only the last piece may end with a backslash', z3.Not(bad))
    guarded(e, f.name, run)


def task_lemma_unescaped(e):
    """The axioms of NOUNESC follow from its meaning: every sep in the text is right after a backslash."""
    A = z3.Array('A', z3.IntSort(), z3.IntSort())
    B = z3.Array('B', z3.IntSort(), z3.IntSort())
    C = z3.Array('C', z3.IntSort(), z3.IntSort())
    la, lb, sep, bs, i, j = z3.Ints('la lb sep bs i j')

    def free(T, n, k):
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, z3.Select(T, k) == sep),
                                         z3.And(k > 0, z3.Select(T, k - 1) == bs)))

    def run():
        e.assume(z3.And(la >= 0, lb >= 0, sep != bs))
        e.oblige('lemma unescaped: a text without the separator', z3.Implies(
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < la), z3.Select(A, j) != sep)), free(A, la, i)))
        joined = z3.And(
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < la), z3.Select(C, j) == z3.Select(A, j))),
            z3.Select(C, la) == sep,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lb),
                                      z3.Select(C, la + 1 + j) == z3.Select(B, j))))
        hyp = z3.And(joined, free(A, la, j), free(B, lb, j), la > 0, z3.Select(A, la - 1) == bs)
        k = z3.Int('k')
        inst = z3.And(0 <= k, k < la + 1 + lb, z3.Select(C, k) == sep)
        # B is read from its own start: its own first character may not be the separator
        e.oblige('lemma unescaped: escaped separator between clean texts', z3.Implies(
            z3.And(hyp, inst, z3.Implies(k > la, z3.And(
                z3.Select(C, k) == z3.Select(B, k - la - 1),
                z3.Implies(k > la + 1, z3.Select(C, k - 1) == z3.Select(B, k - la - 2)))),
                z3.Implies(k < la, z3.Implies(k > 0, z3.Select(C, k - 1) == z3.Select(A, k - 1)))),
            z3.And(k > 0, z3.Select(C, k - 1) == bs)))
    guarded(e, 'lemma unescaped', run)


def head_length(e, v, q):
    ch = Chunk(PARTS(e.zstr(v), e.zstr(q)), T_STR)
    parts_facts(e, ch, v, q)
    first = e.pop_front((('c', ch),))
    return z3.Length(e.zstr(first[0]))


def task_first(e):
    f = e.program.find('tokeniser:_get_first_string_token')

    def run():
        v = sym(e, 'value')
        r = e.force(e.call_func(f, [('e', v)], {}, inline=True))
        n = z3.Length(e.zstr(v))
        if r is None:
            for q in QUOTES:
                e.oblige('_get_first_string_token: none only when no quote splits the text',
                         head_length(e, v, q) >= n)
            return
        e.oblige('_get_first_string_token: a quote', z3.Or([e.zstr(r) == sval(q) for q in QUOTES]))
        ch = Chunk(PARTS(e.zstr(v), e.zstr(r)), T_STR)
        parts_facts(e, ch, v, r)
        first = e.pop_front((('c', ch),))
        second = None if first is None else e.pop_front(first[1])
        e.oblige('_get_first_string_token: the quote splits the text', second is not None)
        m = head_length(e, v, r)
        e.oblige('_get_first_string_token: the quote is in the text', m < n)
        for q in QUOTES:
            e.oblige('_get_first_string_token: no quote splits the text earlier',
                     z3.Implies(sval(q) != e.zstr(r), m <= head_length(e, v, q)))
    guarded(e, f.name, run)


def task_split_tokens(e):
    f = e.program.find('tokeniser:split_tokens')
    e.loop_templates = [conservation('nows'), no_longer, result_of]

    def run():
        v = sym(e, 'value')
        e.functional['measure:tokeniser:split_tokens'] = z3.Length(e.zstr(v))
        r = e.call_func(f, [('e', v)], {}, inline=True)
        segs = e.segs_of(r)
        e.oblige('split_tokens: the tokens are the text, white space apart',
                 lambda: e.eq_text(e.sigma(segs), v, 'nows'))
    guarded(e, f.name, run)


def task_merge_stream(e):
    f = e.program.find('tokeniser:to_tokens')
    e.loop_templates = [conservation(), unread_left]

    def run():
        v = sym(e, 'value')
        r = e.call_func(f, [('e', v)], {})
        segs = e.segs_of(r)
        e.oblige('to_tokens: the tokens are the text, white space apart',
                 lambda: e.eq_text(e.sigma(segs), v, 'nows'))
    guarded(e, f.name, run)


def task_lemma_shorter(e):
    """Induction on the number k of pieces: S(k) = sum of (length + m) over the first k pieces."""
    S = z3.Function('S', z3.IntSort(), z3.IntSort())
    ln = z3.Function('piece_length', z3.IntSort(), z3.IntSort())
    i, j, k, n, m, t = z3.Ints('i j k n m t')

    def run():
        e.assume(m >= 0)
        e.assume(ln(i) >= 0)
        e.assume(ln(k) >= 0)
        e.assume(z3.And(0 <= i, 0 <= k))
        step = S(k + 1) == S(k) + ln(k) + m
        one = lambda x: z3.Implies(i < x, z3.And(S(x) >= ln(i) + m, S(x) >= (x - 1) * m + ln(i) + m))
        e.oblige('lemma shorter, base', z3.Implies(z3.And(S(0) == 0), one(z3.IntVal(0))))
        # sums are not negative and at least x * m
        low = lambda x: S(x) >= x * m
        e.oblige('lemma sum, base', z3.Implies(S(0) == 0, low(z3.IntVal(0))))
        e.oblige('lemma sum, step', z3.Implies(z3.And(step, low(k)), low(k + 1)))
        e.oblige('lemma shorter, step', z3.Implies(z3.And(step, low(k), one(k)), one(k + 1)))
        e.oblige('lemma shorter, use', z3.Implies(
            z3.And(n >= 1, i < n, one(n), S(n) == t + m),
            z3.And(ln(i) <= t, z3.Implies(n > 1, ln(i) + m <= t))))
    guarded(e, 'lemma shorter', run)


# ---------------------------------------------------------------- C02: literals
TOKSE = z3.Function('TOKSE', STR, STR)        # the tokens of a text as a coded sequence


def enc_toks(e, v):
    return rope(Atom(TOKSE(e.zstr(v))))


def unfold_toks(e, v, q):
    """Definition of the reading of a text v whose first literal is opened by the quote q."""
    z = e.zstr(v)
    k = ('unfold', tid(z), tid(q))
    if k in e.lits_seen or e.params:
        return
    first_quote(e, v)
    if not e.implied(z3.And(q != sval(''), q == FIRSTQ(z))):
        return
    e.lits_seen.add(k)
    ch = Chunk(PARTS(z, q), T_STR)
    parts_facts(e, ch, v, rope(Atom(q)))
    with e.scoped(LENF()(ch.t) >= 2):
        before, r1 = e.pop_front((('c', ch),))
        content, after = e.pop_front(r1)
    rest = rope(JoinP(rope(Atom(q)), after))
    zrest = e.zstr(rest)
    qq = e.enc_text(rope(Atom(q)))

    def nonempty(x, y):
        return CaseP([(e.zstr(x) == sval(''), ''), (e.zstr(x) != sval(''), y)])
    closed = zint(e.len_segs(after)) >= 1
    spec = rope(nonempty(before, enc_toks(e, before)), qq, nonempty(content, e.enc_text(content)),
                CaseP([(closed, qq), (z3.Not(closed), '')]),
                nonempty(rest, rope(Atom(TOKSE(zrest)))))
    e.add_rfact(rope(Atom(TOKSE(z))), spec, 'enc', True)


def c_parts_unfold(e, func, args):
    r = c_split_with_escaping(e, func, args)
    a = list(args.values())
    s, sep = e.force(a[0]), e.force(a[1])
    if not isinstance(sep, str) or sep in QUOTES:
        unfold_toks(e, s, e.zstr(sep))
    return r


def task_literals(e):
    """The tokens of a text are those of what precedes its first literal, the literal, and those of the
    rest."""
    f = e.program.find('tokeniser:split_tokens')
    e.contracts['tokeniser:split_with_escaping'] = c_parts_unfold
    e.chunkrules[('enc', 'TOKS')] = lambda t: rope(Atom(TOKSE(t.arg(0))))
    e.loop_templates = [enc_conservation({'toks': enc_toks}, 1), result_of]

    def run():
        v = sym(e, 'value')
        r = e.call_func(f, [('e', v)], {}, inline=True)
        segs = e.segs_of(r)
        # a text without literals: its tokens are, by definition of TOKSE, what the code gives for it
        seen = set()

        def visit(t):
            if z3.is_app(t):
                if t.decl().name() == 'TOKSE':
                    seen.add(t)
                for c in t.children():
                    visit(c)
        for x, y, h, _ in e.rfacts:
            walk_terms(x, visit)
            walk_terms(y, visit)
        visit(TOKSE(e.zstr(v)))
        for t in sorted(seen, key=lambda t: tid(t)):
            x = t.arg(0)
            if not free_generics(x) and e.implied(FIRSTQ(x) == sval('')):
                e.callstack.append('definition of TOKSE')
                r2 = e.call_func(f, [('e', rope(Atom(x)))], {}, inline=True)
                e.callstack.pop()
                e.add_rfact(rope(Atom(t)), e.enc(e.segs_of(r2)), 'enc')
        e.oblige('split_tokens: each literal is one verbatim token, read from left to right',
                 lambda: e.eq_text(e.enc(segs), enc_toks(e, v), 'enc'))
    guarded(e, f.name, run)


def no_quote(e, z):
    return z3.And([z != sval(q) for q in QUOTES])


def plain_pieces(e, v, sep, chunk):
    """Lemma (task_lemma_plain): the pieces of a text without literals have none, when they start the text
    or come right after sep, and sep is neither a quote nor a backslash."""
    if not isinstance(sep, str) or sep in QUOTES or sep == '\\' or len(sep) != 1:
        return
    z = e.zstr(v)
    e.foralls.setdefault(tid(chunk.t), []).append(
        lambda ps: [z3.Implies(FIRSTQ(z) == sval(''), FIRSTQ(ps[0]) == sval(''))])


def first_quote_of(s):
    """Concrete counterpart of FIRSTQ for short literals."""
    for i, c in enumerate(s):
        if c in QUOTES and (i == 0 or s[i - 1] != '\\'):
            return c
    return ''


def task_plain(e):
    """The tokens of a text without literals are no quotes."""
    f = e.program.find('tokeniser:split_tokens')
    e.loop_templates = [result_of, no_longer]
    e.functional['lit_axioms'] = [lambda s, v: [FIRSTQ(v) == sval(first_quote_of(s))]]

    def c_split(e, s, sep):
        r = split_axiom(e, s, sep)
        plain_pieces(e, s, sep, Chunk(SPLIT(e.zstr(s), e.zstr(sep)), T_STR))
        return r

    def c_parts(e, func, args):
        r = c_split_with_escaping(e, func, args)
        a = [e.force(x) for x in args.values()]
        plain_pieces(e, a[0], a[1], Chunk(PARTS(e.zstr(a[0]), e.zstr(a[1])), T_STR))
        return r

    e.chunkfacts['TOKS'] = lambda t, ps: [z3.Implies(FIRSTQ(t.arg(0)) == sval(''), no_quote(e, ps[0]))]
    e.functional['split'] = c_split
    e.contracts['tokeniser:split_with_escaping'] = c_parts

    def run():
        v = sym(e, 'value')
        e.assume(FIRSTQ(e.zstr(v)) == sval(''))
        r = e.call_func(f, [('e', v)], {}, inline=True)
        e.oblige('split_tokens: no token of a text without literals is a quote',
                 lambda: e.every(e.segs_of(r), lambda x: no_quote(e, e.zstr(x))))
    guarded(e, f.name, run)


def task_lemma_plain(e):
    """A piece of a text that starts the text or follows a separator which is no backslash: a quote that
    opens a literal in the piece opens one in the text."""
    T = z3.Array('T', z3.IntSort(), z3.IntSort())
    n, a, b, q, sep, bs, i = z3.Ints('n a b q sep bs i')

    def run():
        e.assume(z3.And(0 <= a, a <= b, b <= n, sep != bs, q != bs))
        e.assume(z3.Or(a == 0, z3.Select(T, a - 1) == sep))
        opens = z3.And(0 <= i, i < b - a, z3.Select(T, a + i) == q,
                       z3.Or(i == 0, z3.Select(T, a + i - 1) != bs))
        e.oblige('lemma plain: a literal of the piece is one of the text', z3.Implies(opens, z3.And(
            0 <= a + i, a + i < n, z3.Select(T, a + i) == q,
            z3.Or(a + i == 0, z3.Select(T, a + i - 1) != bs))))
    guarded(e, 'lemma plain', run)


# ---------------------------------------------------------------- merging of two-character operators
GOALS = ('<>', '<=', '>=', '<<', '>>', '||', '!=')
MGC = z3.Function('MGC', SEQ, STR)            # coded result of merging an unknown sequence


def starts_goal(z):
    return z3.Or([z3.PrefixOf(z, sval(g)) for g in GOALS])


def merged(e, segs, depth=0):
    """Definition of merging: two consecutive tokens that are an operator become one token, where the
    first of them is the first not yet used; an empty second token is left out."""
    segs = e.expand(segs)
    if not segs:
        return ''
    if segs[0][0] == 'c' and len(segs) == 1:
        if e.implied(e.len_chunk(segs[0][1]) == 0):
            return ''
        return rope(Atom(MGC(segs[0][1].t)))
    if segs[0][0] != 'e' or depth > 6:
        raise Unsupported('merging of a computed sequence')
    x, rest = segs[0][1], e.expand(segs[1:])
    zx = e.zstr(x)
    c = z3.simplify(starts_goal(zx))
    alone = rope(e.enc_text(x), merged(e, rest, depth + 1))
    if not rest or (rest[0][0] == 'c' and e.implied(e.len_chunk(rest[0][1]) == 0)):
        return e.enc_text(x)
    if e.implied(z3.Not(c)):
        return alone
    if rest[0][0] == 'c':
        # the second token is not known to exist
        return rope(Atom(z3.Function('MG2', STR, SEQ, STR)(zx, rest[0][1].t)))
    y, rest2 = rest[0][1], rest[1:]
    zy = e.zstr(y)
    more = merged(e, rest2, depth + 1)
    both = z3.Or([z3.Concat(zx, zy) == sval(g) for g in GOALS])
    empty = zy == sval('')
    return rope(CaseP([(z3.Not(c), alone),
                       (z3.And(c, empty), rope(e.enc_text(x), more)),
                       (z3.And(c, z3.Not(empty), both),
                        rope(e.enc_text(rope(x, y)), more)),
                       (z3.And(c, z3.Not(empty), z3.Not(both)),
                        rope(e.enc_text(x), e.enc_text(y), more))]))


def merge_template(e, ctx):
    acc, its = heap_lists(ctx)
    acc = [o for o in acc if o in ctx.entry.heap]
    its = [o for o in its if o in ctx.entry.heap]
    out = []
    for a in acc:
        for i in its:
            def expr(heap, a=a, i=i):
                return rope(e.enc(heap[a].segs), merged(e, heap[i].segs))
            entry = expr(ctx.entry.heap)

            def holds(expr=expr, entry=entry):
                try:
                    return e.eq_text(expr(e.heap), entry, 'enc')
                except (Unsupported, KeyError):
                    return 'no'

            def assume(expr=expr, entry=entry):
                e.add_rfact(expr(e.heap), entry, 'enc')
            out.append(Cand('merged %s %s' % (a, i), holds, assume))
    return out


def unfold_mgc(e):
    def rule(t):
        c = (('c', Chunk(t.arg(0), T_STR)),)
        x = e.expand(c)
        if x == c or (x and x[0] == c[0]):
            if e.implied(e.len_chunk(c[0][1]) == 0):
                return ''
            return None
        return merged(e, x)
    e.homrules[('nf', 'MGC')] = rule


def task_merged(e):
    """The tokens handed out are those of split_tokens with the two-character operators merged."""
    f = e.program.find('tokeniser:to_tokens')
    unfold_mgc(e)
    e.loop_templates = [merge_template, unread_left]

    def run():
        v = sym(e, 'value')
        r = e.call_func(f, [('e', v)], {})
        segs = e.segs_of(r)
        ch = (('c', Chunk(TOKS(e.zstr(v)), T_STR)),)
        e.oblige('to_tokens: the tokens with the operators merged, nothing else changed',
                 lambda: e.eq_text(e.enc(segs), merged(e, ch), 'enc'))
    guarded(e, f.name, run)


def task_lemma_merge(e):
    """Merging treats a quote token as a cut: M(A ++ [q] ++ X) = M(A) ++ [q] ++ M(X), by induction on A
    (one or two elements are taken off A in each step)."""
    L = z3.DeclareSort('TokenList')
    M = z3.Function('M', L, STR)
    ENCF = z3.Function('ENC', STR, STR)
    x, y, q = z3.Strings('x y q')
    X, qX = z3.Consts('X qX', L)

    def step(first, second, whole, tail, tail2):
        """M(first : tail) where tail = second : tail2 (second None: tail is empty)."""
        if second is None:
            return M(whole) == ENCF(first)
        both = z3.Or([z3.Concat(first, second) == sval(g) for g in GOALS])
        return z3.If(z3.Not(starts_goal(first)), M(whole) == z3.Concat(ENCF(first), M(tail)),
                     z3.If(second == sval(''), M(whole) == z3.Concat(ENCF(first), M(tail2)),
                           z3.If(both, M(whole) == z3.Concat(ENCF(z3.Concat(first, second)), M(tail2)),
                                 M(whole) == z3.Concat(ENCF(first), ENCF(second), M(tail2)))))

    def cut(a, ax):
        """The claim for A = a and A ++ [q] ++ X = ax."""
        return M(ax) == z3.Concat(M(a), ENCF(q), M(X))

    def run():
        e.assume(z3.Or([q == sval(t) for t in QUOTES]))
        empty, e1, e1x = z3.Consts('empty e1 e1x', L)
        X1 = z3.Const('X1', L)
        h = z3.String('h')
        qnil = M(empty) == sval('')
        # A = []: q is first in q : X (X = [] or X = h : X1)
        e.oblige('lemma merge, no element, nothing follows', z3.Implies(
            z3.And(qnil, step(q, None, qX, None, None), M(X) == sval('')), cut(empty, qX)))
        e.oblige('lemma merge, no element', z3.Implies(
            z3.And(qnil, step(q, h, qX, X, X1)), cut(empty, qX)))
        # A = [x]
        e.oblige('lemma merge, one element', z3.Implies(
            z3.And(step(x, None, e1, None, None), step(x, q, e1x, qX, X), cut(empty, qX),
                   qnil), cut(e1, e1x)))
        # A = x : y : A2
        A2, A2X, yA, yAX, W, WX = z3.Consts('A2 A2X yA yAX W WX', L)
        e.oblige('lemma merge, more elements', z3.Implies(
            z3.And(step(x, y, W, yA, A2), step(x, y, WX, yAX, A2X), cut(A2, A2X), cut(yA, yAX)),
            cut(W, WX)))
    guarded(e, 'lemma merge', run)
