"""Contracts of the functions that collect the tokens of a clause, a group or an operator (C04)."""
import z3

from ..engine import *
from ..folds import Fold, fold_template
from ..interp import T_STR, T_TUP
from ..task import guarded, sym
from ..templates import *
from ..values import *

QUOTES = ("'", '"', '`')


def setup(e):
    e.view_first = True


def low(e, v):
    return e.case_fn('lower', v)


def quote_after(q, z):
    """Open quote ('' when none) once the token z has been read."""
    isq = z3.Or([z == sval(x) for x in QUOTES])
    return z3.If(q == sval(''), z3.If(isq, z, sval('')), z3.If(z == q, sval(''), q))


def clause_fold(first, stop):
    """Brackets and CASE open, the open quote, the last word, the number of tokens read, and whether a
    token that ends the clause was passed over.  first: the first token was read by the caller."""
    def step(e, st, v):
        par, sq, case, quote, prev, n, missed = st
        z, lz = e.zstr(v), e.zstr(low(e, v))
        given = z3.And(first, n == 0)
        out = quote == sval('')

        def count(x, op, cl, t):
            return z3.If(z3.Not(out), x, z3.If(t == sval(op), x + 1, z3.If(
                z3.And(t == sval(cl), z3.Not(given)), x - 1, x)))
        return (count(par, '(', ')', z), count(sq, '[', ']', z), count(case, 'case', 'end', lz),
                quote_after(quote, z), lz, n + 1,
                z3.Or(missed, z3.And(z3.Not(given), stop(e, st, v))))
    return Fold('CLAUSE', (INT, INT, INT, STR, STR, INT, BOOL), step)


CLAUSE0 = (z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), sval(''), sval(''), z3.IntVal(0), z3.BoolVal(False))


def var_templates(e, ctx, st, k_ints, k_quote):
    """Integer variables that equal a component, and the text-or-None variable that is the open quote."""
    for nm in sorted(ctx.names):
        v = ctx.var(nm)
        if is_int(v) and nm in ctx.entry.vals:
            for i in k_ints:
                yield '%s = component %d' % (nm, i), zint(v) == st[i]
    if k_quote is None:
        return
    q = st[k_quote]
    for nm in str_vars(ctx):
        if nm not in ctx.entry.vals:
            continue
        v = ctx.var(nm)
        if v is None:
            yield '%s is the open quote' % nm, q == sval('')
        elif is_str(v):
            yield '%s is the open quote' % nm, z3.And(q == e.zstr(v), q != sval(''))
        elif isinstance(v, CaseV):
            ts = [z3.Implies(c, q == sval('') if x is None else z3.And(q == e.zstr(x), q != sval('')))
                  for c, x in v.cases]
            yield '%s is the open quote' % nm, z3.And(ts)


def last_of(e, segs):
    segs = e.expand(segs)
    if not segs:
        return None
    if segs[-1][0] == 'e':
        return e.zstr(segs[-1][1])
    if segs[-1][0] == 'c':
        return uf('LASTs', SEQ, STR)(segs[-1][1].t)
    return None


def clause_template(e, ctx):
    fold = e.ghost['fold']
    acc, _ = heap_lists(ctx)
    out = fold_template(fold, CLAUSE0, lambda e, ctx, st: list(var_templates(e, ctx, st, (0, 1, 2), 3)) + [
        ('nothing missed', z3.Not(st[6])), ('counted', st[5] >= (1 if e.ghost['given'] else 0))])(e, ctx)
    for o in acc:
        if o not in ctx.entry.heap:
            continue

        def term(o=o):
            st = fold.run(e, e.heap[o].segs, CLAUSE0)
            l = last_of(e, e.heap[o].segs)
            n = zint(e.len_segs(e.heap[o].segs))
            ts = [st[5] == n]
            if l is not None:
                ts.append(z3.Implies(n > 0, st[4] == uf('LOWER', STR, STR)(l)))
            return z3.And(ts)
        out.append(pred('last word of %d' % o, e, term))
    return out


def inputs(e, given):
    seq = Chunk(e.fresh('tokens', SEQ), T_STR)
    e.len_chunk(seq)
    nonempty(e, seq)
    it = e.new_list((('c', seq),), 'iter')
    first = None
    if given:
        first = sym(e, 'first_token')
        e.assume(e.zstr(first) != sval(''))
    return seq, it, first


def nonempty(e, seq):
    """Tokens handed out by the tokeniser of a non-empty query are not empty."""
    e.foralls[tid(seq.t)] = [lambda ps: [ps[0] != sval('')]]


def shape(e, name, seq, it, first, res, nxt):
    """What was collected, the token that ended it and the rest are the tokens that were given."""
    parts = [e.enc(e.segs_of(res))]
    if nxt is not None:
        parts.append(e.enc_text(nxt))
    parts.append(e.enc(e.heap[it.oid].segs))
    start = [e.enc_text(first)] if first is not None else []
    e.oblige('%s: every token is collected, returned or left, in order' % name,
             lambda: e.eq_text(rope(*parts), rope(*(start + [e.enc((('c', seq),))])), 'enc'))
    if nxt is None:
        e.oblige('%s: no end only when the tokens run out' % name,
                 zint(e.len_segs(e.heap[it.oid].segs)) == 0)


def until_one_of(e, given, keeping, quoted=None):
    f = e.program.find('tokeniser:get_tokens_until_one_of')
    e.loop_templates = [enc_conservation((), 1), clause_template, not_empty, unread_left, none_means_exhausted]

    def run():
        e.ghost['given'] = given
        seq, it, first = inputs(e, given)
        words = e.new_list((('c', Chunk(e.fresh('stop_words', SEQ), T_STR)),))
        kch = Chunk(e.fresh('keep', SEQ), T_TUP(T_STR, T_STR))
        keep = e.new_list((('c', kch),))
        e.assume(e.len_chunk(kch) > 0)
        if not keeping:
            keep = e.new_list(()) if e.choose(2, 'empty list of kept pairs') else None
        if quoted is not None:
            isq = z3.Or([e.zstr(first) == sval(q) for q in QUOTES])
            e.assume(isq if quoted else z3.Not(isq))

        def stop(e, st, v):
            par, sq, case, quote, prev, n, missed = st
            lz = low(e, v)
            kept = z3.BoolVal(False)
            if keep is not None:
                kept = z3.And(n > 0, zbool_(e.in_term(STuple((('e', rope(Atom(prev))), ('e', lz))), keep)))
            return z3.And(quote == sval(''), zbool_(e.in_term(lz, words)), par <= 0, sq <= 0, case <= 0,
                          z3.Not(kept))
        fold = clause_fold(z3.BoolVal(given), stop)
        e.ghost['fold'] = fold
        kw = {'first_token': first} if given else {}
        if keep is not None:
            kw['keep'] = keep
        r = e.call_func(f, [('e', it), ('e', words)], kw, inline=True)
        res, nxt = [s[1] for s in e.expand(e.segs_of(r))]
        nxt = e.force(nxt)
        st = fold.run(e, e.segs_of(res), CLAUSE0)
        shape(e, f.name, seq, it, first, res, nxt)
        e.oblige('%s: no terminating word outside brackets, CASE and literals is passed over' % f.name,
                 z3.Not(st[6]))
        if nxt is not None:
            e.oblige('%s: it stops only at a terminating word outside brackets, CASE and literals' % f.name,
                     stop(e, st, nxt))
    guarded(e, f.name, run)


def task_until_one_of(e):
    until_one_of(e, False, False)


def task_until_one_of_first(e):
    until_one_of(e, True, False)


def task_until_one_of_keep(e):
    until_one_of(e, False, True)


def task_until_one_of_first_keep(e):
    until_one_of(e, True, True, False)


def task_until_one_of_quote_keep(e):
    until_one_of(e, True, True, True)


def group_fold():
    def step(e, st, v):
        par, quote, missed = st
        z = e.zstr(v)
        out = quote == sval('')
        end = z3.And(out, z == sval(')'), par == 0)
        return (z3.If(z3.Not(out), par, z3.If(z == sval('('), par + 1, z3.If(z == sval(')'), par - 1, par))),
                quote_after(quote, z), z3.Or(missed, end))
    return Fold('GROUP', (INT, STR, BOOL), step)


GROUP0 = (z3.IntVal(0), sval(''), z3.BoolVal(False))


def task_closing(e):
    f = e.program.find('tokeniser:get_tokens_until_closing_parenthesis')
    fold = group_fold()
    e.loop_templates = [
        enc_conservation((), 1), not_empty, unread_left, none_means_exhausted,
        fold_template(fold, GROUP0, lambda e, ctx, st: list(var_templates(e, ctx, st, (0,), 1)) + [
            ('nothing missed', z3.Not(st[2])), ('never negative', st[0] >= 0)])]

    def run():
        given = bool(e.choose(2, 'first token given'))
        seq, it, first = inputs(e, given)
        kw = {'first_token': first} if given else {}
        r = e.call_func(f, [('e', it)], kw, inline=True)
        st = fold.run(e, e.segs_of(r), GROUP0)
        e.oblige('%s: the matching closing parenthesis is not passed over' % f.name, z3.Not(st[2]))
        # either everything was collected, or the next token was the matching parenthesis
        e.split_path()
        rest = e.heap[it.oid].segs
        got = e.enc(e.segs_of(r))
        start = ([e.enc_text(first)] if given else []) + [e.enc((('c', seq),))]
        end = z3.And(st[1] == sval(''), st[0] == 0)
        a = e.eq_text(rope(got, e.enc(rest)), rope(*start), 'enc')
        b = e.eq_text(rope(got, e.enc_text(')'), e.enc(rest)), rope(*start), 'enc')
        e.oblige('%s: every token but the closing parenthesis is collected or left, in order' % f.name,
                 a == 'yes' or b == 'yes')
        e.oblige('%s: it stops only at the matching closing parenthesis or at the end' % f.name,
                 z3.Or(z3.And(z3.BoolVal(b == 'yes'), end),
                       z3.And(z3.BoolVal(a == 'yes'), zint(e.len_segs(rest)) == 0)))
    guarded(e, f.name, run)


def kept_fold(words):
    def step(e, st, v):
        ok, n = st
        return z3.And(ok, zbool_(e.in_term(low(e, v), words))), n + 1
    return Fold('KEPT', (BOOL, INT), step)


def task_until_not_in(e):
    f = e.program.find('tokeniser:get_tokens_until_not_in')

    def template(e, ctx):
        return fold_template(kept_fold(e.ghost['words']), KEPT0, lambda e, ctx, st: [
            ('all kept words', st[0])])(e, ctx)
    KEPT0 = (z3.BoolVal(True), z3.IntVal(0))
    e.loop_templates = [enc_conservation((), 1), not_empty, unread_left, none_means_exhausted, template]

    def run():
        given = bool(e.choose(2, 'first token given'))
        seq, it, first = inputs(e, given)
        words = e.new_list((('c', Chunk(e.fresh('kept_words', SEQ), T_STR)),))
        e.ghost['words'] = words
        if given:
            e.assume(zbool_(e.in_term(low(e, first), words)))
        kw = {'first_token': first} if given else {}
        r = e.call_func(f, [('e', it), ('e', words)], kw, inline=True)
        res, nxt = [s[1] for s in e.expand(e.segs_of(r))]
        nxt = e.force(nxt)
        shape(e, f.name, seq, it, first, res, nxt)
        st = kept_fold(words).run(e, e.segs_of(res), KEPT0)
        e.oblige('%s: only the given words are collected' % f.name, st[0])
        if nxt is not None:
            e.oblige('%s: it stops only at another word' % f.name,
                     z3.Not(zbool_(e.in_term(low(e, nxt), words))))
    guarded(e, f.name, run)
