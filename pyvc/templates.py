"""Loop-invariant candidates.  A candidate that does not hold on entry or is not preserved is dropped
(the strongest subset that is inductive is what the verifier uses); none is ever trusted."""
import itertools

import z3

from .engine import *
from .interp import UNDEF
from .values import *


class Cand:
    def __init__(self, name, holds, assume):
        self.name = name
        self._h = holds
        self._a = assume

    def holds(self, e, ctx):
        return self._h()

    def assume(self, e):
        self._a()


def pred(name, e, term):
    """Candidate given by a term (None: it does not apply to the current kinds of values)."""
    def holds():
        t = term()
        return 'no' if t is None else e.valid(t)

    def assume():
        t = term()
        if t is not None:
            e.assume(t)
    return Cand(name, holds, assume)


def str_vars(ctx):
    """Names whose value is text or None, in a fixed order."""
    out = []
    for nm in sorted(ctx.names):
        v = ctx.var(nm)
        if is_str(v) or v is None or (isinstance(v, CaseV) and all(
                x is None or is_str(x) for _, x in v.cases)):
            out.append(nm)
    return out


def heap_lists(ctx):
    e = ctx.e
    acc, its = [], []
    for oid in sorted(ctx.info['heap']):
        h = e.heap.get(oid)
        if isinstance(h, HList) and h.kind != 'set':
            (its if h.kind == 'iter' else acc).append(oid)
    return acc, its


def text_of(e, v, sep):
    """Text contributed by a text-or-None variable; None when it is neither."""
    if v is None:
        return ''
    if is_str(v):
        return rope(v, sep)
    if isinstance(v, CaseV) and all(x is None or is_str(x) for _, x in v.cases):
        return rope(CaseP([(c, '' if x is None else rope(x, sep)) for c, x in v.cases]))
    return None


def conservation(hom=None, seps=('',), max_vars=2):
    """What the lists, the text variables and the iterators of the loop hold together, in this order,
    concatenated (each element followed by the separator), is what it was on entry."""

    def template(e, ctx):
        acc, its = heap_lists(ctx)
        # lists of the entry heap only
        acc = [o for o in acc if o in ctx.entry.heap]
        its = [o for o in its if o in ctx.entry.heap]
        svars = [n for n in str_vars(ctx) if n in ctx.entry.vals]
        out = []
        allseps = list(seps)
        top = ctx.frame
        for nm, v in top.vars.items():
            if is_str(v) and nm not in ctx.names and v not in allseps:
                allseps.append(v)
        for sep in allseps:
            for k in range(0, max_vars + 1):
                for vs in itertools.permutations(svars, k):
                    for acc_order in ([acc] if len(acc) < 2 else [list(p) for p in
                                                                  itertools.permutations(acc)]):
                        if not its and not vs:
                            continue
                        out.append(make(e, ctx, hom, sep, acc_order, vs, its))
        return out

    def expr(e, ctx, heap, var, sep, acc, vs, its):
        parts = []
        for o in acc:
            parts.append(e.sigma(heap[o].segs, sep))
        for v in vs:
            t = text_of(e, var(v), sep)
            if t is None:
                return None
            parts.append(t)
        for o in its:
            parts.append(e.sigma(heap[o].segs, sep))
        return rope(*parts)

    def make(e, ctx, hom, sep, acc, vs, its):
        name = 'conserved %s %s | %s | %s | %s' % (hom, vkey(sep), acc, vs, its)
        try:
            entry = expr(e, ctx, ctx.entry.heap, lambda n: ctx.entry.vals.get(n, UNDEF), sep, acc, vs,
                         its)
        except Unsupported:
            entry = None

        def current():
            try:
                return expr(e, ctx, e.heap, ctx.var, sep, acc, vs, its)
            except (Unsupported, KeyError):
                return None

        def holds():
            cur = current()
            if entry is None or cur is None:
                return 'no'
            if vkey(cur) == vkey(entry):
                return 'yes'
            return e.eq_text(cur, entry, hom)

        def assume():
            cur = current()
            if hom:
                e.add_rfact(e.hom(hom, cur), e.hom(hom, entry), hom)
            else:
                e.add_rfact(cur, entry)
        return Cand(name, holds, assume)
    return template


def enc_conservation(contribs=(), max_vars=2):
    """The sequence held by the lists, text variables and iterators together, in this order, is what it was
    on entry.  contribs: what a variable may contribute, name -> function(e, text) -> coded sequence; the
    variable itself as an element is always tried."""
    contribs = dict(contribs)
    contribs['elem'] = lambda e, v: e.enc_text(v)

    def template(e, ctx):
        acc, its = heap_lists(ctx)
        acc = [o for o in acc if o in ctx.entry.heap]
        its = [o for o in its if o in ctx.entry.heap]
        svars = [n for n in str_vars(ctx) if n in ctx.entry.vals]
        out = []
        for k in range(0, max_vars + 1):
            for vs in itertools.permutations(svars, k):
                for cs in itertools.product(sorted(contribs), repeat=k):
                    if its or vs:
                        out.append(make(e, ctx, acc, vs, cs, its))
        return out

    def one(e, v, c):
        if v is None:
            return ''
        if is_str(v):
            return contribs[c](e, v)
        if isinstance(v, CaseV) and all(x is None or is_str(x) for _, x in v.cases):
            return rope(CaseP([(g, one(e, x, c)) for g, x in v.cases]))
        return None

    def expr(e, heap, var, acc, vs, cs, its):
        parts = [e.enc(heap[o].segs) for o in acc]
        for v, c in zip(vs, cs):
            t = one(e, var(v), c)
            if t is None:
                return None
            parts.append(t)
        parts += [e.enc(heap[o].segs) for o in its]
        return rope(*parts)

    def make(e, ctx, acc, vs, cs, its):
        name = 'sequence %s | %s | %s' % (acc, list(zip(vs, cs)), its)
        try:
            entry = expr(e, ctx.entry.heap, lambda n: ctx.entry.vals.get(n, UNDEF), acc, vs, cs, its)
        except Unsupported:
            entry = None

        def current():
            try:
                return expr(e, e.heap, ctx.var, acc, vs, cs, its)
            except (Unsupported, KeyError):
                return None

        def holds():
            cur = current()
            if entry is None or cur is None:
                return 'no'
            return 'yes' if vkey(cur) == vkey(entry) else e.eq_text(cur, entry, 'enc')

        def assume():
            e.add_rfact(current(), entry, 'enc')
        return Cand(name, holds, assume)
    return template


def no_longer(e, ctx):
    """A text variable never gets longer than it was on entry."""
    out = []
    for nm in str_vars(ctx):
        v0 = ctx.entry.vals.get(nm)
        if not is_str(v0):
            continue
        n0 = z3.Length(e.zstr(v0))

        def term(nm=nm, n0=n0):
            v = ctx.var(nm)
            return z3.Length(e.zstr(v)) <= n0 if is_str(v) else None
        out.append(pred('no longer ' + nm, e, term))
    return out


def unread_left(e, ctx):
    """No iterator of the loop gets elements back."""
    out = []
    _, its = heap_lists(ctx)
    for o in its:
        if o not in ctx.entry.heap:
            continue
        n0 = zint(e.len_segs(ctx.entry.heap[o].segs))

        def term(o=o, n0=n0):
            return zint(e.len_segs(e.heap[o].segs)) <= n0 if o in e.heap else None
        out.append(pred('unread %d' % o, e, term))
    return out


def none_means_exhausted(e, ctx):
    """A text variable read with next() is None only when its iterator is exhausted."""
    out = []
    _, its = heap_lists(ctx)
    for o in its:
        for nm in str_vars(ctx):
            if nm not in ctx.entry.vals:
                continue

            def term(o=o, nm=nm):
                v = ctx.var(nm)
                if o not in e.heap:
                    return None
                n = zint(e.len_segs(e.heap[o].segs))
                if v is None:
                    return n == 0
                if is_str(v):
                    return z3.BoolVal(True)
                if isinstance(v, CaseV):
                    return z3.And([z3.Implies(c, n == 0) for c, x in v.cases if x is None])
                return None
            out.append(pred('%s is None only after %d' % (nm, o), e, term))
    return out


def not_empty(e, ctx):
    """A text variable is not the empty text."""
    out = []
    for nm in str_vars(ctx):
        if nm not in ctx.entry.vals:
            continue

        def term(nm=nm):
            v = ctx.var(nm)
            if v is None:
                return z3.BoolVal(True)
            if is_str(v):
                return e.zstr(v) != sval('')
            return z3.And([z3.Implies(c, e.zstr(x) != sval('')) for c, x in v.cases if x is not None])
        out.append(pred(nm + ' is not empty', e, term))
    return out


def some_left(e, ctx):
    """A list together with a text variable holds at least one element."""
    out = []
    acc, _ = heap_lists(ctx)
    for o in acc:
        for nm in [None] + str_vars(ctx):
            if o not in ctx.entry.heap or (nm is not None and nm not in ctx.entry.vals):
                continue

            def term(o=o, nm=nm):
                if o not in e.heap:
                    return None
                n = zint(e.len_segs(e.heap[o].segs))
                if nm is None:
                    return n >= 1
                t = e.is_term(ctx.var(nm), None)
                return z3.Or(n >= 1, z3.Not(zbool_(t)))
            out.append(pred('some in %d or %s' % (o, nm), e, term))
    return out


def zbool_(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def result_of(e, ctx):
    """A variable is the result of a pure function (one with a functional contract) of another."""
    out = []
    for qual, fn in e.functional.get('pure', {}).items():
        if e.top == qual:
            continue
        for x in sorted(ctx.names):
            for y in sorted(set(ctx.names) | set(ctx.frame.vars)):
                if x == y or x not in ctx.entry.vals:
                    continue
                vy = ctx.frame_of(y).vars.get(y)
                if not (is_str(vy) or vy is None or isinstance(vy, CaseV)):
                    continue

                def term(x=x, y=y, fn=fn):
                    vx, vy = ctx.var(x), ctx.frame_of(y).vars.get(y)
                    if vx is UNDEF or not is_str(vy):
                        return None
                    try:
                        return zbool_(e.eq_term(vx, fn(e, vy)))
                    except Unsupported:
                        return None
                out.append(pred('%s = %s(%s)' % (x, qual, y), e, term))
    return out
