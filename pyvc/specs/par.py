"""Contracts of the parser: the tree holds the tokens it was built from, in order (C07), and every call made
and every iteration leaves fewer tokens (C03).

Every text is compared as a sequence of tokens, up to letter case; commas, closing brackets and semicolons are
left out.  The tokens of a node whose making is known only by contract are the sequence TKS(node)."""
import copy
import ast
import itertools
import os

import z3

from ..engine import *
from ..interp import CLS, Exc, PyRaise, T_OBJ, T_STR, T_TUP
from ..program import Cls
from ..task import sym
from ..values import *
from . import nodes
from .nodes import NODE, FROMS, NODES

TKS = uf('TKS', OBJ, SEQ)               # the tokens of a node
TKL = uf('TKL', SEQ, SEQ)               # the tokens of a sequence of nodes (or of pairs of nodes)
TKW = uf('TKW', STR, SEQ)               # the tokens a text of several words was made from
DROP = (',', ')', ']', ';')
NONE = ('none',)
QUOTES = ("'", '"', '`')


def setup(e):
    nodes.install(e)
    e.functional['late_fields'] = ('group_each_by', 'expression')
    e.functional['loop_hook'] = loop
    e.functional['check_termination'] = False
    for q, h in CONTRACTS.items():
        e.contracts[q] = h
    e.functional['before_write'] = unfold


# ------------------------------------------------------------------ tokens of values
def chunk(t):
    return (('c', Chunk(t, T_STR)),)


def tok(*words):
    return tuple(('e', w) for w in words)


def words(e, v):
    """The tokens of a text made of words."""
    v = e.force(v)
    out, glue = [], False
    for p in pieces(v):
        if isinstance(p, str):
            ws = p.split()
            if not p[:1].isspace() and glue and ws:
                raise Unsupported('a word glued to another')
            out += tok(*ws)
            glue = bool(ws) and not p[-1:].isspace()
        elif isinstance(p, Atom):
            t = strip_case(p.t)
            if glue:
                raise Unsupported('a word glued to another')
            glue = True
            if z3.is_app(t) and t.decl().name().startswith('words!'):
                out += chunk(TKW(t))
            else:
                out += (('e', rope(Atom(t))),)
        elif isinstance(p, FnP) and p.fn in ('upper', 'lower') and not glue:
            out += words(e, p.arg)
            glue = True
        elif isinstance(p, JoinP) and p.sep.isspace() and not glue:
            for s in p.segs:
                if s[0] == 'e':
                    out += words(e, s[1])
                elif s[0] == 'c':
                    out += (('c', s[1]),)
                elif s[0] == 'f' and case_only(s[2]):
                    out += (('c', s[1]),)
                else:
                    raise Unsupported('words %r' % (s,))
        else:
            raise Unsupported('words of %r' % (p,))
    return tuple(out)


def case_only(lam):
    """Does the mapping change letter case only?"""
    for c, _, segs in lam.cases:
        if len(segs) != 1 or segs[0][0] != 'e':
            return False
        ps = pieces(segs[0][1]) if is_str(segs[0][1]) else []
        if len(ps) != 1 or not isinstance(ps[0], Atom) or not z3.eq(strip_case(ps[0].t), lam.params[0]):
            return False
    return True


def strip_case(t):
    while z3.is_app(t) and t.decl().name() in ('LOWER', 'UPPER') and t.num_args() == 1:
        t = t.arg(0)
    return t


def number(e, v):
    """A number was a token, or a minus sign and a token."""
    v = e.force(v)
    if isinstance(v, SInt):
        t, minus = z3.simplify(v.t), ()
        if z3.is_app(t) and t.decl().name() == 'INTVAL':
            return (('e', rope(Atom(t.arg(0)))),)
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() == -1 and \
                t.arg(1).decl().name() == 'INTVAL':
            return tok('-') + (('e', rope(Atom(t.arg(1).arg(0)))),)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS and t.arg(0).decl().name() == 'INTVAL':
            return tok('-') + (('e', rope(Atom(t.arg(0).arg(0)))),)
    if isinstance(v, Opaque) and v.tag == 'float' and isinstance(v.data, tuple):
        if v.data[0] == 'of' and is_str(v.data[1]):
            return (('e', v.data[1]),)
        if v.data[0] == 'neg' and isinstance(v.data[1], tuple) and v.data[1][0] == 'of':
            return tok('-') + (('e', v.data[1][1]),)
    if is_str(v):
        return (('e', v),)
    raise Unsupported('number %r' % (v,))


def name(e, v):
    """A name or an alias: text or a node."""
    v = e.force(v)
    if v is None:
        return NONE_AT_ALL
    return (('e', v),) if is_str(v) else image(e, v)


NONE_AT_ALL = tok('<none>')             # the text that Python shows for a missing value: no token


def yes(e, v):
    t = e.truth_term(e.force(v))
    return t if isinstance(t, bool) else e.branch(t)


def image(e, v):
    """The tokens of a value of the parser, as a sequence."""
    if isinstance(v, CaseV) and all(x is None or isinstance(x, ObjV) for c, x in v.cases):
        return tuple(('o', c, image(e, x)) for c, x in v.cases if x is not None)
    v = e.force(v)
    if v is None:
        return ()
    if is_str(v):
        t = term(v)
        if t is not None and not isinstance(t, str) and t.decl().name().startswith('words!'):
            return chunk(TKW(t))
        return (('e', v),)
    if isinstance(v, (Ref, STuple, tuple)):
        return images(e, v)
    if isinstance(v, ObjV):
        i = e.info(v)
        if i.fields is None or not i.fresh and e.known_class(v).name != 'Alias':
            return chunk(TKS(v.t))
        cls = e.known_class(v)
        g = lambda n: e.getfield(v, n)
        return TOKS[cls.name](e, v, g)
    raise Unsupported('tokens of %r' % (v,))


def images(e, v):
    out = ()
    for s in e.expand(e.segs_of(v) if not isinstance(v, tuple) else tuple(('e', x) for x in v)):
        if s[0] == 'e':
            x = e.force(s[1])
            if isinstance(x, (tuple, STuple)):
                a, b = x if isinstance(x, tuple) else [y[1] for y in e.expand(x.segs)]
                out += tok('when') + image(e, a) + tok('then') + image(e, b)
            else:
                out += image(e, x)
        elif s[0] == 'c':
            out += (s,) if s[1].et == T_STR else chunk(TKL(s[1].t))
        elif s[0] == 'o':
            if e.branch(s[1]):
                out += images(e, STuple(s[2]))
        else:
            raise Unsupported('tokens of the elements %r' % (s,))
    return out


def select(e, o, g):
    r = tok('select')
    if yes(e, g('select_all')):
        r += tok('all')
    elif yes(e, g('select_distinct')):
        r += tok('distinct')
        if yes(e, g('select_distinct_on')):
            r += tok('on', '(') + image(e, g('select_distinct_on')) + tok(')')
    r += image(e, g('expressions'))
    r += opt(e, g('from_statement'), 'from') + opt(e, g('where_clause'), 'where')
    for n in ('group_by_clause', 'having_clause', 'order_by_clause', 'limit_clause', 'offset_clause'):
        r += clause(e, g(n))
    return r


def opt(e, v, *w):
    if isinstance(v, CaseV):
        return tuple(('o', c, tok(*w) + image(e, x)) for c, x in v.cases if x is not None)
    return () if v is None else tok(*w) + image(e, v)


def flagged(e, v, *w):
    t = e.truth_term(e.force(v))
    if isinstance(t, bool):
        return tok(*w) if t else ()
    return (('o', t, tok(*w)),)


def grouping(e, x):
    return tok('group') + flagged(e, e.getfield(x, 'group_each_by'), 'each') + tok('by')


DECOR = {'WhereClause': ('where',), 'HavingClause': ('having',), 'OrderByClause': ('order', 'by'),
         'LimitClause': ('limit',), 'OffsetClause': ('offset',), 'GroupByClause': grouping}


def clause(e, v):
    """A clause with the words it starts with."""
    if isinstance(v, CaseV):
        return tuple(('o', c, clause(e, x)) for c, x in v.cases if x is not None)
    if v is None:
        return ()
    d = DECOR.get(e.known_class(v).name)
    return (() if d is None else tok(*d) if isinstance(d, tuple) else d(e, v)) + image(e, v)


def array_agg(e, o, g):
    r = tok('array_agg', '(') + flagged(e, g('distinct'), 'distinct') + image(e, g('column'))
    r += tok('ignore', 'nulls') if yes(e, g('ignore_nulls')) else flagged(e, g('respect_nulls'), 'respect', 'nulls')
    r += opt(e, g('order_bys'), 'order', 'by')
    x = e.force(g('limit'))
    return r + (() if x is None else tok('limit') + number(e, x)) + tok(')')


def analytic(e, o, g):
    r = image(e, g('function')) + tok('over', '(')
    x = e.force(g('partition_by'))
    if x is not None:
        r += tok('partition', 'by') + image(e, x)
    return r + opt(e, g('order_by'), 'order', 'by') + opt(e, g('frame_clause')) + tok(')')


def between(e, g, n, op):
    """Elements with a word between them."""
    out = ()
    for k, s in enumerate(e.expand(e.segs_of(g(n)))):
        if s[0] != 'e':
            raise Unsupported('operands %r' % (s,))
        out += (op if k else ()) + image(e, s[1])
    return out


def unnest(e, o, g):
    r = image(e, g('unnest_expression'))
    if yes(e, g('with_offset')):
        r += tok('with', 'offset')
        x = e.force(g('offset_alias'))
        if x is not None:
            r += flagged(e, g('with_offset_as'), 'as') + name(e, x)
    return r


def join(e, o, g):
    r = image(e, g('left_from')) + words(e, g('join_type')) + image(e, g('right_from'))
    x = e.force(g('on'))
    return r + (tok('on') + image(e, x) if x is not None else opt(e, g('using'), 'using'))


def string(e, o, g):
    q = e.force(g('quotes'))
    return name_or(e, g('prefix')) + (('e', q), ('e', g('value')), ('e', q))


def name_or(e, v):
    v = e.force(v)
    return () if v is None else (('e', v),)


def but(w):
    return lambda e, o, g: image(e, g('expression')) + tok(w, '(') + image(e, g('args')) + tok(')')


def value(e, o, g):
    return image(e, g('value'))


TOKS = {
    'SelectStatement': select,
    'WithStatement': lambda e, o, g: tok('with') + image(e, g('with_queries')) + image(e, g('select_statement')),
    'WithQuery': lambda e, o, g: image(e, g('name')) + tok('as', '(') + image(e, g('statement')) + tok(')'),
    'WhereClause': value, 'HavingClause': value, 'OffsetClause': value, 'OnClause': value, 'UsingClause': value,
    'GroupByClause': lambda e, o, g: flagged(e, g('rollup'), 'rollup') + image(e, g('args')),
    'OrderByClause': lambda e, o, g: image(e, g('args')),
    'OrderByItem': lambda e, o, g: image(e, g('expression')) + (
        tok('asc') if yes(e, g('has_asc')) else flagged(e, g('has_desc'), 'desc')),
    'LimitClause': lambda e, o, g: tok('all') if yes(e, g('limit_all')) else image(e, g('expression')),
    'FunctionCall': lambda e, o, g: name(e, g('function_name')) + tok('(') + image(e, g('args')) + tok(')'),
    'CountFunctionCall': lambda e, o, g: tok('count', '(') + flagged(e, g('distinct'), 'distinct') + image(
        e, g('args')) + tok(')'),
    'CastFunctionCall': lambda e, o, g: tok('cast', '(') + image(e, g('column')) + tok('as') + image(
        e, g('cast_type')) + tok(')'),
    'ArrayAggFunctionCall': array_agg,
    'FilteredFunctionCall': lambda e, o, g: image(e, g('function_call')) + tok('filter', '(', 'where') + image(
        e, g('filter_condition')) + tok(')'),
    'AnalyticsClause': analytic,
    'WindowFrameClause': lambda e, o, g: name(e, g('rows_range')) + words(e, g('frame')),
    'Column': lambda e, o, g: name(e, g('value')),
    'ChainedColumns': lambda e, o, g: between(e, g, 'args', tok('.')),
    'Type': lambda e, o, g: name(e, g('value')),
    'DatePartExtraction': lambda e, o, g: name(e, g('part')) + tok('from') + image(e, g('date_expression')),
    'String': string,
    'Integer': lambda e, o, g: number(e, g('value')), 'Float': lambda e, o, g: number(e, g('value')),
    'Null': lambda e, o, g: tok('null'),
    'Boolean': lambda e, o, g: name(e, g('value')),
    'Parenthesis': lambda e, o, g: tok('(') + image(e, g('args')) + tok(')'),
    'Array': lambda e, o, g: tok('[') + image(e, g('args')) + tok(']'),
    'Alias': lambda e, o, g: image(e, g('expression')) + flagged(e, g('with_as'), 'as') + name(e, g('alias')),
    'Index': lambda e, o, g: image(e, g('expression')) + tok('[') + image(e, g('indices')) + tok(']'),
    'ArithmaticOperator': lambda e, o, g: between(e, g, 'args', name(e, g('operator'))),
    'BitwiseOperation': lambda e, o, g: image(e, g('expression')) + name(e, g('predicate')) + image(e, g('right_hand')),
    'Table': lambda e, o, g: (tok('[') + image(e, g('value')) + tok(']') if yes(e, g('in_square_brackets')) else
                              image(e, g('value'))),
    'Unnest': unnest, 'Join': join,
    'CombinedQueries': lambda e, o, g: image(e, g('left_query')) + words(e, g('set_operator')) + image(
        e, g('right_query')),
    'Condition': lambda e, o, g: image(e, g('expression')) + words(e, g('predicate')) + image(e, g('right_hand')),
    'BooleanCondition': lambda e, o, g: between(e, g, 'args', name(e, g('type'))),
    'Negation': lambda e, o, g: tok('not') + image(e, g('expression')),
    'ExceptClause': but('except'), 'ReplaceClause': but('replace'),
    'Case': lambda e, o, g: tok('case') + opt(e, g('expression')) + image(e, g('when_then')) + opt(
        e, g('else_expression'), 'else') + tok('end'),
}


# ------------------------------------------------------------------ comparing sequences of tokens
def term(v):
    ps = pieces(v) if is_str(v) else ()
    if len(ps) == 0:
        return ''
    if len(ps) == 1:
        return ps[0] if isinstance(ps[0], str) else strip_case(ps[0].t) if isinstance(ps[0], Atom) else None
    return None


def same(e, a, b):
    """Are two tokens the same, letter case aside?"""
    x, y = term(a), term(b)
    if x is None or y is None:
        return False
    if isinstance(x, str) and isinstance(y, str):
        return x.lower() == y.lower()
    if isinstance(x, str):
        x, y = y, x
    low = uf('LOWER', STR, STR)
    if isinstance(y, str):
        e.zstr(y)
        e.zstr(y.lower())
        return e.implied(z3.Or(x == sval(y), low(x) == sval(y.lower())))
    return z3.eq(x, y) or e.implied(z3.Or(x == y, low(x) == low(y)))


def dropped(e, s):
    if s[0] == 'c':
        return e.implied(e.len_chunk(s[1]) == 0)
    if s[0] == 'o':
        return False
    t = term(s[1])
    if t is None:
        return False
    if isinstance(t, str):
        return t in DROP or t == ''
    for d in DROP:
        e.zstr(d)
    low = uf('LOWER', STR, STR)(t)
    return e.implied(z3.Or([t == sval('')] + [z3.Or(t == sval(d), low == sval(d)) for d in DROP]))


def flat(e, segs):
    """Expanded."""
    while True:
        out = [('e', e.force(s[1])) if s[0] == 'e' else s for s in e.expand(tuple(segs))]
        if all(s[0] in 'eco' and (s[0] != 'c' or tid(s[1].t) not in e.chunkdefs) for s in out):
            return out
        segs = out


def eq_item(e, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'o':
        return z3.eq(a[1], b[1]) and match(e, a[2], b[2])
    return z3.eq(a[1].t, b[1].t) if a[0] == 'c' else same(e, a[1], b[1])


def decide(e, seq, k):
    """Decide whether the optional part at k is there."""
    c, inner = seq[k][1], seq[k][2]
    seq[k:k + 1] = flat(e, inner) if e.branch(c) else []


def match(e, a, b):
    """Do two sequences of tokens agree?"""
    a, b = flat(e, a), flat(e, b)
    i = j = 0
    while i < len(a) or j < len(b):
        if i < len(a) and j < len(b) and eq_item(e, a[i], b[j]):
            i, j = i + 1, j + 1
        elif i < len(a) and a[i][0] == 'o':
            decide(e, a, i)
        elif j < len(b) and b[j][0] == 'o':
            decide(e, b, j)
        elif i < len(a) and dropped(e, a[i]):
            i += 1
        elif j < len(b) and dropped(e, b[j]):
            j += 1
        else:
            return False
    return True


def before(e, a, b):
    """What of a stands before b, which it has to end with; None when it does not."""
    a, b = flat(e, a), flat(e, b)
    while b:
        if a and eq_item(e, a[-1], b[-1]):
            a.pop()
            b.pop()
        elif b[-1][0] == 'o':
            decide(e, b, len(b) - 1)
        elif a and a[-1][0] == 'o':
            decide(e, a, len(a) - 1)
        elif dropped(e, b[-1]):
            b.pop()
        elif a and dropped(e, a[-1]):
            a.pop()
        else:
            return None
    while any(s[0] == 'o' for s in a):
        decide(e, a, next(k for k, s in enumerate(a) if s[0] == 'o'))
    return tuple(a)


def verbatim(e, a, b):
    """Does a end with exactly the tokens b?"""
    a, b = flat(e, a), flat(e, b)

    def gone(s):
        return s[0] == 'c' and e.implied(e.len_chunk(s[1]) == 0)
    while True:
        while b and gone(b[-1]):
            b.pop()
        while a and gone(a[-1]):
            a.pop()
        if not b:
            return True
        if not a:
            return False
        x, y = a.pop(), b.pop()
        if x[0] == 'o':
            a.append(x)
            b.append(y)
            decide(e, a, len(a) - 1)
            continue
        if x[0] != y[0]:
            return False
        if x[0] == 'c':
            if not z3.eq(x[1].t, y[1].t):
                return False
        elif not (e.zstr(x[1]).eq(e.zstr(y[1])) or e.implied(e.zstr(x[1]) == e.zstr(y[1]))):
            return False


def show(e, segs):
    try:
        return ' '.join('%s' % (term(s[1]) if s[0] == 'e' else '[%s]' % show(e, s[2]) if s[0] == 'o' else '<%s>' % s[1].t) for s in flat(e, segs)).replace('\n', ' ')
    except Exception as x:
        return repr(x)


# ------------------------------------------------------------------ contracts
def nonempty(e, ch):
    e.foralls[tid(ch.t)] = [lambda ps: [ps[0] != sval('')]]


def fresh_seq(e, base):
    ch = Chunk(e.fresh(base, SEQ), T_STR)
    nonempty(e, ch)
    e.len_chunk(ch)
    return ch


def node(e, base, *classes):
    o = ObjV(e.fresh(base, OBJ))
    e.assume(z3.Or([CLS(o.t) == e.program.cls(c).id for c in classes if e.program.cls(c)]))
    return o


def arg(func, args, k):
    """k-th parameter after the class."""
    names = [a.arg for a in func.node.args.args]
    if func.kind == 'class':
        names = names[1:]
    return args.get(names[k]) if k < len(names) else None


def unread(e, v):
    v = e.force(v)
    if not isinstance(v, Ref) or not isinstance(e.heap[v.oid], HList) or e.heap[v.oid].kind != 'iter':
        raise Unsupported('tokens are given as %r' % (v,))
    return e.heap[v.oid]


def measure(e, segs, first):
    return zint(e.len_segs(segs)) + (0 if first is None else 1)


def begin(e, func, args, first=None):
    """A call of a parser: it leaves fewer tokens than there were, or is of a lower rank."""
    h = unread(e, arg(func, args, 0))
    m0 = e.ghost.get('m0')
    if m0 is not None:
        n = measure(e, h.segs, first)
        low = RANK.get(func.qual, 0) < RANK.get(e.ghost['top'], 9)
        e.oblige('termination: %s calls %s on fewer tokens' % (e.ghost['top'], func.qual),
                 n <= m0 if low else n < m0)
    may_raise(e)
    return h


def may_raise(e):
    for fr in e.frames:
        k = ('try', id(fr.func.node))
        if k not in e.persist:
            e.persist[k] = any(isinstance(n, ast.Try) for n in ast.walk(fr.func.node))
        if e.persist[k]:
            kinds = [None, e.program.cls('ParsingError') or ValueError, StopIteration, ValueError, AssertionError]
            k = e.choose(len(kinds), 'a callee raises')
            if k:
                raise PyRaise(Exc(kinds[k], (), 'callee'))
            return


def rest(e, h):
    """Everything unread."""
    segs = tuple(e.expand(h.segs))
    h.segs = ()
    return segs


def upto(e, h, least=0):
    """Some of the unread tokens, the token after them (None: they ran out) and the rest, which stay unread."""
    segs = flat(e, h.segs)
    k = len([s for s in segs if s[0] == 'e'])
    if any(s[0] != 'e' for s in segs[:k]) or len(segs) - k > 1:
        raise Unsupported('unread tokens %r' % (segs,))
    tail = segs[k:]
    ways = list(range(least, k)) + ['end'] + (['in'] if tail else [])
    w = ways[e.choose(len(ways), 'where it stops')]
    if w == 'end':
        h.segs = ()
        if least > k:
            if not tail:
                raise Stop()
            e.assume(e.len_chunk(tail[0][1]) >= least - k)
        return tuple(segs), None
    if w == 'in':
        ch = tail[0][1]
        a, b = fresh_seq(e, 'read'), fresh_seq(e, 'unread')
        n = sym(e, 'next_token')
        e.assume(e.zstr(n) != sval(''))
        e.assume(e.len_chunk(ch) == e.len_chunk(a) + 1 + e.len_chunk(b))
        if least > k:
            e.assume(e.len_chunk(a) >= least - k)
        e.define(ch, (('c', a), ('e', n), ('c', b)))
        h.segs = (('c', b),)
        return tuple(segs[:k]) + (('c', a),), n
    h.segs = tuple(segs[w + 1:])
    return tuple(segs[:w]), segs[w][1]


def pair(e, *vs):
    return STuple(tuple(('e', v) for v in vs))


def give(e, o, segs):
    e.define(Chunk(TKS(o.t), T_STR), tuple(segs))
    return o


def whole(classes, pre=(), post=()):
    """The parser reads all the tokens; the words before and after were read by its caller."""
    def contract(e, func, args):
        h = begin(e, func, args)
        if e.implied(zint(e.len_segs(h.segs)) == 0):
            e.raise_(StopIteration, 'no token')
        return give(e, node(e, 'node', *classes), tok(*pre) + rest(e, h) + tok(*post))
    return contract


def part(classes, pre=()):
    """The parser reads some of the tokens and returns the one after them."""
    def contract(e, func, args):
        h = begin(e, func, args)
        got, nxt = upto(e, h, 1)
        return pair(e, give(e, node(e, 'node', *classes), tok(*pre) + got), nxt)
    return contract


def expression(e, func, args):
    first = e.force(args.get('first_token'))
    if first is not None and not e.branch(zb(e.truth_term(first))):
        first = None
    h = begin(e, func, args, first)
    got, nxt = upto(e, h, 0 if first is not None else 1)
    return pair(e, give(e, node(e, 'expression', *NODES), (() if first is None else (('e', first),)) + got), nxt)


def zb(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def expression_all(e, func, args):
    kw = {}
    for v in args.values():
        if isinstance(v, Opaque) and v.tag == 'kwargs':
            kw = v.data
    first = e.force(kw.get('first_token'))
    h = begin(e, func, args, first)
    if first is None and not flat(e, h.segs):
        e.raise_(StopIteration, 'no token')
    return give(e, node(e, 'expression', *NODES), (() if first is None else (('e', first),)) + rest(e, h))


def nodes_list(e, func, args):
    h = begin(e, func, args)
    segs = rest(e, h)
    n = e.len_segs(segs)
    ch = Chunk(e.fresh('expressions', SEQ), NODE)
    e.len_chunk(ch)
    e.assume((e.len_chunk(ch) == 0) == (zint(n) == 0))
    e.define(Chunk(TKL(ch.t), T_STR), segs)
    return e.new_list((('c', ch),))


def frame_text(e, func, args):
    h = begin(e, func, args)
    t = e.fresh('words', STR)
    e.define(Chunk(TKW(t), T_STR), rest(e, h))
    return rope(Atom(t))


def rendered(e, func, args):
    """Proved in specs/ren.py: the text of a literal holds its parts in order."""
    o = e.force(arg(func, args, 0))
    if not isinstance(o, ObjV) or e.known_class(o).name != 'String':
        raise Unsupported('text of %r in the parser' % (o,))
    t = e.fresh('words', STR)
    e.define(Chunk(TKW(t), T_STR), image(e, o))
    return rope(Atom(t))


def literal(e, func, args):
    """[prefix] quote content quote: two tokens, or one, are read."""
    h = begin(e, func, args)
    q, prefix = arg(func, args, 1), e.force(arg(func, args, 2))
    got, nxt = upto(e, h)
    if nxt is None:
        e.raise_(StopIteration, 'no token')
    got += (('e', nxt),)
    return give(e, node(e, 'literal', 'String'), name_or(e, prefix) + (('e', q),) + got)


def until_one_of(e, func, args):
    """Proved in specs/col.py."""
    h = unread(e, arg(func, args, 0))
    first = e.force(args.get('first_token'))
    got, nxt = upto(e, h)
    stop = e.force(arg(func, args, 1))
    if nxt is not None:
        e.assume(zb(e.in_term(e.case_fn('lower', nxt), stop)))
    return pair(e, e.new_list((() if first is None else (('e', first),)) + got), nxt)


def until_not_in(e, func, args):
    """Proved in specs/col.py."""
    h = unread(e, arg(func, args, 0))
    first = e.force(args.get('first_token'))
    got, nxt = upto(e, h)
    ws = e.force(arg(func, args, 1))
    if nxt is not None:
        e.assume(z3.Not(zb(e.in_term(e.case_fn('lower', nxt), ws))))
    return pair(e, e.new_list((() if first is None else (('e', first),)) + got), nxt)


def closing(e, func, args):
    """Proved in specs/col.py."""
    h = unread(e, arg(func, args, 0))
    first = e.force(args.get('first_token'))
    if first is not None and e.branch(e.zstr(first) == sval(')')):
        return e.new_list(())
    got, nxt = upto(e, h)
    if nxt is not None:
        e.assume(e.zstr(nxt) == sval(')'))
    return e.new_list((() if first is None else (('e', first),)) + got)


ITEMS = FROMS + ('SelectStatement', 'WithStatement')
CONTRACTS = {
    'tokeniser:get_tokens_until_one_of': until_one_of,
    'tokeniser:get_tokens_until_not_in': until_not_in,
    'tokeniser:get_tokens_until_closing_parenthesis': closing,
    'lexer:SQLStatementParser.parse': whole(('SelectStatement', 'WithStatement')),
    'lexer:SelectStatementParser.parse': whole(('SelectStatement',), ('select',)),
    'lexer:WithStatementParser.parse': whole(('WithStatement',), ('with',)),
    'lexer:FromStatementParser.parse': whole(FROMS),
    'lexer:UnnestParser.parse': part(('Unnest',), ('unnest',)),
    'lexer:WhereClauseParser.parse': part(('WhereClause',)),
    'lexer:HavingClauseParser.parse': part(('HavingClause',)),
    'lexer:GroupByParser.parse': whole(('GroupByClause',)),
    'lexer:OrderByParser.parse': whole(('OrderByClause',)),
    'lexer:OrderByItemParser.parse': whole(('OrderByItem',)),
    'lexer:LimitClauseParser.parse': whole(('LimitClause',)),
    'lexer:OffsetClauseParser.parse': whole(('OffsetClause',)),
    'lexer:ExpressionListParser.parse': nodes_list,
    'lexer:ExpressionParser.parse': expression,
    'lexer:ExpressionParser.parse_all': expression_all,
    'lexer:WindowFrameParser.parse': frame_text,
    'lexer:StringParser.parse': literal,
    'sql:transform': rendered,
    'lexer:CaseParser.parse': whole(('Case',), ('case',), ('end',)),
}
RANK = {'lexer:SQLStatementParser.parse': 8, 'lexer:SelectStatementParser.parse': 7,
        'lexer:WithStatementParser.parse': 7, 'lexer:FromStatementParser.parse': 7, 'lexer:UnnestParser.parse': 6,
        'lexer:WhereClauseParser.parse': 6, 'lexer:HavingClauseParser.parse': 6, 'lexer:GroupByParser.parse': 6,
        'lexer:OrderByParser.parse': 6, 'lexer:LimitClauseParser.parse': 6, 'lexer:OffsetClauseParser.parse': 6,
        'lexer:CaseParser.parse': 6, 'lexer:OrderByItemParser.parse': 5, 'lexer:ExpressionListParser.parse': 5,
        'lexer:ExpressionParser.parse_all': 4, 'lexer:ExpressionParser.parse': 3, 'lexer:WindowFrameParser.parse': 2,
        'lexer:StringParser.parse': 1}
PARTIAL = ('lexer:ExpressionParser.parse', 'lexer:WhereClauseParser.parse', 'lexer:HavingClauseParser.parse',
           'lexer:UnnestParser.parse')
EXTRA = {'lexer:SelectStatementParser.parse': (('select',), ()), 'lexer:WithStatementParser.parse': (('with',), ()),
         'lexer:UnnestParser.parse': (('unnest',), ()), 'lexer:CaseParser.parse': (('case',), ('end',))}


def unfold(e, o):
    """The tokens of a node of known class are those of its parts."""
    cls = e.known_class(o)
    ch = Chunk(TKS(o.t), T_STR)
    i = e.info(o)
    if cls.name == 'Alias' and not i.fresh:
        e.materialise(o)
        if tid(ch.t) in e.chunkdefs:
            old = e.expand((('c', ch),))
            if len(old) == 1 and old[0][0] == 'c' and not z3.eq(old[0][1].t, ch.t):
                ch = old[0][1]
            else:
                return
        e.define(ch, TOKS['Alias'](e, o, lambda n: e.getfield(o, n)))


# ------------------------------------------------------------------ loops and cuts
def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def live_map(func):
    """Statement -> names that may be read after it starts before they are assigned."""
    out = {}

    def block(body, after, brk, cont):
        live = set(after)
        for st in reversed(body):
            live = one(st, live, brk, cont)
            out[id(st)] = out.get(id(st), set()) | live
        return live

    def one(st, live, brk, cont):
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            if st.value is None:
                return live
            r = live - {t.id for t in ts if isinstance(t, ast.Name)}
            for t in ts:
                if isinstance(t, (ast.Tuple, ast.List)):
                    r -= {x.id for x in t.elts if isinstance(x, ast.Name)}
                r |= loads(t)
            return r | loads(st.value)
        if isinstance(st, ast.AugAssign):
            return live | loads(st.value) | stores(st.target) | loads(st.target)
        if isinstance(st, ast.If):
            return block(st.body, live, brk, cont) | block(st.orelse, live, brk, cont) | loads(st.test)
        if isinstance(st, (ast.While, ast.For)):
            head = loads(st.test) if isinstance(st, ast.While) else loads(st.iter)
            top = live | head
            while True:
                b = block(st.body, top, live, top)
                if isinstance(st, ast.For):
                    b = b - stores(st.target)
                new = top | b
                if new == top:
                    return top
                top = new
        if isinstance(st, ast.Try):
            hs = set()
            for h in st.handlers:
                hs |= block(h.body, live, brk, cont)
            fin = block(st.finalbody, live, brk, cont)
            return block(st.body, block(st.orelse, live | fin, brk, cont) | hs, brk, cont) | hs | fin
        if isinstance(st, (ast.Return, ast.Raise)):
            return loads(st)
        if isinstance(st, ast.Break):
            return set(brk)
        if isinstance(st, ast.Continue):
            return set(cont)
        return live | loads(st)
    block(func.node.body, set(), set(), set())
    return out


def live_at(e, func, st):
    m = e.persist.setdefault(('live', id(func.node)), None) or live_map(func)
    e.persist[('live', id(func.node))] = m
    return m.get(id(st), set())


def kind(e, v):
    if v is None:
        return 'none'
    if is_str(v):
        return 'str'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, SBool):
        return 'bool'
    if is_int(v):
        return 'int'
    if isinstance(v, ObjV):
        i = e.info(v)
        if i.cls is not None:
            return 'obj:' + i.cls.name if i.cls.name in DECOR else 'obj'
        cs = [c for c in (e.program.cls(n) for n in DECOR) if c is not None]
        if not e.implied(z3.Or([CLS(v.t) == c.id for c in cs])):
            return 'obj'
        cs = e.candidates(v)
        return 'obj:' + cs[0].name if len(cs) == 1 else 'obj'
    if isinstance(v, Ref) and isinstance(e.heap[v.oid], HList):
        h = e.heap[v.oid]
        if h.kind == 'iter':
            return 'iter'
        ks = set()
        for s in flat(e, h.segs):
            if s[0] == 'c':
                ks.add('str' if s[1].et == T_STR else 'pair' if s[1].et[0] == 'tup' else 'obj')
            else:
                x = e.force(s[1])
                ks.add('str' if is_str(x) else 'obj' if isinstance(x, ObjV) else 'pair')
        if len(ks) > 1:
            raise Unsupported('a list of different things')
        return 'list:' + (ks.pop() if ks else '?')
    if isinstance(v, (STuple, tuple)):
        return 'tuple'
    return 'other'


MAY = ('str', 'list:str')
PREFIXES = ('else', 'from')


def kinds_of(e, v):
    if isinstance(v, CaseV):
        return {kind(e, x) for c, x in v.cases if not e.implied(z3.Not(c))}
    return {kind(e, v)}


LINES = {}


def orders(kinds, func):
    """Candidates: which variables hold the tokens read so far, in which order, and which holds the last one."""
    must = sorted(n for n, ks in kinds.items() if any(k[:3] == 'obj' or k in ('list:obj', 'list:pair') for k in ks)
                  or ks == {'list:?'})
    may = sorted(n for n, ks in kinds.items() if ks & set(MAY) and n not in must)
    lasts = sorted((n for n in may if 'str' in kinds[n]), key=lambda n: ('none' not in kinds[n], n))
    lines = LINES.get(id(func.node))
    if lines is None:
        lines = LINES[id(func.node)] = {}
        for n in ast.walk(func.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                lines.setdefault(n.id, []).append((n.lineno, n.col_offset))
    for k in range(0, 3 if len(must) <= 3 else 1):
        for last in lasts + [None]:
            for extra in itertools.combinations([n for n in may if n != last], k):
                if len(must) > 3:
                    ps = [sorted(must, key=lambda n: min(lines[n])), sorted(must, key=lambda n: max(lines[n]))]
                else:
                    ps = itertools.permutations(must + list(extra))
                for p in ps:
                    opts = [[(n, w) for w in (None,) + PREFIXES] if kinds[n] == {'none', 'obj'} else
                            [(n, None)] + [(n, ('unless', m)) for m in must if kinds[m] == {'none', 'obj'}]
                            if n in extra and 'str' in kinds[n] else [(n, None)] for n in p]
                    for q in itertools.product(*opts):
                        yield last, q


def held(e, vals, order):
    out = ()
    for n, w in order:
        v = vals[n]
        if isinstance(w, tuple):
            c = is_none(vals[w[1]])
            if z3.is_true(c):
                out += image(e, v)
            elif not z3.is_false(c):
                out += (('o', c, image(e, v)),)
        elif w:
            out += opt(e, v, w)
        elif isinstance(v, ObjV) or isinstance(v, CaseV):
            out += clause_or_image(e, v)
        else:
            out += image(e, v)
    return out


def clause_or_image(e, v):
    if isinstance(v, CaseV):
        return tuple(('o', c, clause_or_image(e, x)) for c, x in v.cases if x is not None)
    return clause(e, v) if kind(e, v) != 'obj' else image(e, v)


def is_none(v):
    """Condition that a value is None."""
    if isinstance(v, CaseV):
        return z3.Or([c for c, x in v.cases if x is None])
    return z3.BoolVal(v is None)


def again(e):
    """What holds somewhere was weakened: the paths are explored again."""
    e.dropping = e.dropping + [({'dropped': set()}, '')]
    raise Stop()


class Point:
    """A place in the code that is reached again and again, or by many paths: what holds there."""

    def __init__(self, e, key):
        self.e = e
        self.func = e.frames[-1].func
        self.key = key
        self.info = e.persist.setdefault(key, {'kinds': {}, 'dropped': set(), 'excl': None, 'empty': None, 'full': None, 'exhausted': True,
                                               'slack': 1, 'reached': False, 'dead': False, 'texts': {}, 'prefix': {}, 'fit': {}, 'partial': None, 'alone': 0})

    def learn(self, vals):
        changed = not self.info['reached']
        self.info['reached'] = True
        for n, v in vals.items():
            ks = self.info['kinds'].setdefault(n, set())
            for k in kinds_of(self.e, v):
                if k == 'list:?' and any(x.startswith('list:') for x in ks):
                    continue
                if k not in ks:
                    if k.startswith('list:'):
                        ks.discard('list:?')
                    ks.add(k)
                    changed = True
        if changed:
            self.info.update(dropped=set(), exhausted=True, slack=1, excl=None, empty=None, full=None, prefix={}, fit={}, alone=0,
                             partial=None)
            again(self.e)

    def texts(self, vals):
        """Which words a variable may be, letter case aside: None when it may be any."""
        e, texts = self.e, self.info['texts']
        low = uf('LOWER', STR, STR)
        for n, v in vals.items():
            if not is_str(v) or texts.get(n, ()) is None:
                continue
            t, have = e.zstr(v), texts.setdefault(n, frozenset())
            if have and e.implied(z3.Or([low(t) == sval(c) for c in have])):
                continue
            could = frozenset(c for c in constants(e) if (e.zstr(c), not e.implied(low(t) != sval(c)))[1])
            new = could | have if could and e.implied(z3.Or([low(t) == sval(c) for c in could])) else None
            texts[n] = new
            again(e)

    def exclusions(self):
        if self.info['excl'] is None:
            ks = self.info['kinds']
            o = sorted(n for n in ks if 'none' in ks[n] and len(ks[n]) > 1)
            self.info['excl'] = {(a, b) for a, b in itertools.combinations(o, 2) if 'str' in ks[a] or 'str' in ks[b]}
        return self.info['excl']

    def empties(self):
        """When the one is None, the other is empty."""
        if self.info['empty'] is None:
            ks = self.info['kinds']
            self.info['empty'] = {(a, b) for a in ks for b in ks if 'none' in ks[a] and len(ks[a]) > 1 and any(
                k.startswith('list:') for k in ks[b])}
        return self.info['empty']

    def full(self):
        """Lists that have elements when they are there."""
        if self.info['full'] is None:
            self.info['full'] = {n for n, ks in self.info['kinds'].items() if any(k.startswith('list:') for k in ks)}
        return self.info['full']

    def order(self):
        if self.info['partial'] is not None:
            return self.info['partial']
        for c in orders(self.info['kinds'], self.func):
            if c not in self.info['dropped']:
                return c
        return None

    def holds(self, vals, it, start, cut=False):
        """Drops what does not hold here.  start: the tokens before those of the variables; None: to be found.
        Returns it."""
        e, info = self.e, self.info
        if e.check() == z3.unsat:
            raise Stop()
        wrong = [(a, b) for a, b in sorted(self.exclusions()) if not e.implied(z3.Or(is_none(vals[a]), is_none(vals[b])))]
        info['excl'] -= set(wrong)
        less = [(a, b) for a, b in sorted(self.empties()) if vals[a] is None and not e.implied(
            zint(e.len_segs(e.segs_of(vals[b]))) == 0)]
        info['empty'] -= set(less)
        none = [n for n in sorted(self.full()) if vals[n] is not None and not e.implied(zint(e.len_segs(e.segs_of(vals[n]))) > 0)]
        info['full'] -= set(none)
        if wrong or less or none:
            again(e)
        self.texts(vals)
        unread_ = e.heap[it.oid].segs
        while True:
            c = self.order()
            if c is None:
                # nothing fits every arrival: what fits most of them, and the others go on by themselves
                best = max(info['fit'].items(), key=lambda x: x[1], default=None)
                if best is None and cut and info['alone'] < 300:
                    info['alone'] += 1
                    info['dropped'] = set()
                    return ESCAPES
                if best is None:
                    return None
                info['partial'] = best[0]
                info['exhausted'], info['slack'], info['prefix'] = True, 1, {}
                again(e)
            last, order = c
            ok = self.fits(vals, unread_, last, order, start)
            if ok is not None and cut:
                ok = self.prefixed(vals, ok)
            if ok is not None:
                info['fit'][c] = info['fit'].get(c, 0) + 1
                break
            if e.check() == z3.unsat:
                raise Stop()
            if info['partial'] is not None:
                return ESCAPES
            info['dropped'].add(c)
            info['exhausted'], info['slack'], info['prefix'] = True, 1, {}
            if os.environ.get('PAR_DEBUG'):
                print('DROP', self.key, c, {n: kind(e, v) for n, v in vals.items()}, info['kinds'], 'given', show(e, e.ghost['input']),
                      'start', None if start is None else show(e, start), 'held', show(e, held(e, vals, order)), 'last', vals.get(last), 'unread', show(e, unread_))
            if start is not None:
                again(e)
        if last is not None and vals[last] is None and info['exhausted'] and \
                not e.implied(zint(e.len_segs(unread_)) == 0):
            info['exhausted'] = False
            again(e)
        m0 = e.ghost['m0']
        while info['slack'] >= 0 and not e.implied(m0 >= info['slack'] + self.size(vals, last, unread_)):
            info['slack'] -= 1
            if start is not None:
                again(e)
        return ok

    def combo(self, vals):
        return tuple((n, v if isinstance(v, bool) else v is None) for n, v in sorted(vals.items())
                     if (isinstance(v, bool) or self.info['kinds'][n] & {'list:obj'}))

    def prefixed(self, vals, start):
        """What stands before the tokens of the variables are fixed words."""
        e, ws = self.e, []
        for s in flat(e, start):
            if s[0] != 'e':
                return None
            t = term(s[1])
            if t is None:
                return None
            if not isinstance(t, str):
                if dropped(e, s):
                    continue
                low = uf('LOWER', STR, STR)(t)
                cs = [c for c in constants(e) if (e.zstr(c), e.implied(low == sval(c)))[1]]
                if not cs:
                    return None
                t = cs[0]
            ws.append(t.lower())
        old = self.info['prefix'].get(self.combo(vals))
        if old is None:
            self.info['prefix'][self.combo(vals)] = tuple(ws)
            again(e)
        return start if old == tuple(ws) else None

    def size(self, vals, last, unread_):
        e = self.e
        n = zint(e.len_segs(unread_))
        if last is not None and vals[last] is not None:
            n = n + 1
        for nm, ks in self.info['kinds'].items():
            if 'list:str' in ks and nm in dict(self.order()[1]):
                n = n + zint(e.len_segs(e.segs_of(vals[nm])))
        return n

    def fits(self, vals, unread_, last, order, start):
        e = self.e
        tail = (() if last is None or vals[last] is None else (('e', vals[last]),)) + tuple(unread_)
        if start is None:
            a = before(e, e.ghost['input'], held(e, vals, order) + tail)
            if a is not None and not verbatim(e, e.ghost['input'], tail):
                e.ghost['verbatim'] = False
            return a
        if not match(e, e.ghost['input'], start + held(e, vals, order) + tail):
            return None
        if not verbatim(e, e.ghost['input'], tail):
            if not any(s for s in flat(e, tail)):
                return start
            return None
        return start

    def assume(self, frame, it, start):
        """An arbitrary state in which everything holds."""
        e, info = self.e, self.info
        vals, done = {}, set()
        for n in sorted(info['kinds']):
            ks = sorted(info['kinds'][n])
            if len(ks) == 2 and 'none' in ks and any(k[:3] == 'obj' for k in ks):
                b = e.fresh(n + '_none', BOOL)
                vals[n] = CaseV([(b, None), (z3.Not(b), self.havoc(n, next(k for k in ks if k != 'none')))])
            else:
                vals[n] = self.havoc(n, ks[e.choose(len(ks), n)])
        for a, b in sorted(self.exclusions()):
            e.assume(z3.Or(is_none(vals[a]), is_none(vals[b])))
        if start is None:
            start = info['prefix'].get(self.combo(vals))
            if start is None:
                raise Stop()                # not seen so far
            start = tok(*start)
        for a, b in sorted(self.empties()):
            if vals[a] is None:
                e.assume(zint(e.len_segs(e.segs_of(vals[b]))) == 0)
        for n in sorted(self.full()):
            if vals[n] is not None:
                e.assume(zint(e.len_segs(e.segs_of(vals[n]))) > 0)
        for n, v in vals.items():
            if is_str(v) and not info['texts'].get(n, ()) and info['texts'].get(n, ()) is not None:
                raise Stop()                # not seen so far
            if is_str(v) and info['texts'].get(n):
                for c in info['texts'][n]:
                    e.zstr(c)
                e.assume(z3.Or([uf('LOWER', STR, STR)(e.zstr(v)) == sval(c) for c in info['texts'][n]]))
        c = self.order()
        if c is None:
            raise Unsupported('no invariant at %r' % (self.key,))
        last, order = c
        if last is not None and vals[last] is None and info['exhausted']:
            left = ()
        else:
            left = (('c', fresh_seq(e, 'unread')),)
        e.heap[it.oid].segs = left
        tail = (() if last is None or vals[last] is None else (('e', vals[last]),)) + left
        e.ghost['input'] = tuple(start) + held(e, vals, order) + tail
        if info['slack'] >= 0:
            e.assume(e.ghost['m0'] >= info['slack'] + self.size(vals, last, left))
        else:
            e.ghost['m0'] = None
        for n, v in vals.items():
            frame.vars[n] = v
        self.m = zint(e.len_segs(left)) + (0 if last is None or vals[last] is None else 1)
        return vals

    def havoc(self, n, k):
        e = self.e
        if k == 'none':
            return None
        if k == 'str':
            v = sym(e, n)
            e.assume(e.zstr(v) != sval(''))
            return v
        if k in ('true', 'false'):
            return k == 'true'
        if k == 'bool':
            return SBool(e.fresh(n, BOOL))
        if k == 'int':
            return SInt(e.fresh(n, INT))
        if k.startswith('obj:'):
            return node(e, n, k[4:])
        if k == 'obj':
            o = ObjV(e.fresh(n, OBJ))
            e.assume(z3.And(CLS(o.t) >= 1, CLS(o.t) <= len(e.program.classes)))
            return o
        if k.startswith('list:'):
            if k == 'list:?':
                return e.new_list(())
            et = {'str': T_STR, 'obj': NODE, 'pair': T_TUP(NODE, NODE)}[k[5:]]
            ch = Chunk(e.fresh(n, SEQ), et)
            e.len_chunk(ch)
            if et == T_STR:
                nonempty(e, ch)
            return e.new_list((('c', ch),))
        raise Unsupported('variable %s of kind %s changes' % (n, k))


def constants(e):
    """The words of the function under verification."""
    f = e.frames[e.ghost['depth'] - 1].func
    k = ('words', id(f.node))
    if k not in e.persist:
        e.persist[k] = sorted({n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(
            n.value, str) and n.value == n.value.lower()} | set(DROP))
    return e.persist[k]


def values(e, fr, names):
    """The values of the variables that matter, without alternatives; two names for one list are refused."""
    vals, seen = {}, set()
    for n in sorted(names):
        if n not in fr.vars:
            continue
        v = fr.vars[n]
        if isinstance(v, CaseV) and len(v.cases) == 2 and {type(x) for c, x in v.cases} == {type(None), ObjV}:
            vals[n] = v
            continue
        v = e.force(v)
        k = kind(e, v)
        if k == 'iter':
            continue
        if k == 'other' or v is UNDEFINED:
            raise Unsupported('variable %s changes' % n)
        if isinstance(v, Ref):
            if v.oid in seen:
                raise Unsupported('two names of one list')
            seen.add(v.oid)
        vals[n] = v
    return vals


UNDEFINED = object()
ESCAPES = object()


def lost(e, p, vals, it):
    """A path to a loop on which the variables do not hold what they hold on the other paths."""
    e.oblige('%s: the tree and the unread tokens are the tokens given, in order' % e.ghost['top'], False,
             lambda: 'at the loop at line %d\ngiven: %s\nheld: %s' % (
                 p.key[2], show(e, e.ghost['input']), show(e, held(e, vals, (p.order() or (None, ()))[1]) + tuple(e.heap[it.oid].segs))))
    raise Stop()


def modified(fr, st, e):
    """Names whose values change in the statement, by assignment or by a method."""
    names = stores(st)
    for n in ast.walk(st):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            v = fr.vars.get(n.func.value.id)
            if isinstance(v, Ref) and isinstance(e.heap[v.oid], HList) and e.heap[v.oid].kind != 'iter':
                names.add(n.func.value.id)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            names.add(n.value.id)
    return names


def others(e, it):
    """Iterators other than the tokens: a loop may not read them."""
    return {o: segkey(e.expand(h.segs)) for o, h in e.heap.items()
            if isinstance(h, HList) and h.kind == 'iter' and o != it.oid}


def loop(e, st, itv):
    """while loops, and for loops over the tokens."""
    if 'it' not in e.ghost:
        return NotImplemented
    fr, it = e.frames[-1], e.ghost['it']
    if len(e.frames) != e.ghost['depth']:
        return NotImplemented
    if itv is not None and itv.oid != it.oid:
        return NotImplemented
    names = modified(fr, st, e) & live_at(e, fr.func, st)
    if itv is not None:
        names -= stores(st.target)
    p = Point(e, ('loop', e.cur, st.lineno, st.col_offset))
    vals = values(e, fr, names)
    p.learn(vals)
    start = p.holds(vals, it, None)
    if start is None and e.ghost.get('escaped'):
        p.info['dropped'] = set()
        start = ESCAPES
    if start is None:
        raise Unsupported('no invariant of the loop at line %d' % st.lineno)
    if start is ESCAPES:
        lost(e, p, vals, it)
    vals = p.assume(fr, it, start)
    if itv is None:
        go = yes(e, e.eval(st.test))
    else:
        r = e.pop_front(e.heap[it.oid].segs)
        go = r is not None
        e.heap[it.oid].segs = r[1] if go else ()
        if go:
            e.assign(st.target, r[0])
    if not go:
        return
    keep = others(e, it)
    from ..interp import Brk, Cont
    try:
        try:
            e.exec_block(st.body)
        except Cont:
            pass
    except Brk:
        return
    after = others(e, it)
    if any(after.get(o) != k for o, k in keep.items()):
        raise Unsupported('an iterator is read in the loop')
    vals = values(e, fr, names)
    p.learn(vals)
    r = p.holds(vals, it, start)
    if r is None:
        raise Unsupported('no invariant of the loop at line %d' % st.lineno)
    if r is ESCAPES:
        lost(e, p, vals, it)
    last = p.order()[0]
    m = zint(e.len_segs(e.heap[it.oid].segs)) + (0 if last is None or vals[last] is None else 1)
    e.oblige('termination: %s, every iteration leaves fewer tokens' % e.ghost['top'], m < p.m)
    raise Stop()


def segmented(e, body):
    """The body in segments: between two of them any state that meets what holds there."""
    fr, it = e.frames[-1], e.ghost['it']
    func = fr.func
    if ('assigned', id(func.node)) not in e.persist:
        e.persist[('assigned', id(func.node))] = set().union(*[stores(s) for s in body])
    assigned = e.persist[('assigned', id(func.node))]
    cuts = [k for k in range(1, len(body)) if isinstance(body[k - 1], (ast.If, ast.While))]
    points = {k: Point(e, ('cut', e.cur, k)) for k in cuts}
    w = e.persist['segment']
    k0 = 0
    if w > len(cuts):
        raise Stop()
    if w:
        k0 = cuts[w - 1]
        p = points[k0]
        if p.info['dead'] or not p.info['reached'] or e.ghost['given'] & e.persist[('assigned', id(func.node))]:
            raise Stop()
        p.assume(fr, it, None)
    for k in range(k0, len(body)):
        if k in points and k > k0 and not points[k].info['dead']:
            p = points[k]
            try:
                vals = values(e, fr, live_at(e, func, body[k]) & assigned)
                if 'tuple' in {kind(e, v) for v in vals.values()}:
                    raise Unsupported('tuple')
                p.learn(vals)
                ok = p.holds(vals, it, None, True)
            except Unsupported as x:
                ok = None
                if os.environ.get('PAR_DEBUG'):
                    print('CUT', k, x)
            if ok is None:
                p.info['dead'] = True
                again(e)
            if ok is not ESCAPES:
                raise Stop()
            e.ghost['escaped'] = True
        e.exec(body[k])


# ------------------------------------------------------------------ tasks
def check(e, qual, kw=(), cuts=False):
    f = e.program.find(qual)
    pre, post = EXTRA.get(qual, ((), ()))
    partial = qual in PARTIAL
    if cuts:
        e.functional['body_hook'] = {qual: segmented}

    def run():
        ch = fresh_seq(e, 'tokens')
        it = e.new_list((('c', ch),), 'iter')
        start = (('c', ch),)
        args, given = {}, set()
        for k in kw:
            if k == 'first_token':
                if e.choose(2, 'first token given'):
                    given.add(k)
                    v = sym(e, 'first_token')
                    e.assume(e.zstr(v) != sval(''))
                    args[k] = v
                    start = (('e', v),) + start
            elif k == 'start_quote':
                v = sym(e, k)
                e.assume(z3.Or([e.zstr(v) == sval(q) for q in QUOTES]))
                args[k] = v
                start = (('e', v),) + start
            elif k == 'prefix':
                if e.choose(2, k):
                    args[k] = sym(e, k)
                    start = (('e', args[k]),) + start
            elif k == 'until_one_of':
                if e.choose(2, k):
                    given.add(k)
                    args[k] = e.new_list((('c', Chunk(e.fresh(k, SEQ), T_STR)),))
            else:
                args[k] = SBool(e.fresh(k, BOOL))
        e.ghost.update(input=start, it=it, top=qual, given=given, verbatim=True, depth=len(e.frames) + 1,
                       m0=measure(e, start, None))
        if qual.endswith('StringParser.parse'):
            e.ghost['m0'] = None
        pos = [('e', it)]
        if f.kind == 'class':
            pos = [('e', f.cls)] + pos
        r = e.force(e.call_func(f, pos, args, inline=True))
        nxt = None
        left = e.heap[it.oid].segs
        if partial:
            r, nxt = [e.force(s[1]) for s in e.expand(e.segs_of(r))]
        tail = (() if nxt is None else (('e', nxt),)) + tuple(left)
        if qual.endswith('WindowFrameParser.parse'):
            got = words(e, r)
        elif qual.endswith('Statement'):
            got = ()
        else:
            got = image(e, r)
        want = tok(*pre) + tuple(e.ghost['input']) + tok(*post)
        have = got + tail + (tok(*post) if False else ())
        e.oblige('%s: the tree and the unread tokens are the tokens given, in order' % qual,
                 match(e, want, have), lambda: 'given: %s\nfound: %s' % (show(e, want), show(e, have)))
        if partial:
            e.oblige('%s: the token returned and the rest are the end of the tokens given' % qual,
                     e.ghost['verbatim'] and verbatim(e, e.ghost['input'], tail), lambda: show(e, tail))
            if nxt is None:
                e.oblige('%s: no token is returned only when they run out' % qual,
                         zint(e.len_segs(left)) == 0)
        elif not qual.endswith('StringParser.parse'):
            e.oblige('%s: every token is read' % qual, zint(e.len_segs(left)) == 0)
    done = lambda: None

    def thunk():
        try:
            run()
        except PyRaise as r:
            pass                        # text refused
        if e.finished < 3 and str(e.check()) == 'sat':
            e.finished += 1
    for w in range(len(f.node.body) if cuts else 1):
        e.persist['segment'] = w
        e.kept = copy.deepcopy(e.obl)
        e.explore(thunk)
    e.kept = None


def task_of(*quals, **kw):
    def task(e):
        for q in quals:
            if e.program.find('lexer:' + q) is not None:
                check(e, 'lexer:' + q, **kw)
    return task


task_small = task_of('SQLStatementParser.parse', 'WhereClauseParser.parse', 'HavingClauseParser.parse',
                     'OffsetClauseParser.parse', 'LimitClauseParser.parse', 'OrderByItemParser.parse',
                     'GroupByParser.parse', 'ExpressionParser.parse_all')
task_orderby = task_of('OrderByParser.parse')
task_with = task_of('WithStatementParser.parse')
task_case = task_of('CaseParser.parse')
task_frame = task_of('WindowFrameParser.parse')
task_unnest = task_of('UnnestParser.parse')
task_string = task_of('StringParser.parse', kw=('start_quote', 'prefix'))
task_list = task_of('ExpressionListParser.parse', kw=('can_be_type',))
task_from = task_of('FromStatementParser.parse', cuts=True)
task_select = task_of('SelectStatementParser.parse', cuts=True)
task_expression = task_of('ExpressionParser.parse', cuts=True, kw=(
    'is_right_hand', 'can_be_type', 'can_alias', 'until_one_of', 'first_token', 'is_chained_columns'))
