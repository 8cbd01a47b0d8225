"""Contracts of rendering: what the text of each node of a query tree consists of (C05, C06, C08).

The rendering of every class is verified against the contract of the renderings of its parts: the text of a
part x is TR(x), or, rendered with other layout flags, LAY(x); without blanks outside literals both are the
parts of x in order.  `nows` removes every blank from a text, `keep` every blank outside string literals."""
import z3

from ..engine import *
from ..interp import CLS, T_OBJ, Builtin, PyRaise, MISSING
from ..program import Cls
from ..task import guarded
from ..templates import pred
from ..values import *
from . import nodes, val
from .nodes import NODE, SCHEMA
from .val import TR, Parts, arbitrary, bt

LAY = uf('LAY', OBJ, INT, STR)
STRO = uf('STRO', OBJ, STR)             # str(x) of a node that has a `transform`
REP = uf('REPEAT', STR, INT, STR)
DEPTH = uf('DEPTH', OBJ, INT)
FROMOK = uf('FROMOK', OBJ, BOOL)        # stands where FROM items stand
IMAGE = {'nows': uf('NOWS', STR, STR), 'keep': uf('KEEP', STR, STR)}
HOMS = (('nows', 'its parts in order, blanks aside'), ('keep', 'its parts in order, every literal verbatim'))


def setup(e):
    nodes.install(e)
    e.parts = Texts(e)
    e.parts.busy = False
    e.parts.inside = e.program.cls('Parenthesis'), e.program.cls('Alias')
    for h, f in IMAGE.items():
        def image(t, f=f, h=h):
            x = ObjV(t.arg(0))
            r = e.parts.unfold(x)
            if r is None:
                return rope(Atom(f(TR(x.t))))
            r = e.hom(h, r)
            e.parts.same(f(TR(x.t)), r, z3.Or([CLS(x.t) == c.id for c in e.parts.inside if e.implied(CLS(x.t) == c.id)]))
            return r
        e.homrules[(h, 'TR')] = e.homrules[(h, 'LAY')] = image
        def elements(ch, f=f, h=h):
            if ch.t.decl().name() == 'Parenthesis.args.q' and not e.parts.busy:
                x = ObjV(ch.t.arg(0))
                e.parts.busy = True
                try:
                    r = e.hom(h, text_parenthesis(e, x))
                finally:
                    e.parts.busy = False
                e.parts.same(f(TR(x.t)), r, CLS(x.t) == e.program.cls('Parenthesis').id)
        e.homrules[(h, 'elements')] = elements
        e.homrules[(h, 'REPEAT')] = lambda t: rope(Atom(t))
    e.contracts['sql:Parenthesis.value'] = innermost
    facts = e.functional['schema_facts']
    for n in ('GroupByClause', 'OrderByClause'):
        facts[n] = nodes.nonempty('args')
    facts['SelectStatement'] = from_facts('from_statement')
    facts['Join'] = from_facts('left_from', 'right_from')
    facts['Boolean'] = lambda e, a: [z3.Or([e.zstr(e.bi_str_lower(a['value'])) == sval(x)
                                            for x in ('true', 'yes', 'false', 'no')])]
    e.schema['WindowFrameClause'] = dict(SCHEMA['WindowFrameClause'], frame=('lit',))


def innermost(e, f, a):
    """Parenthesis.value of brackets in brackets: some node that is no bracket."""
    if f.qual not in e.callstack:
        return NotImplemented
    x = e.force(list(a.values())[0])
    facts = []
    v = e.make(T_OBJ(*[n for n in nodes.NODES if n != 'Parenthesis']),
               lambda s, so: uf('Parenthesis.value.' + s, OBJ, so)(x.t), facts)
    for t in facts:
        e.assume(t)
    return v


def from_facts(*names):
    def facts(e, args):
        for n in names:
            v = args[n]
            for c, x in (v.cases if isinstance(v, CaseV) else [(z3.BoolVal(True), v)]):
                if x is not None:
                    yield z3.Implies(c, FROMOK(x.t))
                    from_item(e, x.t)
    return facts


def from_item(e, t, deep=True):
    """FROMOK unfolded at t: brackets hold one item, an alias is a name or a literal."""
    q = uf('Parenthesis.args.q', OBJ, SEQ)(t)
    x = uf('HDo', SEQ, OBJ)(q)
    e.axiom(z3.Implies(z3.And(FROMOK(t), CLS(t) == e.program.cls('Parenthesis').id),
                       z3.And(LENF()(q) == 1, FROMOK(x), DEPTH(x) < DEPTH(t))))
    e.axiom(DEPTH(t) >= 0)
    y = uf('Alias.expression.o', OBJ, OBJ)(t)
    e.axiom(z3.Implies(z3.And(FROMOK(t), CLS(t) == e.program.cls('Alias').id), z3.And(
        FROMOK(y), z3.Or(uf('Alias.alias.tag', OBJ, INT)(t) == 0,
                         CLS(uf('Alias.alias.u1o', OBJ, OBJ)(t)) == e.program.cls('String').id))))
    if deep:
        from_item(e, y, False)


class Texts(Parts):
    """The texts of nodes other than the one under verification are known by their contracts."""

    def attr(self, e, o, name, args):
        if self.mine(o):
            return NotImplemented
        if name == '__str__':
            cs = e.candidates(o)
            own = [c for c in cs if c.find('transform') is not None]
            if own and e.branch(z3.Or([CLS(o.t) == c.id for c in own])):
                return rope(Atom(STRO(o.t)))
            return rope(Atom(TR(o.t)))
        return super().attr(e, o, name, args)

    def text(self, e, args, kw):
        o = e.force(args[0][1])
        given = [e.force(v) for _, v in args[1:]] + [e.force(v) for v in kw.values()]
        if not given:
            return rope(Atom(TR(o.t)))
        got = self.bound(o, 'transform', args, kw)
        if all(isinstance(v, (bool, SBool)) for v in got):
            n = z3.IntVal(0)
            for v in got:
                n = 2 * n + z3.If(bt(v), 1, 0)
            return rope(Atom(LAY(o.t, z3.simplify(n))))
        cls = e.known_class(o)
        return e.call_func(cls.find('transform'), list(args), kw, inline=True)

    def transform(self, e, f, a):
        o = e.force(list(a.values())[0])
        if isinstance(o, ObjV) and self.mine(o):
            return NotImplemented
        return super().transform(e, f, a)

    def same(self, t, r, cond):
        """If cond, t is the text r, as far as z3 can tell texts apart."""
        e = self.e
        saved, e.rfacts = e.rfacts, []
        try:
            z = e.zstr(e.nf(r))
        finally:
            e.rfacts = saved
        f = z3.Implies(cond, t == z)
        if e.params or free_generics(f):
            e.hom_facts.append(f)
        else:
            e.axiom(f)

    def unfold(self, o):
        """The text of a node whose class is known here to be brackets or an alias: layout code looks inside."""
        e = self.e
        cs = self.inside
        if e.implied(CLS(o.t) == cs[0].id):
            return text_parenthesis(e, o)
        if e.implied(CLS(o.t) == cs[1].id):
            return text_alias(e, o)
        return None


# ------------------------------------------------------------------ the parts of each class
def T(e, v):
    """Text of a part."""
    if isinstance(v, ObjV):
        return rope(Atom(TR(v.t)))
    if is_str(v):
        return v
    if isinstance(v, CaseV):
        return rope(CaseP([(c, '' if x is None else T(e, x)) for c, x in v.cases]))
    raise Unsupported('text of %r' % (v,))


def when(c, a, b=''):
    c = z3.BoolVal(c) if isinstance(c, bool) else c
    return rope(CaseP([(c, a), (z3.Not(c), b)]))


def flag(e, v):
    t = e.truth_term(v)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def opt(e, v, f):
    """f of the value when there is one."""
    if not isinstance(v, CaseV):
        return when(flag(e, v), f(v))
    return rope(CaseP([(c, when(flag(e, x), f(x)) if x is not None else '') for c, x in v.cases]))


def seq(e, v, sep, f=None):
    """The texts of the elements, with separators."""
    out = []
    for s in e.segs_of(v):
        if s[0] == 'e':
            out.append(('e', (f or T)(e, s[1])))
        elif s[0] == 'c':
            out.append(('f', s[1], e.str_lam(s[1].et, lambda x: (('e', (f or T)(e, x)),))))
        else:
            raise Unsupported('elements %r' % (s,))
    return rope(JoinP(sep, tuple(out)))


def G(e, o):
    return lambda name: e.getfield(o, name)


def text_parenthesis(e, o):
    q = Chunk(uf('Parenthesis.args.q', OBJ, SEQ)(o.t), NODE)
    return rope('(', seq(e, STuple((('c', q),)), ','), ')')


def text_alias(e, o):
    g = G(e, o)
    e.materialise(o)
    return rope(T(e, g('expression')), when(flag(e, g('with_as')), 'AS'), T(e, g('alias')))


def up(e, v):
    return e.bi_str_upper(v)


def select(e, o, g):
    def group(x):
        each = e.getfield(x, 'group_each_by')
        return rope('GROUP', when(flag(e, each), 'EACH'), 'BY', T(e, x))

    def clause(name, word):
        return opt(e, g(name), lambda x: rope(word, T(e, x)))
    x = g('group_by_clause')
    for c, y in x.cases:
        if y is not None:
            with e.scoped(c):
                e.materialise(y)
    return rope('SELECT', when(flag(e, g('select_all')), 'ALL', when(
        flag(e, g('select_distinct')), rope('DISTINCT', opt(e, g('select_distinct_on'), lambda x: rope(
            'ON(', seq(e, x, ','), ')'))))), seq(e, g('expressions'), ','),
        clause('from_statement', 'FROM'), clause('where_clause', 'WHERE'), opt(e, x, group),
        clause('having_clause', 'HAVING'), clause('order_by_clause', 'ORDERBY'), clause('limit_clause', 'LIMIT'),
        clause('offset_clause', 'OFFSET'))


def value(e, o, g):
    return T(e, g('value'))


def column(e, o, g):
    words = e.program.cls('Column').find('KEYWORDS')
    v = g('value')
    return v, words


def case(e, o, g):
    def pair(e, x):
        return rope('WHEN', T(e, x[0]), 'THEN', T(e, x[1]))
    return rope('CASE', opt(e, g('expression'), lambda x: T(e, x)), seq(e, g('when_then'), '', pair),
                opt(e, g('else_expression'), lambda x: rope('ELSE', T(e, x))), 'END')


def operator(e, o, g):
    return seq(e, g('args'), g('operator'))


def but(word):
    return lambda e, o, g: rope(T(e, g('expression')), word, '(', seq(e, g('args'), ','), ')')


def binary(e, o, g):
    return rope(T(e, g('expression')), up(e, g('predicate')), T(e, g('right_hand')))


def keyword(e, v):
    """A word of SQL that is no name is written in capitals."""
    k = e.get_attr(e.parts.self_, 'KEYWORDS')
    return rope(CaseP([(c if not isinstance(c, bool) else z3.BoolVal(c), x) for c, x in (
        lambda c: ((c, up(e, v)), (z3.Not(c) if not isinstance(c, bool) else not c, v)))(e.in_term(v, k))]))


FLAT = {
    'SelectStatement': select,
    'WithStatement': lambda e, o, g: rope('WITH', seq(e, g('with_queries'), ','), T(e, g('select_statement'))),
    'WithQuery': lambda e, o, g: rope(g('name'), 'AS(', T(e, g('statement')), ')'),
    'WhereClause': value, 'HavingClause': value, 'OffsetClause': value, 'OnClause': value, 'UsingClause': value,
    'GroupByClause': lambda e, o, g: rope(when(flag(e, g('rollup')), 'ROLLUP'), seq(e, g('args'), ',')),
    'OrderByClause': lambda e, o, g: seq(e, g('args'), ','),
    'OrderByItem': lambda e, o, g: rope(T(e, g('expression')), when(flag(e, g('has_asc')), 'ASC', when(
        flag(e, g('has_desc')), 'DESC'))),
    'LimitClause': lambda e, o, g: when(flag(e, g('limit_all')), 'ALL', T(e, g('expression'))),
    'FunctionCall': lambda e, o, g: rope(up(e, g('function_name')), '(', seq(e, g('args'), ','), ')'),
    'CountFunctionCall': lambda e, o, g: rope('COUNT(', when(flag(e, g('distinct')), 'DISTINCT'),
                                              seq(e, g('args'), ','), ')'),
    'CastFunctionCall': lambda e, o, g: rope('CAST(', T(e, g('column')), 'AS', T(e, g('cast_type')), ')'),
    'ArrayAggFunctionCall': lambda e, o, g: rope(
        'ARRAY_AGG(', when(flag(e, g('distinct')), 'DISTINCT'), T(e, g('column')),
        when(flag(e, g('ignore_nulls')), 'IGNORENULLS', when(flag(e, g('respect_nulls')), 'RESPECTNULLS')),
        opt(e, g('order_bys'), lambda x: rope('ORDERBY', T(e, x))),
        rope(CaseP([(c, '' if x is None else rope('LIMIT', e.to_str(x))) for c, x in g('limit').cases])), ')'),
    'FilteredFunctionCall': lambda e, o, g: rope(T(e, g('function_call')), 'FILTER(WHERE',
                                                 T(e, g('filter_condition')), ')'),
    'AnalyticsClause': lambda e, o, g: rope(
        T(e, g('function')), 'OVER(', opt(e, g('partition_by'), lambda x: rope('PARTITIONBY', seq(e, x, ','))),
        opt(e, g('order_by'), lambda x: rope('ORDERBY', T(e, x))), opt(e, g('frame_clause'), lambda x: T(e, x)), ')'),
    'WindowFrameClause': lambda e, o, g: rope(up(e, g('rows_range')), g('frame')),
    'Column': lambda e, o, g: keyword(e, g('value')),
    'ChainedColumns': lambda e, o, g: seq(e, g('args'), '.'),
    'Type': lambda e, o, g: up(e, g('value')),
    'DatePartExtraction': lambda e, o, g: rope(up(e, g('part')), 'FROM', T(e, g('date_expression'))),
    'String': lambda e, o, g: rope(opt(e, g('prefix'), lambda x: x), g('quotes'), g('value'), g('quotes')),
    'Integer': lambda e, o, g: e.to_str(g('value')),
    'Float': lambda e, o, g: e.to_str(g('value')),
    'Null': lambda e, o, g: 'NULL',
    'Boolean': lambda e, o, g: when(z3.Or([e.zstr(e.bi_str_lower(g('value'))) == sval(x) for x in ('true', 'yes')]),
                                    'TRUE', 'FALSE'),
    'Parenthesis': lambda e, o, g: text_parenthesis(e, o),
    'Array': lambda e, o, g: rope('[', seq(e, g('args'), ','), ']'),
    'Alias': lambda e, o, g: text_alias(e, o),
    'Index': lambda e, o, g: rope(T(e, g('expression')), '[', seq(e, g('indices'), ','), ']'),
    'ArithmaticOperator': operator, 'Addition': operator,
    'BitwiseOperation': lambda e, o, g: rope(T(e, g('expression')), g('predicate'), T(e, g('right_hand'))),
    'Table': lambda e, o, g: when(flag(e, g('in_square_brackets')), rope('[', T(e, g('value')), ']'), T(e, g('value'))),
    'Unnest': lambda e, o, g: rope(T(e, g('unnest_expression')), when(flag(e, g('with_offset')), rope(
        'WITHOFFSET', opt(e, g('offset_alias'), lambda x: rope(when(flag(e, g('with_offset_as')), 'AS'), T(e, x)))))),
    'Join': lambda e, o, g: rope(
        T(e, g('left_from')), up(e, g('join_type')), T(e, g('right_from')),
        rope(CaseP([(c, rope('ON', T(e, x)) if x is not None else opt(e, g('using'), lambda y: rope('USING', T(e, y))))
                    for c, x in g('on').cases]))),
    'CombinedQueries': lambda e, o, g: rope(T(e, g('left_query')), up(e, g('set_operator')), T(e, g('right_query'))),
    'Condition': binary,
    'BooleanCondition': lambda e, o, g: seq(e, g('args'), up(e, g('type'))),
    'Negation': lambda e, o, g: rope('NOT', T(e, g('expression'))),
    'ExceptClause': but('EXCEPT'), 'ReplaceClause': but('REPLACE'),
    'Case': case,
}


# ------------------------------------------------------------------ brackets taken away and put back
def brackets(e, ctx):
    """KEEP(TR(start)) = (^n KEEP(TR(now)) )^n for an object variable and a counter."""
    out = []
    objs = [n for n in sorted(ctx.names) if isinstance(ctx.entry.vals.get(n), ObjV)]
    ints = [n for n in sorted(ctx.names) if is_int(ctx.entry.vals.get(n))]
    lp, rp = sval('('), sval(')')
    for a in objs:
        def ok(a=a):
            v = ctx.var(a)
            if not isinstance(v, ObjV):
                return None
            from_item(e, v.t)
            return FROMOK(v.t)
        out.append(pred('%s: stands where FROM items stand' % a, e, ok))
        for n in ints:
            for h, f in IMAGE.items():
                def term(a=a, n=n, h=h, f=f):
                    v, k, start = ctx.var(a), ctx.var(n), ctx.entry.vals.get(a)
                    if not isinstance(v, ObjV) or not is_int(k):
                        return None
                    m = zint(k) - zint(ctx.entry.vals.get(n))
                    unfold_brackets(e, v.t, f)
                    for s in (lp, rp):
                        e.axiom(REP(s, z3.IntVal(0)) == sval(''))
                    # (of the two ways to unfold a repetition, the one that meets the text inside)
                    e.axiom(z3.Implies(m >= 0, z3.And(REP(lp, m + 1) == z3.Concat(REP(lp, m), lp),
                                                      REP(rp, m + 1) == z3.Concat(rp, REP(rp, m)))))
                    return z3.And(m >= 0, f(TR(start.t)) == z3.Concat(REP(lp, m), f(TR(v.t)), REP(rp, m)))
                out.append(pred('%s: %s brackets around it (%s)' % (a, n, h), e, term))
    return out


def unfold_brackets(e, t, f):
    from_item(e, t)
    x = uf('HDo', SEQ, OBJ)(uf('Parenthesis.args.q', OBJ, SEQ)(t))
    e.axiom(z3.Implies(z3.And(FROMOK(t), CLS(t) == e.program.cls('Parenthesis').id),
                       f(TR(t)) == z3.Concat(sval('('), f(TR(x)), sval(')'))))


# ------------------------------------------------------------------ tasks
def flags(cls):
    """Layout flags of the class: parameters of `transform` that are true or false by default."""
    m = cls.find('transform')
    if m is None:
        return []
    a = m.node.args
    pos, out = a.args[1:], []
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if d is not None and getattr(d, 'value', None) in (True, False) and isinstance(d.value, bool):
            out.append((x.arg, d.value))
    return out


def render_class(e, name):
    cls = e.program.cls(name)
    label = name

    def run():
        c, o = arbitrary(e, name)
        e.parts.self_ = o
        kw = {}
        for nm, d in flags(cls):
            if e.choose(2, nm) == 1:
                kw[nm] = not d
        e.written = []
        if kw:
            r = e.force(e.call_func(cls.find('transform'), [('e', o)], kw, inline=True))
        else:
            r = e.force(e.call_func(e.program.find('sql:transform'), [('e', o)], {}, inline=True))
        e.oblige('%s: rendering writes to nothing that existed before' % label, not e.written, lambda: str(e.written))
        e.oblige('%s: rendering gives a text' % label, is_str(r))
        if not is_str(r):
            return
        want = FLAT[name](e, o, G(e, o))
        if name == 'SelectStatement' and not kw:
            want = rope(want, when(flag(e, e.getfield(o, 'semi_colon')), ';'))
        for h, what in HOMS:
            e.oblige('%s: the text is %s' % (label, what), lambda: e.eq_text(r, want, h),
                     lambda: '%r\n instead of\n %r' % (e.nf(e.hom(h, r)), e.nf(e.hom(h, want))))
    guarded(e, '%s: rendering' % label, run)


def group(*names):
    def task(e):
        for n in names:
            if e.program.cls(n) is not None:
                render_class(e, n)
    return task


def task_join(e):
    e.functional['general_loops'] = True
    e.loop_templates = [brackets]

    def havoc(e, o):
        e.assume(z3.Or([CLS(o.t) == c.id for c in nodes.classes(e.program)]))
        from_item(e, o.t)
    e.functional['havoc_obj'] = havoc
    e.merge_ifs = e.functional['merge_text_only'] = True
    render_class(e, 'Join')


HARD = ('SelectStatement', 'Join', 'BooleanCondition', 'Case', 'FunctionCall', 'AnalyticsClause')
def task_select(e):
    e.merge_ifs = e.functional['merge_text_only'] = True
    render_class(e, 'SelectStatement')


task_conditions = group('BooleanCondition')
task_case = group('Case')
task_calls = group('FunctionCall', 'AnalyticsClause')
task_rest = group(*[n for n in FLAT if n not in HARD])
