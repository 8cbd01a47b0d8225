"""Contracts of validation: what each node of a query tree reports (C08, C10, C11, C12, C20).

Every `validate` is verified against the contract of the validations it calls: validating a part x against
known columns K gives the error list ERR(x, K), writes nothing and raises nothing."""
import z3

from ..engine import *
from ..interp import CLS, Bound, Builtin, Exc, PyRaise, T_BOOL, T_INT, T_LIST, T_OBJ, T_OPT, T_STR, T_TUP, T_UNION, MISSING
from ..program import Cls
from ..task import guarded, sym
from ..templates import pred, unread_left
from ..values import *
from . import nodes
from .nodes import NODE, SCHEMA

ERR = uf('ERR', OBJ, OBJ, OBJ, SEQ)         # errors of a part, given the known columns and the select list
KF = uf('KF', OBJ, SEQ)                     # columns a FROM item makes visible
HASKF = uf('HASKF', OBJ, BOOL)              # it makes columns visible at all
RT = uf('RT', OBJ, INT)                     # type of an expression
RRT = uf('RRT', OBJ, OBJ, INT)              # type of an expression, given the known columns
STRIP = uf('STRIP', OBJ, OBJ)               # without parentheses
LASTC = uf('LASTCOLUMN', OBJ, OBJ)          # what a chain of columns ends with
DEPTH = uf('DEPTH', OBJ, INT)
TR = uf('TR', OBJ, STR)                     # rendered text
GAN = uf('GAN', OBJ, STR)                   # name an alias introduces
NONE = z3.Const('NO_SELECT_LIST', OBJ)
TYPE_BOOL, TYPE_OBJECT = 1, 0
FIELD = T_OBJ('_FieldInfo')
TYPES = {'Boolean': 1, 'Condition': 1, 'BooleanCondition': 1, 'Negation': 1, 'Integer': 2, 'String': 3, 'Float': 4,
         'Null': 5}     # types the classes always have; any other type is `object` or that of a part


def bt(v):
    """z3 Bool of a bool, SBool or z3 Bool."""
    if isinstance(v, SBool):
        return v.t
    return z3.BoolVal(v) if isinstance(v, bool) else v


def setkey(e, v):
    """Identity of a set of known columns: its parts, in any order."""
    h = e.heap[e.force(v).oid]
    if h.kind != 'set':
        raise Unsupported('known columns that are no set')
    segs = [s for s in e.expand(h.segs) if not (s[0] in 'cf' and e.implied(zint(e.len_segs((s,))) == 0))]
    uniq = {str(segkey((s,))): s for s in segs}
    return e.memo_const(tuple(uniq[k] for k in sorted(uniq)), OBJ, 'K')


def selkey(e, v):
    v = e.force(v)
    if v is None:
        return NONE
    return e.memo_const(tuple(e.expand(e.segs_of(v))), OBJ, 'SEL')


def err(e, o, known, select=None):
    return ('c', Chunk(ERR(o.t, setkey(e, known), selkey(e, select)), T_STR))


# ------------------------------------------------------------------ contracts of the parts
class Parts:
    """The methods of a node other than the one under verification are known by their contracts."""

    def __init__(self, e):
        self.e = e
        self.top = None
        self.text_of_self = False       # the text of the node itself is known by its contract, too
        for nm in ('validate', 'known_fields', 'return_type', 'resolve_return_type', '__str__', 'transform'):
            e.virtual[nm] = self.attr
        e.externals['part.validate'] = self.validate
        e.externals['part.resolve_return_type'] = self.resolve
        e.externals['part.transform'] = self.text
        e.contracts['sql:transform'] = self.transform
        e.contracts['sql:get_alias_name'] = self.alias_name
        e.contracts['sql:strip_parentheses'] = self.strip
        e.contracts['sql:get_last_column'] = self.last
        e.externals['part.hasattr'] = self.hasattr
        old = e.bi_hasattr
        e.bi_hasattr = lambda v, name: self.has(e.force(v), name, old)

    def mine(self, o):
        return self.top is not None and o.t.eq(self.top)

    def attr(self, e, o, name, args):
        if self.mine(o):
            return NotImplemented
        if name == '__str__':
            return rope(Atom(TR(o.t)))
        cs = e.candidates(o)
        if name == 'known_fields':
            have = [c for c in cs if c.find(name) is not None]
            if not e.branch(z3.And(z3.Or([CLS(o.t) == c.id for c in have]) if have else False, HASKF(o.t))):
                e.raise_(AttributeError, name)
            return e.alloc(HList((('c', Chunk(KF(o.t), FIELD)),), 'set', fresh=False))
        lack = [c for c in cs if c.find(name) is None]
        if lack and e.branch(z3.Or([CLS(o.t) == c.id for c in lack])):
            e.raise_(AttributeError, name)
        if name == 'return_type':
            return TypeV(self.type_of(o))
        return Builtin('part.' + name, o)

    def type_of(self, o):
        t = RT(o.t)
        e = self.e
        e.axiom(t >= 0)
        for nm, code in TYPES.items():
            e.axiom(z3.Implies(CLS(o.t) == e.program.cls(nm).id, t == code))
        return t

    def has(self, v, name, old):
        if isinstance(v, ObjV) and name == 'known_fields' and not self.mine(v):
            have = [c for c in self.e.candidates(v) if c.find(name) is not None]
            return SBool(z3.And(z3.Or([CLS(v.t) == c.id for c in have]) if have else False, HASKF(v.t)))
        return old(v, name)

    def hasattr(self, e, args, kw):
        raise Unsupported('hasattr')

    def bound(self, o, name, args, kw):
        """The arguments by name; every class the part may have must accept them."""
        e, out = self.e, None
        for c in sorted(e.candidates(o), key=lambda c: c.id):
            m = c.find(name)
            try:
                with e.scoped(CLS(o.t) == c.id):
                    got = e.bind_args(m, [('e', o)] + list(args[1:]), kw)
            except PyRaise as r:
                if e.branch(CLS(o.t) == c.id):
                    raise r
                continue
            got = [v for v in list(got.values())[1:]]
            out = got if out is None or len(got) > len(out) else out
        return out

    def validate(self, e, args, kw):
        o = e.force(args[0][1])
        got = self.bound(o, 'validate', args, kw)
        kn = e.force(got[0]) if got else None
        if kn is None:
            kn = e.new_list((), 'set')
        sel = got[1] if len(got) > 1 else None
        if isinstance(sel, bool):
            sel = e.new_list((('e', sel),)) if sel else None
        return e.new_list((err(e, o, kn, sel),))

    def resolve(self, e, args, kw):
        o = e.force(args[0][1])
        got = self.bound(o, 'resolve_return_type', args, kw)
        t = RRT(o.t, setkey(e, got[0]))
        e.axiom(t >= 0)
        return TypeV(t)

    def text(self, e, args, kw):
        return rope(Atom(TR(e.force(args[0][1]).t)))

    def transform(self, e, f, a):
        o = e.force(list(a.values())[0])
        if isinstance(o, ObjV) and (self.text_of_self or not self.mine(o)):
            return rope(Atom(TR(o.t)))
        if is_str(o):
            return o
        return NotImplemented

    def alias_name(self, e, f, a):
        o = e.force(list(a.values())[0])
        if isinstance(o, ObjV):
            return rope(Atom(GAN(o.t)))
        if is_str(o):
            return o
        return NotImplemented

    def strip(self, e, f, a):
        o = e.force(list(a.values())[0])
        if not isinstance(o, ObjV):
            return o
        return self.stripped(o)

    def stripped(self, o, f=STRIP):
        """Facts of the contract of strip_parentheses."""
        e = self.e
        t = f(o.t)
        ids = [c.id for c in nodes.classes(e.program)]
        e.axiom(z3.Or([CLS(t) == i for i in ids]))
        if f is LASTC:
            # nothing but a chain ends with something else, and no chain ends with a chain
            chain = e.program.cls('ChainedColumns').id
            e.axiom(z3.And(CLS(t) != chain, z3.Implies(CLS(o.t) != chain, t == o.t)))
        return ObjV(t)

    def last(self, e, f, a):
        o = e.force(list(a.values())[0])
        return self.stripped(o, LASTC) if isinstance(o, ObjV) else o


def walk_rule(e, o):
    """STRIP and LASTCOLUMN unfolded once at o; a part is smaller than the whole."""
    q = uf('Parenthesis.args.q', OBJ, SEQ)(o)
    x = uf('HDo', SEQ, OBJ)(q)
    c = z3.And(CLS(o) == e.program.cls('Parenthesis').id, LENF()(q) == 1)
    e.axiom(z3.If(c, z3.And(STRIP(o) == STRIP(x), DEPTH(x) < DEPTH(o)), STRIP(o) == o))
    y = uf('LASTo', SEQ, OBJ)(uf('ChainedColumns.args.q', OBJ, SEQ)(o))
    c = CLS(o) == e.program.cls('ChainedColumns').id
    e.axiom(z3.If(c, z3.And(LASTC(o) == LASTC(y), DEPTH(y) < DEPTH(o)), LASTC(o) == o))
    e.axiom(DEPTH(o) >= 0)


def walks(e, ctx):
    """Loops that walk down from an object to what is inside its brackets, or to the end of a chain."""
    out = []
    for nm in sorted(ctx.names):
        if not isinstance(ctx.entry.vals.get(nm), ObjV):
            continue
        for what, f in (('stripped', STRIP), ('the last column', LASTC)):
            def term(nm=nm, f=f):
                v, start = ctx.var(nm), ctx.entry.vals[nm]
                if not isinstance(v, ObjV):
                    return None
                walk_rule(e, v.t)
                walk_rule(e, start.t)
                return f(v.t) == f(start.t)
            out.append(pred('%s: %s like the one before the loop' % (nm, what), e, term))
    return out


def havoc_node(e, o):
    e.assume(z3.Or([CLS(o.t) == c.id for c in nodes.classes(e.program)]))
    walk_rule(e, o.t)


def setup(e):
    nodes.install(e)
    e.functional['equal_counts'] = True
    e.functional['havoc_obj'] = havoc_node
    e.loop_templates = list(e.loop_templates) + [walks]
    e.parts = Parts(e)


# ------------------------------------------------------------------ reading a list of errors
def split_result(e, segs):
    """parts: [(condition, chunk of errors)]; own: number of the node's own errors; each: the same for the
    elements of a sequence of the tree: {chunk: (chunk, params, [(cond, facts, segs)...])}."""
    parts, own, each = [], z3.IntVal(0), {}

    def walk(segs, cond):
        nonlocal own
        for s in e.expand(segs):
            if s[0] == 'e':
                own = own + z3.If(cond, 1, 0)
            elif s[0] == 'c':
                parts.append((cond, s[1]))
            elif s[0] == 'o':
                walk(s[2], z3.And(cond, s[1]))
            else:
                if not z3.is_true(z3.simplify(cond)):
                    raise Unsupported('errors of a sequence under a condition')
                each.setdefault(tid(s[1].t), []).append((s[1], s[2]))
    walk(segs, z3.BoolVal(True))
    return parts, z3.simplify(own), each


class Judge:
    def __init__(self, e, name, segs):
        self.e, self.name = e, name
        self.parts, self.own, self.each = split_result(e, segs)
        self.seen_parts, self.seen_each = [], set()

    def part(self, o, known, select=None, what=''):
        """The errors of part o against the columns `known` are among the errors."""
        t = err(self.e, o, known, select)[1].t
        self.seen_parts.append(t)
        self.e.oblige('%s: errors of %s are errors of the whole, against the columns visible there' % (self.name, what),
                      z3.Or([z3.And(c, ch.t == t) for c, ch in self.parts]),
                      lambda: 'need %s in %s' % (t, self.parts))

    def elements(self, segs, what, parts=None, own=None):
        """For every element x of segs: parts(x) [(condition, object, known, select)] among the errors,
        own(x) errors of its own."""
        e = self.e
        for s in e.expand(segs):
            if s[0] == 'e' and own is None:
                for cond, o, known, select in parts(s[1]):
                    self.part(o, known, select, what)
                continue
            if s[0] != 'c':
                raise Unsupported('known elements of %s' % what)
            if e.implied(zint(e.len_segs((s,))) == 0):
                continue
            ch = s[1]
            self.seen_each.add(tid(ch.t))
            lams = self.each.get(tid(ch.t), [])
            x, params, facts = e.generic_elem(ch.et)
            if lams:
                pairs = list(zip(params, lams[0][1].params))
                x, params, facts = subst(x, pairs), lams[0][1].params, [zsub(f, pairs) for f in facts]
            with e.scoped(*facts):
                self.element(x, [l for _, l in lams], params, what, parts, own)

    def element(self, x, lams, params, what, parts, own):
        e = self.e
        got, n = [], z3.IntVal(0)
        for lam in lams:
            pairs = list(zip(lam.params, params))
            for c, fs, segs in lam.cases:
                c = zsub(c, pairs)
                for f in fs:
                    e.solver.add(z3.Implies(c, zsub(f, pairs)))
                p, o, ea = split_result(e, subst_segs(segs, pairs))
                if ea:
                    raise Unsupported('nested errors')
                n = n + z3.If(c, o, 0)
                got += [(z3.And(c, pc), ch) for pc, ch in p]
        need = []
        for cond, o, known, select in (parts(x) if parts else ()):
            t = err(e, o, known, select)[1].t
            need.append((cond, t))
            e.oblige('%s: errors of each of %s are errors of the whole, against the columns visible there' %
                     (self.name, what), z3.Implies(cond, z3.Or([z3.And(c, ch.t == t) for c, ch in got])),
                     lambda: 'need %s in %s' % (t, got))
        for c, ch in got:
            e.oblige('%s: no other errors for %s' % (self.name, what),
                     z3.Implies(c, z3.Or([z3.And(nc, ch.t == t) for nc, t in need])), lambda: str(ch.t))
        exp = own(x) if own else z3.IntVal(0)
        e.oblige('%s: own errors for each of %s are exactly those of the rules' % (self.name, what), n == exp)

    def done(self, own=0):
        e = self.e
        for c, ch in self.parts:
            e.oblige('%s: no errors of anything else' % self.name,
                     z3.Implies(c, z3.Or([ch.t == t for t in self.seen_parts])), lambda: str(ch.t))
        for k, lams in self.each.items():
            if k not in self.seen_each:
                for ch, lam in lams:
                    e.oblige('%s: no errors of anything else' % self.name,
                             zint(e.len_segs((('f', ch, lam),))) == 0, lambda: str(ch.t))
        e.oblige('%s: own errors are exactly those of the rules' % self.name, self.own == own)


def num(b):
    return z3.If(bt(b), z3.IntVal(1), z3.IntVal(0))


# ------------------------------------------------------------------ what is expected, class by class
def some(e, known, f):
    """Number of known columns whose name satisfies f."""
    n = z3.IntVal(0)
    for s in e.expand(e.heap[known.oid].segs):
        if s[0] == 'e':
            n = n + num(f(e.zstr(e.getfield(s[1], 'name'))))
            continue
        ch = s[1]
        v, params, _ = e.generic_elem(ch.et)
        nm = uf('_FieldInfo.name.s', OBJ, STR)(v.t)
        n = n + e.count(ch, params, z3.simplify(f(nm)))
    return n


def named(e, known, t):
    return some(e, known, lambda nm: nm == t) > 0


def of_other_type(e, known, text, t):
    """Number of known columns with this name and another type than t."""
    n = z3.IntVal(0)
    for s in e.expand(e.heap[known.oid].segs):
        if s[0] == 'e':
            n = n + num(z3.And(e.zstr(e.getfield(s[1], 'name')) == text,
                               e.type_term(e.getfield(s[1], 'type')) != t))
            continue
        ch = s[1]
        v, params, _ = e.generic_elem(ch.et)
        nm, ty = uf('_FieldInfo.name.s', OBJ, STR)(v.t), uf('_FieldInfo.type.t', OBJ, INT)(v.t)
        n = n + e.count(ch, params, z3.simplify(z3.And(nm == text, ty != t)))
    return n


def everything(e, known):
    return some(e, known, lambda nm: z3.Or(nm == sval('*'), z3.SuffixOf(sval('.*'), nm))) > 0


def qualified(e, known, t):
    return some(e, known, lambda nm: uf('AFTER1_.', STR, STR)(nm) == t)


def bad_column(e, known, t, also=None):
    """The column named t is not acceptable."""
    ok = [named(e, known, t), everything(e, known), qualified(e, known, t) == 1]
    return z3.Not(z3.Or(ok + ([also] if also is not None else [])))


def not_boolean(e, o, known):
    t = RRT(o.t, setkey(e, known))
    return z3.And(t != TYPE_BOOL, t != TYPE_OBJECT)


def is_cls(e, o, *names):
    ids = [c.id for c in e.program.classes for n in names if c.issub(e.program.cls(n))]
    return z3.Or([CLS(o.t) == i for i in ids])


def int_value(e, o):
    return uf('Integer.value.i', OBJ, INT)(o.t)


def text_value(e, o):
    """Name of a column or string."""
    return z3.If(is_cls(e, o, 'Column'), uf('Column.value.s', OBJ, STR)(o.t), uf('String.value.s', OBJ, STR)(o.t))


def every(x, known, select=None):
    return [(z3.BoolVal(True), x, known, select)]


def exp_where(e, j, o, k, sel):
    v = e.force(e.getfield(o, 'value'))
    j.part(v, k, what='the condition')
    j.done(num(not_boolean(e, v, k)))


def exp_limit(e, j, o, k, sel):
    limit = e.known_class(o).name == 'LimitClause'
    v = e.force(e.getfield(o, 'expression' if limit else 'value'))
    every_row = bt(e.getfield(o, 'limit_all')) if limit else z3.BoolVal(False)
    ok = z3.BoolVal(False)
    if v is not None:
        s = ObjV(STRIP(v.t))
        ok = z3.And(is_cls(e, s, 'Integer'), int_value(e, s) >= 0)
    j.done(num(z3.Not(z3.Or(every_row, ok))))


def alias_text(e, t):
    """Name an alias introduces."""
    return z3.If(uf('Alias.alias.tag', OBJ, INT)(t) == 0, uf('Alias.alias.u0s', OBJ, STR)(t),
                 GAN(uf('Alias.alias.u1o', OBJ, OBJ)(t)))


def select_alias(e, sel, t):
    """The select list has an alias named t."""
    out = z3.IntVal(0)
    for s in e.expand(e.segs_of(sel)):
        ch = s[1]
        v, params, _ = e.generic_elem(ch.et)
        out = out + e.count(ch, params, z3.simplify(z3.And(is_cls(e, v, 'Alias'), alias_text(e, v.t) == t)))
    return out > 0


def exp_group(e, j, o, k, sel):
    n = zint(e.bi_len(sel))

    def alias_named(t):
        return select_alias(e, sel, t)

    def own(x):
        v = ObjV(STRIP(x.t))
        t = text_value(e, v)
        i = int_value(e, v)
        pos = z3.And(is_cls(e, v, 'Integer'), z3.Or(i < 1, i > n))
        col = z3.And(is_cls(e, v, 'Column', 'String'), bad_column(e, k, t, alias_named(t)))
        return num(z3.Or(pos, col))
    j.elements(e.segs_of(e.getfield(o, 'args')), 'the expressions', own=own)
    j.done()


def exp_order(e, j, o, k, sel):
    j.elements(e.segs_of(e.getfield(o, 'args')), 'the items', parts=lambda x: every(x, k, sel))
    j.done()


def exp_order_item(e, j, o, k, sel):
    v = e.force(e.getfield(o, 'expression'))
    s = ObjV(STRIP(v.t))
    i = int_value(e, s)
    if e.branch(is_cls(e, s, 'Integer')):
        if e.force(sel) is None:
            return j.done()
        n = zint(e.bi_len(sel))
        return j.done(num(z3.Or(i < 1, i > n)))
    if e.force(sel) is not None and e.branch(z3.And(
            is_cls(e, s, 'Column'), select_alias(e, sel, uf('Column.value.s', OBJ, STR)(s.t)))):
        return j.done()
    j.part(v, k, what='the expression')
    j.done()


def exp_args(e, j, o, k, sel):
    j.elements(e.segs_of(e.getfield(o, 'args')), 'the arguments', parts=lambda x: every(x, k))
    j.done()


def exp_parts(*names):
    def f(e, j, o, k, sel):
        for n in names:
            v = e.force(e.getfield(o, n))
            if v is not None:
                j.part(v, k, what=n)
        j.done()
    return f


def exp_window(e, j, o, k, sel):
    j.part(e.force(e.getfield(o, 'function')), k, what='the function')
    p = e.force(e.getfield(o, 'partition_by'))
    if p is not None:
        j.elements(e.segs_of(p), 'PARTITION BY', parts=lambda x: every(x, k))
    b = e.force(e.getfield(o, 'order_by'))
    if b is not None:
        j.part(b, k, None, what='ORDER BY')
    j.done()


def exp_column(e, j, o, k, sel):
    t = e.zstr(e.getfield(o, 'value'))
    j.done(num(z3.And(t != sval('*'), bad_column(e, k, t))))


def dotted(e, segs):
    """The rendered parts with dots in between."""
    return e.bi_str_join('.', e.new_list(e.flatmap(segs, lambda x: (('e', rope(Atom(TR(x.t)))),))))


def exp_chained(e, j, o, k, sel):
    segs = tuple(e.segs_of(e.getfield(o, 'args')))
    r = e.pop_back(segs)
    if r is None:
        raise Stop()
    everything = e.zstr(rope(dotted(e, r[1]), '.*'))
    full = e.zstr(dotted(e, segs))
    j.done(num(z3.Not(z3.Or([named(e, k, t) for t in (sval('*'), full, everything)]))))


def exp_condition(e, j, o, k, sel):
    j.part(e.force(e.getfield(o, 'expression')), k, what='the left side')
    r = e.force(e.getfield(o, 'right_hand'))
    if e.branch(bt(e.eq_term(e.bi_str_lower(e.getfield(o, 'predicate')), 'between'))):
        j.part(r, k, e.new_list((('e', True),)), what='the bounds of BETWEEN')
    else:
        j.part(r, k, what='the right side')
    j.done()


def exp_boolean(e, j, o, k, bounds):
    j.elements(e.segs_of(e.getfield(o, 'args')), 'the operands', parts=lambda x: every(x, k),
               own=None if bounds else lambda x: num(not_boolean(e, x, k)))
    j.done()


def exp_join(e, j, o, k, sel):
    jt = e.getfield(o, 'join_type')
    free = z3.Or(bt(e.eq_term(jt, 'CROSS JOIN')), bt(e.eq_term(jt, ',')))
    has = e.force(e.getfield(o, 'on')) is not None or e.force(e.getfield(o, 'using')) is not None
    for n in ('left_from', 'right_from'):
        j.part(e.force(e.getfield(o, n)), k, what=n)
    j.done(num(z3.Not(z3.Or(free, bt(has)))))


def exp_select(e, j, o, k, sel):
    f = e.force(e.getfield(o, 'from_statement'))
    vis = tuple(e.heap[k.oid].segs) if k is not None else ()
    if f is not None:
        have = [c for c in e.candidates(f) if c.find('known_fields') is not None]
        if e.branch(z3.And(z3.Or([CLS(f.t) == c.id for c in have]), HASKF(f.t))):
            vis += (('c', Chunk(KF(f.t), FIELD)),)
    vis = e.new_list(vis, 'set')
    exprs = e.getfield(o, 'expressions')
    j.elements(e.segs_of(exprs), 'the select expressions', parts=lambda x: every(x, vis))
    if f is not None:
        j.part(f, e.new_list((), 'set'), what='FROM')
    for n in ('where_clause', 'having_clause', 'limit_clause', 'offset_clause'):
        v = e.force(e.getfield(o, n))
        if v is not None:
            j.part(v, vis, what=n)
    for n in ('group_by_clause', 'order_by_clause'):
        v = e.force(e.getfield(o, n))
        if v is not None:
            j.part(v, vis, exprs, what=n)
    j.done()


def exp_with(e, j, o, k, sel):
    empty = e.new_list((), 'set')
    j.elements(e.segs_of(e.getfield(o, 'with_queries')), 'the named queries',
               parts=lambda x: every(ObjV(uf('WithQuery.statement.o', OBJ, OBJ)(x.t)), empty))
    j.part(e.force(e.getfield(o, 'select_statement')), empty, what='the query')
    j.done()


EXPECT = {
    'WhereClause': exp_where, 'HavingClause': exp_where, 'LimitClause': exp_limit, 'OffsetClause': exp_limit,
    'GroupByClause': exp_group, 'OrderByClause': exp_order, 'OrderByItem': exp_order_item,
    'FunctionCall': exp_args, 'CountFunctionCall': exp_args, 'ArrayAggFunctionCall': exp_args,
    'CastFunctionCall': exp_parts('column'), 'FilteredFunctionCall': exp_parts('function_call', 'filter_condition'),
    'AnalyticsClause': exp_window, 'Column': exp_column, 'ChainedColumns': exp_chained,
    'Parenthesis': exp_args, 'Alias': exp_parts('expression'), 'Condition': exp_condition,
    'BooleanCondition': exp_boolean, 'Join': exp_join,
    'CombinedQueries': exp_parts('left_query', 'right_query'), 'SelectStatement': exp_select,
    'WithStatement': exp_with,
}
WITH_SELECT = ('GroupByClause', 'OrderByClause', 'OrderByItem')


def validate_class(e, name):
    cls = e.program.cls(name)
    f = cls.find('validate')
    label = '%s.validate' % name

    def run():
        o = ObjV(e.fresh('self', OBJ))
        e.parts.top = o.t
        e.assume(CLS(o.t) == cls.id)
        e.known_class(o)
        e.materialise(o)
        if name == 'ChainedColumns' and e.pop_back(tuple(e.segs_of(e.getfield(o, 'args')))) is None:
            raise Stop()
        known = e.alloc(HList((('c', Chunk(e.fresh('known', SEQ), FIELD)),), 'set', fresh=False))
        before = tuple(e.heap[known.oid].segs)
        args, kw, sel = [('e', o)], {}, None
        if name == 'SelectStatement' and e.choose(2, 'known columns given') == 0:
            known = None
        elif name != 'WithStatement':
            args.append(('e', known))
        if name in WITH_SELECT:
            if name == 'GroupByClause' or e.choose(2, 'select list') == 0:
                sel = e.alloc(HList((('c', Chunk(e.fresh('select', SEQ), NODE)),), 'list', fresh=False))
            args.append(('e', sel))
        if name == 'BooleanCondition':
            sel = e.choose(2, 'between') == 1
            if sel:
                kw['is_between_predicate'] = True
        e.written = []
        r = e.force(e.call_func(f, args, kw, inline=True))
        ok = isinstance(r, Ref) and e.heap[r.oid].kind == 'list'
        e.oblige('%s: gives a list' % label, ok)
        e.oblige('%s: writes to nothing that existed before' % label, not e.written, lambda: str(e.written))
        if known is not None:
            e.oblige('%s: the known columns are unchanged' % label, tuple(e.heap[known.oid].segs) == before)
        if ok and name in EXPECT:
            j = Judge(e, label, e.heap[r.oid].segs)
            EXPECT[name](e, j, o, known, sel)
    guarded(e, label, run)


def group(*names):
    def task(e):
        for n in names:
            validate_class(e, n)
    return task


def rest(e):
    """Classes the statements leave open: nothing is raised or written."""
    for c in nodes.classes(e.program):
        if c.name not in EXPECT:
            validate_class(e, c.name)


# ------------------------------------------------------------------ types, names and visible columns
def arbitrary(e, name):
    cls = e.program.cls(name)
    o = ObjV(e.fresh('self', OBJ))
    e.parts.top = o.t
    e.assume(CLS(o.t) == cls.id)
    e.known_class(o)
    e.materialise(o)
    e.written = []
    return cls, o


def method_task(prop, names, judge, allowed=()):
    def one(e, name):
        label = '%s.%s' % (name, prop)

        def run():
            cls, o = arbitrary(e, name)
            m = cls.find(prop)
            if m is None:
                return
            try:
                r = e.force(e.call_func(m, [('e', o)], {}, inline=True))
            finally:
                e.oblige('%s: writes to nothing that existed before' % label, not e.written, lambda: str(e.written))
            judge(e, label, o, r)
        guarded(e, label, run, allowed)

    def task(e):
        for n in (names(e) if callable(names) else names):
            if e.program.cls(n) is not None:
                one(e, n)
    return task


UNTYPED = ('Column', 'FunctionCall', 'CountFunctionCall', 'CastFunctionCall', 'ArrayAggFunctionCall', 'Case', 'Index',
           'FilteredFunctionCall', 'AnalyticsClause', 'SelectStatement')


def judge_type(e, label, o, r):
    cls = e.known_class(o)
    t = e.type_term(r)
    if cls.name in TYPES:
        e.oblige('%s is that of its constants' % label, t == TYPES[cls.name])
    if cls.name in UNTYPED:
        e.oblige('%s is not known' % label, t == TYPE_OBJECT)
    if cls.name == 'Parenthesis':
        x = e.pop_front(tuple(e.segs_of(e.getfield(o, 'args'))))
        e.oblige('%s is that of its content' % label, t == (RT(x[0].t) if x else TYPE_OBJECT))
    if cls.name == 'Alias':
        e.oblige('%s is that of the expression' % label, t == RT(e.getfield(o, 'expression').t))


def field(e, v, name):
    if isinstance(v, RecV):
        return v.fields[name]
    with e.scoped(CLS(v.t) == e.program.cls('_FieldInfo').id):
        return e.getfield(v, name)


def field_pred(e, segs, t, ty):
    """(condition that a single field named t of type ty is there, {chunk: (chunk, params, condition that the
    element gives one)})."""
    one, each = z3.BoolVal(False), {}

    def of(v):
        return z3.And(e.zstr(field(e, v, 'name')) == t, e.type_term(field(e, v, 'type')) == ty)

    def add(ch, params, c):
        if tid(ch.t) in each:
            _, p, d = each[tid(ch.t)]
            c, params = z3.Or(d, zsub(c, list(zip(params, p)))), p
        each[tid(ch.t)] = (ch, params, c)
    for s in e.expand(segs):
        if s[0] == 'e':
            one = z3.Or(one, of(s[1]))
        elif s[0] == 'c':
            v, params, _ = e.generic_elem(s[1].et)
            add(s[1], params, of(v))
        elif s[0] == 'f':
            c = z3.BoolVal(False)
            for d, fs, x in s[2].cases:
                if any(y[0] != 'e' for y in x):
                    raise Unsupported('fields of fields')
                with e.scoped(d, *fs):
                    for y in x:
                        c = z3.Or(c, z3.And(d, of(y[1])))
            add(s[1], s[2].params, c)
        else:
            raise Unsupported('fields %r' % (s,))
    return one, each


def judge_fields(e, label, o, r):
    """The names and types of the columns a FROM item makes visible."""
    e.oblige('%s: gives a set' % label, isinstance(r, Ref) and e.heap[r.oid].kind == 'set')
    t, ty = e.fresh('name', STR), e.fresh('type', INT)
    one, each = field_pred(e, e.heap[r.oid].segs, t, ty)
    wone, weach = z3.BoolVal(False), {}

    def element(ch, f):
        v, params, facts = e.generic_elem(ch.et)
        if tid(ch.t) in each:
            p = each[tid(ch.t)][1]
            pairs = list(zip(params, p))
            v, params, facts = subst(v, pairs), p, [zsub(x, pairs) for x in facts]
        c = f(v)
        if tid(ch.t) in weach:
            _, _, d, _ = weach[tid(ch.t)]
            c = z3.Or(c, d)
        weach[tid(ch.t)] = (ch, params, c, facts)

    def columns(x, alias=None):
        """Columns of FROM item x, under an alias."""
        dot = (lambda nm: nm) if alias is None else (lambda nm: z3.Concat(alias, sval('.'), nm))
        element(Chunk(KF(x.t), FIELD), lambda v: z3.And(
            dot(uf('_FieldInfo.name.s', OBJ, STR)(v.t)) == t, e.type_term(field(e, v, 'type')) == ty))

    def alias_of(a):
        return z3.If(uf('Alias.alias.tag', OBJ, INT)(a.t) == 0, uf('Alias.alias.u0s', OBJ, STR)(a.t),
                     TR(uf('Alias.alias.u1o', OBJ, OBJ)(a.t)))

    def side(x):
        if e.branch(is_cls(e, x, 'Alias')):
            y = ObjV(uf('Alias.expression.o', OBJ, OBJ)(x.t))
            return columns(y, alias_of(x))
        columns(x)
    name = e.known_class(o).name
    if name in ('Table', 'Unnest'):
        wone = z3.And(t == sval('*'), ty == TYPE_OBJECT)
    elif name == 'CombinedQueries':
        columns(e.getfield(o, 'left_query'))
    elif name == 'WithStatement':
        columns(e.getfield(o, 'select_statement'))
    elif name == 'Parenthesis':
        x = ObjV(uf('HDo', SEQ, OBJ)(uf('Parenthesis.args.q', OBJ, SEQ)(o.t)))
        if visible(e, x):
            columns(x)
    elif name == 'Alias':
        columns(e.getfield(o, 'expression'), alias_of(o))
    elif name == 'Join':
        side(e.force(e.getfield(o, 'left_from')))
        side(e.force(e.getfield(o, 'right_from')))
    elif name == 'SelectStatement':
        select_columns(e, o, t, ty, element, columns)
    e.oblige('%s: the columns are those of its parts' % label, one == wone,
             lambda: '%s instead of %s' % (one, wone))
    for k in list(each) + [k for k in weach if k not in each]:
        ch = (each.get(k) or weach[k])[0]
        if k in each and k in weach:
            _, params, c = each[k]
            _, _, d, facts = weach[k]
            with e.scoped(*facts):
                e.oblige('%s: the columns are those of its parts' % label, c == d, lambda: '%s instead of %s' % (c, d))
        else:
            c = each[k][2] if k in each else weach[k][2]
            facts = weach[k][3] if k in weach else []
            with e.scoped(*facts):
                e.oblige('%s: the columns are those of its parts' % label,
                         z3.Or(zint(e.len_segs((('c', ch),))) == 0, z3.Not(c)),
                         lambda: 'columns of %s %s' % (ch, 'that should not be there' if k in each else 'missing'))


def visible(e, x):
    have = [c for c in e.candidates(x) if c.find('known_fields') is not None]
    return e.branch(z3.And(z3.Or([CLS(x.t) == c.id for c in have]) if have else z3.BoolVal(False), HASKF(x.t)))


def select_columns(e, o, t, ty, element, columns):
    """Columns and aliases of the select list; those of a subquery for *."""
    def named_(v, t, ty=None):
        c = ObjV(LASTC(v.t))
        a = ObjV(v.t)
        out = []
        for who, nm, typ in ((is_cls(e, c, 'Column'), uf('Column.value.s', OBJ, STR)(c.t), RT(c.t)),
                             (is_cls(e, a, 'Alias'), alias_text(e, a.t), RT(a.t)),
                             (is_cls(e, a, 'SelectAllClause'), sval('*'), RT(a.t))):
            out.append(z3.And(who, nm == t, typ == ty if ty is not None else True))
        e.parts.stripped(v, LASTC)
        e.parts.type_of(c)
        e.parts.type_of(a)
        return z3.Or(out)
    ch = e.segs_of(e.getfield(o, 'expressions'))[0][1]
    f = e.force(e.getfield(o, 'from_statement'))
    sub = None
    if f is not None and e.branch(CLS(f.t) == e.program.cls('Parenthesis').id):
        x = ObjV(uf('HDo', SEQ, OBJ)(uf('Parenthesis.args.q', OBJ, SEQ)(f.t)))
        if e.branch(CLS(x.t) == e.program.cls('SelectStatement').id):
            sub = x
    if sub is not None:
        v, params, _ = e.generic_elem(ch.et)
        star = e.count(ch, params, z3.simplify(named_(v, sval('*')))) > 0
        k = Chunk(KF(sub.t), FIELD)
        w, params, _ = e.generic_elem(k.et)
        inner = e.count(k, params, uf('_FieldInfo.name.s', OBJ, STR)(w.t) == sval('*')) > 0
        if e.branch(z3.And(star, z3.Not(inner))):
            element(ch, lambda v: z3.And(named_(v, t, ty), t != sval('*')))
            return columns(sub)
    element(ch, lambda v: named_(v, t, ty))


def walk_task(name, f, what):
    def task(e):
        fn = e.program.find('sql:' + name)
        del e.contracts['sql:' + name]
        e.functional['general_loops'] = True
        e.loop_templates = [walks]

        def run():
            o = ObjV(e.fresh('value', OBJ))
            havoc_node(e, o)
            if f is LASTC:
                e.materialise(o)
            r = e.force(e.call_func(fn, [('e', o)], {}, inline=True))
            e.oblige('%s: gives a part' % name, isinstance(r, ObjV))
            if isinstance(r, ObjV):
                walk_rule(e, r.t)
                e.oblige('%s: %s' % (name, what), r.t == f(o.t))
                if f is LASTC:
                    chain = e.program.cls('ChainedColumns').id
                    e.oblige('%s: nothing but a chain ends with something else, and no chain ends with a chain' % name,
                             z3.And(CLS(r.t) != chain, z3.Implies(CLS(o.t) != chain, r.t == o.t)))
        guarded(e, name, run)
    return task


task_strip = walk_task('strip_parentheses', STRIP, 'the part inside all brackets around it alone')
task_last = walk_task('get_last_column', LASTC, 'what a chain of columns ends with')


def task_resolve(e):
    """The type of an expression: that of a visible column spelled like it, else its own."""
    e.parts.text_of_self = True

    def one(name):
        label = '%s.resolve_return_type' % name

        def run():
            cls, o = arbitrary(e, name)
            known = e.alloc(HList((('c', Chunk(e.fresh('known', SEQ), FIELD)),), 'set', fresh=False))
            before = tuple(e.heap[known.oid].segs)
            n = named(e, known, TR(o.t))
            one = e.fresh('type', INT)
            other = of_other_type(e, known, TR(o.t), one)
            r = e.force(e.call_func(cls.find('resolve_return_type'), [('e', o), ('e', known)], {}, inline=True))
            e.oblige('%s: writes to nothing that existed before' % label, not e.written, lambda: str(e.written))
            own = e.type_term(e.get_attr(o, 'return_type'))
            t = e.type_term(r)
            if name == 'SelectStatement':
                e.oblige('%s: is not known' % label, t == TYPE_OBJECT)
            else:
                e.oblige('%s: its own type when no visible column is spelled like it' % label,
                         z3.Implies(z3.Not(n), t == own))
                if tuple(e.heap[known.oid].segs) == before:     # the same columns, counted piece by piece
                    e.assume(other == of_other_type(e, known, TR(o.t), one))
                e.oblige('%s: the type of the visible columns spelled like it, not known when they differ' % label,
                         z3.Implies(z3.And(n, t == one), z3.Or(t == TYPE_OBJECT, other == 0)))
                e.oblige('%s: known when the visible columns spelled like it have one type' % label,
                         z3.Implies(z3.And(n, other == 0), t == one))
        guarded(e, label, run)
    for c in nodes.classes(e.program):
        if c.find('resolve_return_type') is not None:
            one(c.name)


def task_alias_name(e):
    f = e.program.find('sql:get_alias_name')
    del e.contracts['sql:get_alias_name']

    def run():
        o = ObjV(e.fresh('alias', OBJ))
        e.assume(z3.Or([CLS(o.t) == c.id for c in nodes.classes(e.program)]))
        r = e.force(e.call_func(f, [('e', o)], {}, inline=True))
        named_ = is_cls(e, o, 'Column', 'String')
        e.oblige('get_alias_name: a column or string gives its own name, another expression its text',
                 e.zstr(r) == z3.If(named_, text_value(e, o), TR(o.t)))
        e.oblige('get_alias_name: writes to nothing that existed before', not e.written)
    guarded(e, 'get_alias_name', run)

    def text():
        s = sym(e, 'alias')
        r = e.force(e.call_func(f, [('e', s)], {}, inline=True))
        e.oblige('get_alias_name: a name is its own name', e.zstr(r) == e.zstr(s))
    guarded(e, 'get_alias_name of a name', text)


task_types = method_task('return_type', lambda e: [c.name for c in nodes.classes(e.program)], judge_type)
def fields(names):
    def task(e):
        # a parenthesised FROM item has content
        e.functional['schema_facts']['Parenthesis'] = nodes.nonempty('args')
        method_task('known_fields', names, judge_fields, (AttributeError,))(e)
    return task


task_fields = fields(('Parenthesis', 'Alias', 'Table', 'Unnest', 'Join', 'CombinedQueries',
                      'WithStatement'))
task_select_fields = fields(('SelectStatement',))
task_clauses = group('WhereClause', 'HavingClause', 'LimitClause', 'OffsetClause', 'OrderByClause', 'OrderByItem')
task_group_by = group('GroupByClause')
task_calls = group('FunctionCall', 'CountFunctionCall', 'ArrayAggFunctionCall', 'CastFunctionCall',
                   'FilteredFunctionCall', 'AnalyticsClause')
task_columns = group('Column', 'ChainedColumns')
task_inner = group('Parenthesis', 'Alias', 'Condition', 'BooleanCondition', 'Join', 'CombinedQueries')
task_select = group('SelectStatement')
task_with = group('WithStatement')
task_rest = rest
