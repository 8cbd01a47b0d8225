"""Symbolic interpreter of the Python subset used by the program."""
import ast
import builtins as pybuiltins

import z3

from .engine import *
from .program import Cls, Func, Module
from .values import *


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Exc:
    """A raised exception."""

    def __init__(self, cls, args=(), origin=''):
        self.cls = cls              # Python exception class or Cls
        self.args = args
        self.origin = origin

    def isinst(self, c):
        if isinstance(self.cls, Cls):
            return self.cls.issub(c) if not isinstance(c, Cls) else self.cls.issub(c)
        return (not isinstance(c, Cls)) and issubclass(self.cls, c)

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, Cls) else self.cls.__name__

    def __repr__(self):
        return 'Exc(%s %s)' % (self.name, self.origin)


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Frame:
    def __init__(self, func, vars, parent=None):
        self.func = func
        self.vars = vars
        self.parent = parent
        self.nonlocals = set()
        self.yields = None
        self.cur = None

    def find(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return f
            f = f.parent
        return None


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class Builtin:
    __slots__ = ('name', 'self')

    def __init__(self, name, self_=None):
        self.name = name
        self.self = self_

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Ext:
    """A name of an external module."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Super:
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class PyType:
    """A built-in Python type used as a value."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'PyType(%s)' % self.t.__name__


UNDEF = Opaque('undefined')
MISSING = object()

BUILTINS = {'next', 'iter', 'len', 'any', 'all', 'map', 'sorted', 'print', 'zip', 'hasattr', 'super',
            'isinstance', 'repr', 'hash', 'open', 'enumerate', 'range', 'min', 'max', 'sum', 'getattr',
            'callable', 'filter', 'reversed', 'abs', 'id', 'ord', 'chr', 'setattr'}
TYPES = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'set': set,
         'tuple': tuple, 'dict': dict, 'object': object, 'type': type, 'frozenset': frozenset,
         'bytes': bytes}
TYPE_CODES = {object: 0, bool: 1, int: 2, str: 3, float: 4, type(None): 5, list: 6, set: 7,
              tuple: 8, dict: 9, type: 10, bytes: 11, frozenset: 12}

T_STR = ('str',)
T_INT = ('int',)
T_BOOL = ('bool',)
T_TYPE = ('type',)


def T_OBJ(*classes):
    return ('obj', tuple(classes))


def T_TUP(*ets):
    return ('tup', tuple(ets))


def T_OPT(et):
    return ('opt', et)


def T_UNION(*ets):
    return ('union', tuple(ets))


def T_LIST(et, kind='list'):
    return ('list', et, kind)


class Interp(Engine):
    def __init__(self, program):
        super().__init__(program)
        self.contracts = {}         # qual -> handler(e, func, args) for calls
        self.virtual = {}           # attribute -> handler(e, obj, name, args or MISSING)
        self.schema = {}            # class name -> {ctor param or field: type}
        self.externals = {}         # dotted name -> handler(e, args, kwargs)
        self.loop_templates = []    # callables(e, ctx) -> candidates
        self.merge_ifs = False
        self.max_inline = 40
        self.templates_for = None
        self.on_raise = None
        self.top = None             # qual of the function under verification
        self.type_ids = {}
        self.subs_used = set()

    # ------------------------------------------------------------ errors
    def raise_(self, cls, origin, *args):
        raise PyRaise(Exc(cls, args, origin))

    # ------------------------------------------------------------ typed symbols
    def make(self, et, mk, facts):
        """Value of type et whose terms are mk(suffix, sort)."""
        k = et[0]
        if k == 'str':
            return rope(Atom(mk('s', STR)))
        if k == 'lit':
            return rope(Atom(mk('s', STR), True))
        if k == 'int':
            return SInt(mk('i', INT))
        if k == 'bool':
            return SBool(mk('b', BOOL))
        if k == 'type':
            return TypeV(mk('t', INT))
        if k == 'const':
            return et[1]
        if k == 'float':
            return Opaque('float', mk('f', INT))
        if k == 'enum':
            t = mk('s', STR)
            facts.append(z3.Or([t == sval(x) for x in et[1]]))
            return rope(Atom(t))
        if k == 'obj':
            t = mk('o', OBJ)
            ids = self.class_ids(et[1])
            if ids:
                facts.append(z3.Or([CLS(t) == i for i in ids]))
            return ObjV(t)
        if k == 'tup':
            return tuple(self.make(x, lambda s, so, i=i: mk('%d%s' % (i, s), so), facts)
                         for i, x in enumerate(et[1]))
        if k == 'opt':
            b = mk('none', BOOL)
            sub = []
            v = self.make(et[1], mk, sub)
            facts.extend(z3.Implies(z3.Not(b), f) for f in sub)
            return CaseV([(b, None), (z3.Not(b), v)])
        if k == 'union':
            n = mk('tag', INT)
            cases = []
            facts.append(z3.And(n >= 0, n < len(et[1])))
            for i, x in enumerate(et[1]):
                sub = []
                v = self.make(x, lambda s, so, i=i: mk('u%d%s' % (i, s), so), sub)
                facts.extend(z3.Implies(n == i, f) for f in sub)
                cases.append((n == i, v))
            return CaseV(cases)
        if k == 'list':
            ch = Chunk(mk('q', SEQ), et[1])
            if len(et) > 3 and et[3]:
                facts.append(LENF()(ch.t) >= et[3])
            if et[2] == 'tuple':
                return STuple((('c', ch),))
            return self.alloc(HList((('c', ch),), et[2], fresh=False))
        raise Unsupported('type %r' % (et,))

    def class_ids(self, names):
        ids = []
        for n in names:
            c = n if isinstance(n, Cls) else self.program.cls(n)
            if c is not None:
                ids.append(c.id)
        return ids

    def class_by_id(self, i):
        return self.program.classes[i - 1]

    def generic_elem(self, et):
        consts = []

        def mk(s, so):
            self.n += 1
            c = generic('x%s!%d' % (s, self.n), so)
            consts.append(c)
            return c
        facts = []
        v = self.make(et, mk, facts)
        return v, consts, facts

    def elem(self, ch, which):
        """First/last element of a non-empty chunk as terms determined by the chunk."""
        facts = []
        v = self.make(ch.et, lambda s, so: uf(which + s, SEQ, so)(ch.t), facts)
        for f in facts:
            self.assume(f)
        for fa in self.facts_of(ch.t):
            for z in fa([t for t in flat_terms(v)]):
                self.assume(z)
        return v

    def fresh_chunk(self, base, et):
        return Chunk(self.fresh(base, SEQ), et)

    def alloc(self, h):
        st = self.frames[-1].cur if self.frames else None
        site = (tuple(self.callstack), (st.lineno, st.col_offset) if st is not None else None)
        k = self.sites.get(site, 0)
        self.sites[site] = k + 1
        oid = self.oids.setdefault((site, k), len(self.oids) + 1)
        self.heap[oid] = h
        return Ref(oid)

    def new_list(self, segs=(), kind='list'):
        segs = tuple(segs)
        return self.alloc(HList(segs, kind, dups=kind == 'set' and not (len(segs) < 2 and all(s[0] == 'e' for s in segs))))

    def inherit(self, parent, child):
        fa = self.facts_of(parent.t)
        if fa:
            self.foralls[tid(child.t)] = list(fa)

    # ------------------------------------------------------------ decomposing sequences
    def pop_front(self, segs):
        """(element, rest) or None when empty; branches on emptiness."""
        segs = list(self.expand(segs))
        while segs:
            s = segs[0]
            if s[0] == 'e':
                return s[1], tuple(segs[1:])
            if s[0] == 'c':
                ch = s[1]
                if self.branch(self.len_chunk(ch) == 0):
                    self.define(ch, ())
                    segs = segs[1:]
                    continue
                v = self.elem(ch, 'HD')
                rest = Chunk(uf('TL', SEQ, SEQ)(ch.t), ch.et)
                self.inherit(ch, rest)
                self.define(ch, (('e', v), ('c', rest)))
                return v, (('c', rest),) + tuple(segs[1:])
            if s[0] == 'o':
                if self.branch(s[1]):
                    segs = list(s[2]) + segs[1:]
                else:
                    segs = segs[1:]
                continue
            if s[0] == 'f':
                n = self.len_segs((s,))
                if self.branch(zint(n) == 0):
                    segs = segs[1:]
                    continue
                lens = [self.len_segs(x) for _, _, x in s[2].cases]
                if all(l == 1 for l in lens):
                    v = self.elem(s[1], 'HD')
                    rest = Chunk(uf('TL', SEQ, SEQ)(s[1].t), s[1].et)
                    self.inherit(s[1], rest)
                    self.define(s[1], (('e', v), ('c', rest)))
                    img = self.apply_lam(s[2], v)
                    segs = list(img) + [('f', rest, s[2])] + segs[1:]
                    continue
                if set(lens) <= {0, 1}:
                    # first element satisfying the condition
                    pred = z3.Or([c for (c, _, x), l in zip(s[2].cases, lens) if l == 1])
                    pre = Chunk(self.memo_const((s[1], s[2]), SEQ, 'PRE'), s[1].et)
                    post = Chunk(self.memo_const((s[1], s[2]), SEQ, 'POST'), s[1].et)
                    facts = []
                    v = self.make(s[1].et, lambda sf, so: self.memo_const(
                        (s[1], s[2]), so, 'PICK' + sf), facts)
                    for f in facts:
                        self.assume(f)
                    self.assume(zsub(pred, self.bind(s[2].params, v)))
                    for c2 in (pre, post):
                        self.inherit(s[1], c2)
                    self.define(s[1], (('c', pre), ('e', v), ('c', post)))
                    self.assume(self.count(pre, s[2].params, pred) == 0)
                    img = self.apply_lam(s[2], v)
                    segs = list(img) + [('f', post, s[2])] + segs[1:]
                    continue
                raise Unsupported('head of mapped sequence')
        return None

    def define(self, ch, segs):
        self.chunkdefs[tid(ch.t)] = segs
        self.pcver += 1
        self.assume(LENF()(ch.t) == zint(self.len_segs(segs)))
        if self.rfacts:
            self.emit_rfacts()

    def pop_back(self, segs):
        segs = list(self.expand(segs))
        while segs:
            s = segs[-1]
            if s[0] == 'e':
                return s[1], tuple(segs[:-1])
            if s[0] == 'c':
                ch = s[1]
                if self.branch(self.len_chunk(ch) == 0):
                    self.define(ch, ())
                    segs = segs[:-1]
                    continue
                v = self.elem(ch, 'LAST')
                rest = Chunk(uf('INIT', SEQ, SEQ)(ch.t), ch.et)
                self.inherit(ch, rest)
                self.define(ch, (('c', rest), ('e', v)))
                return v, tuple(segs[:-1]) + (('c', rest),)
            if s[0] == 'o':
                if self.branch(s[1]):
                    segs = segs[:-1] + list(s[2])
                else:
                    segs = segs[:-1]
                continue
            lens = [self.len_segs(x) for _, _, x in s[2].cases]
            if all(l == 1 for l in lens):
                if self.branch(self.len_chunk(s[1]) == 0):
                    segs = segs[:-1]
                    continue
                v = self.elem(s[1], 'LAST')
                rest = Chunk(uf('INIT', SEQ, SEQ)(s[1].t), s[1].et)
                self.inherit(s[1], rest)
                self.define(s[1], (('c', rest), ('e', v)))
                segs = segs[:-1] + [('f', rest, s[2])] + list(self.apply_lam(s[2], v))
                continue
            raise Unsupported('last of mapped sequence')
        return None

    def segs_of(self, v):
        v = self.force(v)
        if isinstance(v, tuple):
            return tuple(('e', x) for x in v)
        if isinstance(v, STuple):
            return v.segs
        if isinstance(v, Ref):
            h = self.heap[v.oid]
            if isinstance(h, HList):
                return h.segs
        if isinstance(v, str):
            return tuple(('e', c) for c in v)
        if v is None or is_int(v) or is_bool(v):
            self.raise_(TypeError, 'not iterable')
        raise Unsupported('sequence %r' % (v,))

    def is_seq(self, v):
        return isinstance(v, (tuple, STuple)) or (isinstance(v, Ref) and isinstance(
            self.heap[v.oid], HList))

    # ------------------------------------------------------------ forcing / truth
    def force(self, v):
        while isinstance(v, CaseV):
            for i, (c, x) in enumerate(v.cases):
                if i == len(v.cases) - 1 or self.branch(c):
                    if i == len(v.cases) - 1:
                        pass
                    v = x
                    break
        return v

    def truth(self, v):
        return self.branch(self.truth_term(v))

    def truth_term(self, v):
        """bool or z3 Bool."""
        if isinstance(v, CaseV):
            ts = [(c, self.truth_term(x)) for c, x in v.cases]
            if all(isinstance(t, bool) for _, t in ts):
                yes = [c for c, t in ts if t]
                if len(yes) == len(ts):
                    return True
                return z3.Or(yes) if yes else False
            return z3.Or([z3.And(c, zb(t)) for c, t in ts])
        if v is None:
            return False
        if isinstance(v, (bool, int, str, float)):
            return bool(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.ps):
                return True
            if len(v.ps) == 1 and isinstance(v.ps[0], Atom):
                return v.ps[0].t != sval('')
            return self.zstr(v) != sval('')
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, (STuple, Ref)):
            if isinstance(v, Ref):
                h = self.heap[v.oid]
                if isinstance(h, HZSet):
                    return h.t != z3.EmptySet(STR)
                if isinstance(h, HDict):
                    return bool(h.items)
                if h.kind == 'iter':
                    return True
                segs = h.segs
            else:
                segs = v.segs
            n = self.len_segs(segs)
            if isinstance(n, int):
                return n > 0
            return n.t > 0
        if isinstance(v, (ObjV, RecV)):
            return True
        if isinstance(v, (Func, Cls, Bound, Builtin, Ext, TypeV, PyType, Module, Exc)):
            return True
        if isinstance(v, Opaque) and v.tag == 'lines':
            return self.zstr(v.data) != sval('')
        if isinstance(v, Opaque) and v.tag in ('float', 'match', 'optional'):
            return self.fresh('truth', BOOL)
        raise Unsupported('truth of %r' % (v,))

    # ------------------------------------------------------------ equality / membership
    def eq_term(self, a, b):
        """bool or z3 Bool for a == b."""
        if isinstance(a, CaseV):
            return self.or_cases(a, lambda x: self.eq_term(x, b))
        if isinstance(b, CaseV):
            return self.or_cases(b, lambda x: self.eq_term(a, x))
        if a is None or b is None:
            if a is None and b is None:
                return True
            return False
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.eq_str_term(a, b)
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return a == b
            if is_bool(a) and is_bool(b):
                return zbool(a) == zbool(b)
            return zint(SInt(z3.If(zbool(a), 1, 0)) if is_bool(a) else a) == \
                zint(SInt(z3.If(zbool(b), 1, 0)) if is_bool(b) else b)
        if isinstance(a, (PyType, TypeV, Cls)) and isinstance(b, (PyType, TypeV, Cls)):
            return self.type_term(a) == self.type_term(b)
        if isinstance(a, (tuple,)) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            ts = [self.eq_term(x, y) for x, y in zip(a, b)]
            if any(t is False for t in ts):
                return False
            ts = [t for t in ts if t is not True]
            return z3.And([zb(t) for t in ts]) if ts else True
        if isinstance(a, (ObjV, RecV)) or isinstance(b, (ObjV, RecV)):
            if is_str(a) or is_str(b) or is_int(a) or is_int(b) or isinstance(a, tuple) \
                    or isinstance(b, tuple):
                return False        # no class of the program equals a string, number or tuple
            if isinstance(a, ObjV) and isinstance(b, ObjV) and z3.eq(a.t, b.t):
                return True
            return self.fresh('objeq', BOOL)
        if self.is_seq(a) and self.is_seq(b):
            na, nb = self.len_segs(self.segs_of(a)), self.len_segs(self.segs_of(b))
            if na == 0 and isinstance(na, int):
                return zint(nb) == 0
            if nb == 0 and isinstance(nb, int):
                return zint(na) == 0
            return self.fresh('seqeq', BOOL)
        if type(a) is not type(b) and not isinstance(a, Opaque) and not isinstance(b, Opaque):
            return False
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh('eq', BOOL)
        raise Unsupported('== of %r and %r' % (a, b))

    def or_cases(self, cv, f):
        ts = [(c, f(x)) for c, x in cv.cases]
        ts = [(c, t) for c, t in ts if t is not False]
        if not ts:
            return False
        return z3.Or([z3.And(c, zb(t)) for c, t in ts])

    def eq_str_term(self, a, b):
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str) and len(a.ps) == 1:
            p = a.ps[0]
            if isinstance(p, FnP) and p.fn in ('lower', 'upper'):
                a = rope(*self.case_fn(p.fn, p.arg).ps) if isinstance(
                    self.case_fn(p.fn, p.arg), SStr) else a
                p = a.ps[0]
            if isinstance(p, Atom) and z3.is_app(p.t) and p.t.decl().name() in ('LOWER', 'UPPER'):
                low = p.t.decl().name() == 'LOWER'
                if (b.lower() if low else b.upper()) != b:
                    return False
                if b.isascii() and b.lower() == b.upper():
                    return p.t.arg(0) == sval(b)
        if isinstance(b, SStr):
            if vkey(a) == vkey(b):
                return True
        return self.zstr(a) == self.zstr(b)

    def type_term(self, v):
        if isinstance(v, TypeV):
            return v.t
        if isinstance(v, Cls):
            return z3.IntVal(100 + v.id)
        if isinstance(v, PyType):
            if v.t not in TYPE_CODES:
                TYPE_CODES[v.t] = 50 + len(TYPE_CODES)
            return z3.IntVal(TYPE_CODES[v.t])
        raise Unsupported('type %r' % (v,))

    def in_term(self, x, c):
        """bool or z3 Bool for x in c."""
        c = self.force(c)
        if isinstance(x, CaseV):
            return self.or_cases(x, lambda y: self.in_term(y, c))
        if is_str(c):
            if is_str(x):
                return self.contains_term(c, x)
            self.raise_(TypeError, 'in <string>')
        if isinstance(c, Ref) and isinstance(self.heap[c.oid], HZSet):
            return z3.IsMember(self.zstr(x), self.heap[c.oid].t)
        if isinstance(c, Ref) and isinstance(self.heap[c.oid], HDict):
            ts = [self.eq_term(x, k) for k, _ in self.heap[c.oid].items]
        else:
            segs = self.expand(self.segs_of(c))
            ts = []
            for s in segs:
                if s[0] == 'e':
                    ts.append(self.eq_term(x, s[1]))
                elif s[0] == 'o':
                    ts.append(z3.And(s[1], zb(self.in_term(x, STuple(s[2])))))
                elif s[0] == 'c':
                    v, params, facts = self.generic_elem(s[1].et)
                    t = self.eq_term(x, v)
                    if t is False:
                        ts.append(False)
                        continue
                    n = self.count(s[1], params, zb(t))
                    self.member_fact(s[1], x, n)
                    ts.append(n > 0)
                else:
                    preds = []
                    for cc, fs, xs in s[2].cases:
                        t = self.in_term(x, STuple(xs))
                        if t is not False:
                            preds.append(z3.And(cc, zb(t)))
                    ts.append(self.count(s[1], s[2].params, z3.Or(preds)) > 0 if preds else False)
        if any(t is True for t in ts):
            return True
        ts = [t for t in ts if t is not False]
        if not ts:
            return False
        return z3.Or([zb(t) for t in ts])

    def member_fact(self, ch, x, n):
        """Equal values are in a sequence together."""
        xs = [v[1] for v in x.segs] if isinstance(x, STuple) and all(v[0] == 'e' for v in x.segs) else \
            list(x) if isinstance(x, tuple) else [x]
        if not z3.is_expr(n):
            return
        alts = [([], [])]
        for v in xs:
            cs = v.cases if isinstance(v, CaseV) else ((z3.BoolVal(True), v),)
            alts = [(g + [c], ys + [y]) for g, ys in alts for c, y in cs if is_str(y)]
        for g, ys in alts:
            zs = [self.zstr(v) for v in ys]
            k = ('mem', tid(n), tuple(tid(z) for z in zs))
            if k in self.lits_seen or any(free_generics(z) for z in zs + g):
                continue
            self.lits_seen.add(k)
            m = z3.Function('MEM%d' % len(zs), SEQ, *[STR] * len(zs), BOOL)
            self.axiom(z3.Implies(z3.And(g), (n > 0) == m(ch.t, *zs)))

    def contains_term(self, s, sub):
        """sub in s for strings."""
        if isinstance(s, str) and isinstance(sub, str):
            return sub in s
        if isinstance(sub, str) and len(sub) == 1:
            ts = []
            for p in pieces(s):
                if isinstance(p, str):
                    if sub in p:
                        return True
                elif isinstance(p, CaseP):
                    ts.append(z3.Or([z3.And(c, zb(self.contains_term(x, sub))) for c, x in p.cases]))
                else:
                    ts.append(self.cont(self.zstr(rope(p)), sval(sub)))
            return z3.Or(ts) if ts else False
        return self.cont(self.zstr(s), self.zstr(sub))

    def cont(self, z, zs):
        """`zs in z`, as an uninterpreted predicate with the facts the proofs need (cheap for z3)."""
        t = uf('CONT', STR, STR, BOOL)(z, zs)
        k = ('cont', tid(t))
        if k not in self.lits_seen:
            self.lits_seen.add(k)
            self.assume(z3.Implies(t, z3.And(z3.Length(z) >= z3.Length(zs),
                                             z3.Implies(z3.Length(z) == z3.Length(zs), z == zs))))
            self.assume(z3.Implies(z == zs, t))
            if z3.is_string_value(zs):
                self.subs_used.add(pystr(zs))
        return t

    # ------------------------------------------------------------ objects
    def info(self, o):
        k = tid(o.t)
        i = self.objs.get(k)
        if i is None:
            i = ObjInfo(None)
            self.objs[k] = i
        return i

    def candidates(self, o):
        """Classes o may have on this path."""
        i = self.info(o)
        if i.cls is not None:
            return [i.cls]
        key = ('cands', tid(o.t), self.pcver)
        r = self.prove_cache.get(key)
        if r is not None:
            return r
        out = []
        with self.scoped():
            while True:
                if self.check() == z3.unsat:
                    break
                m = self.solver.model() if self.solver.reason_unknown() is not None else None
                try:
                    m = self.solver.model()
                    v = m.eval(CLS(o.t), model_completion=True).as_long()
                except z3.Z3Exception:
                    raise Unsupported('class of %s' % o.t)
                if v < 1 or v > len(self.program.classes):
                    raise Unsupported('object %s of unknown class' % o.t)
                out.append(self.class_by_id(v))
                self.solver.add(CLS(o.t) != v)
                if len(out) > len(self.program.classes):
                    break
        self.prove_cache[key] = out
        return out

    def known_class(self, o):
        """Force the class of o (branching)."""
        if isinstance(o, RecV):
            return o.cls
        cs = self.candidates(o)
        if not cs:
            raise Stop()
        i = self.info(o)
        if i.cls is None:
            if len(cs) > 1:
                cs = sorted(cs, key=lambda c: c.id)
                k = self.choose(len(cs), 'class')
                self.assume_branch(CLS(o.t) == cs[k].id)
                i.cls = cs[k]
            else:
                i.cls = cs[0]
        return i.cls

    def materialise(self, o):
        """Fields of a symbolic instance: run its constructor on symbolic arguments of schema types."""
        i = self.info(o)
        if i.fields is not None:
            return i
        cls = self.known_class(o)
        sch = self.schema.get(cls.name)
        if sch is None:
            for c in cls.mro()[1:]:
                if c.name in self.schema:
                    sch = self.schema[c.name]
                    break
        if sch is None:
            raise Unsupported('no schema for class %s' % cls.name)
        i.fields = {}
        i.ctor = {}
        facts = []

        def sym(name, et):
            return self.make(et, lambda s, so: uf('%s.%s.%s' % (cls.name, name, s), OBJ, so)(o.t),
                             facts)
        init = cls.find('__init__')
        args = {}
        pos = []
        kw = {}
        names = []
        if init is not None:
            a = init.node.args
            names = [x.arg for x in a.args[1:]]
            for x in a.args[1:] + a.kwonlyargs:
                if x.arg in sch:
                    v = sym(x.arg, sch[x.arg])
                    args[x.arg] = v
                    kw[x.arg] = v
            if a.vararg:
                va = a.vararg.arg
                et = sch.get(va, sch.get('*', None))
                if et is None:
                    raise Unsupported('schema of *%s' % va)
                ch = sym(va, et)
                args[va] = ch
                for nm in names:
                    pos.append(('e', kw.pop(nm)))
                pos.extend(self.segs_of(ch))
        elif cls.dataclass_fields:
            for nm, _ in cls.dataclass_fields:
                kw[nm] = args[nm] = sym(nm, sch[nm])
        for nm, et in sch.items():
            if nm not in args and nm != '*' and nm not in ('*', '@facts'):
                args[nm] = None
        for f in facts:
            self.assume(f)
        ctx = self.functional.get('schema_facts', {}).get(cls.name)
        saved = (self.params, self.merge_ifs, self.written)
        self.params = []
        i.ctor = {k: v for k, v in args.items() if v is not None}
        if ctx:
            for f in ctx(self, i.ctor):
                self.assume(f)
        try:
            self.written = []
            self.run_init(cls, o, pos, kw)
        except PyRaise:
            raise Stop()            # the instance exists: its constructor did not raise
        finally:
            self.params, self.merge_ifs, self.written = saved
        # attributes that are set after construction
        for nm, et in sch.items():
            if nm not in i.ctor and nm != '*':
                i = self.info(o)
                facts = []
                v = sym(nm, et)
                for f in facts:
                    self.assume(f)
                i.fields[nm] = v
                i.ctor[nm] = v
        return self.info(o)

    def run_init(self, cls, o, pos, kw):
        init = cls.find('__init__')
        if init is not None:
            self.call_func(init, [('e', o)] + list(pos), kw, inline=True)
        elif cls.dataclass_fields is not None:
            i = self.info(o)
            vals = [s[1] for s in pos]
            for k, (nm, default) in enumerate(cls.dataclass_fields):
                if k < len(vals):
                    i.fields[nm] = vals[k]
                elif nm in kw:
                    i.fields[nm] = kw[nm]
                elif default is not None:
                    i.fields[nm] = self.eval_const(default, cls.module)
                else:
                    self.raise_(TypeError, '%s() missing argument' % cls.name)
        elif pos or kw:
            if not any(isinstance(b, type) for c in cls.mro() for b in c.bases):
                self.raise_(TypeError, '%s() takes no arguments' % cls.name)

    def construct(self, cls, pos, kw):
        if any(isinstance(b, type) and issubclass(b, BaseException)
               for c in cls.mro() for b in c.bases):
            return Exc(cls, tuple(s[1] for s in pos if s[0] == 'e'), 'constructed')
        t = self.fresh('new_' + cls.name, OBJ)
        o = ObjV(t)
        self.objs[tid(t)] = ObjInfo(cls, {}, None, True)
        self.assume(CLS(t) == cls.id)
        self.run_init(cls, o, pos, kw)
        i = self.info(o)
        i.ctor = self.ctor_args(cls, pos, kw)
        hook = self.functional.get('on_construct')
        if hook:
            hook(self, o, cls)
        return o

    def ctor_args(self, cls, pos, kw):
        init = cls.find('__init__')
        if init is None:
            if cls.dataclass_fields is not None:
                return dict(self.info_fields_of(cls, pos, kw))
            return {}
        try:
            d = self.bind_args(init, [('e', None)] + list(pos), kw)
        except PyRaise:
            return {}
        d.pop(init.node.args.args[0].arg, None)
        return d

    def info_fields_of(self, cls, pos, kw):
        vals = [s[1] for s in pos]
        for k, (nm, default) in enumerate(cls.dataclass_fields):
            yield nm, vals[k] if k < len(vals) else kw.get(nm)

    def getfield(self, o, name):
        """Constructor argument or attribute `name` of o, for specifications."""
        if isinstance(o, RecV):
            if o.ctor and name in o.ctor:
                return o.ctor[name]
            return o.fields[name]
        i = self.materialise(o) if self.info(o).fields is None else self.info(o)
        late = self.functional.get('late_fields', ())
        if name in late and name in i.fields:
            return i.fields[name]
        if i.ctor and name in i.ctor:
            return i.ctor[name]
        if name in i.fields:
            return i.fields[name]
        raise Unsupported('spec field %s' % name)

    def get_attr(self, o, name, node=None):
        o = self.force(o)
        if isinstance(o, RecV):
            if name in o.fields:
                return o.fields[name]
            return self.class_attr(o.cls, o, name)
        if isinstance(o, ObjV):
            h = self.virtual.get(name)
            if h is not None:
                r = h(self, o, name, MISSING)
                if r is not NotImplemented:
                    return r
            cls = self.known_class(o)
            m = cls.find(name)
            if m is not None and m.kind == 'property':
                return self.call_func(m, [('e', o)], {})
            if m is not None and self.info(o).fields is None:
                return self.class_attr(cls, o, name)
            i = self.materialise(o)
            if name in i.fields:
                return i.fields[name]
            return self.class_attr(cls, o, name)
        if isinstance(o, Cls):
            if name == '__name__':
                return o.name
            c = o.find_const(name)
            if c is not None:
                return self.class_const(c, name)
            m = o.find(name)
            if m is not None:
                if m.kind == 'class':
                    return Bound(m, o)
                return m
            self.raise_(AttributeError, '%s.%s' % (o.name, name))
        if isinstance(o, Module):
            return self.global_name(o, name)
        if isinstance(o, Ext):
            c = self.functional.get('ext_consts', {}).get(o.name + '.' + name)
            if c is not None:
                return c
            return Ext(o.name + '.' + name)
        if isinstance(o, Super):
            mro = self.known_class(o.self).mro() if not isinstance(o.self, Cls) else o.self.mro()
            after = mro[mro.index(o.cls) + 1:]
            for c in after:
                if name in c.methods:
                    m = c.methods[name]
                    if m.kind == 'property':
                        return self.call_func(m, [('e', o.self)], {}, inline=True)
                    return Bound(m, o.self)
            if name == '__init__':
                return Builtin('object.__init__')
            self.raise_(AttributeError, 'super().%s' % name)
        if isinstance(o, (PyType, TypeV)):
            if name == '__name__':
                if isinstance(o, PyType):
                    return o.t.__name__
                return rope(Atom(uf('TYPENAME', INT, STR)(o.t)))
            return Builtin('type.' + name, o)
        if isinstance(o, Exc):
            if name == 'args':
                return tuple(o.args)
            if name == '__class__':
                return Opaque('class')
            return Opaque('exc.' + name)
        if isinstance(o, Opaque):
            if o.tag == 'class' and name == '__name__':
                return rope(Atom(self.fresh('clsname', STR)))
            h = self.externals.get('attr:' + o.tag + '.' + name)
            if h:
                return h(self, o)
            return Builtin('%s.%s' % (o.tag, name), o)
        if is_str(o):
            return Builtin('str.' + name, o)
        if isinstance(o, Ref):
            return Builtin(self.heap[o.oid].kind + '.' + name, o)
        if isinstance(o, (tuple, STuple)):
            return Builtin('tuple.' + name, o)
        if o is None:
            self.raise_(AttributeError, 'None.%s' % name)
        if isinstance(o, Func):
            return Opaque('func.' + name)
        if is_int(o) or is_bool(o):
            self.raise_(AttributeError, 'int.%s' % name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def class_attr(self, cls, o, name):
        m = cls.find(name)
        if m is not None:
            if m.kind == 'property':
                return self.call_func(m, [('e', o)], {})
            if m.kind == 'static':
                return m
            if m.kind == 'class':
                return Bound(m, cls)
            return Bound(m, o)
        c = cls.find_const(name)
        if c is not None:
            return self.class_const(c, name)
        if name == '__class__':
            return cls
        self.raise_(AttributeError, '%s has no attribute %s' % (cls.name, name))

    def class_const(self, c, name):
        if name not in c.consts:
            saved = self.frames
            fr = Frame(None, {}, None)
            fr.func = Func(ast.Lambda(args=None, body=None), c.module, c)
            fr.cls_scope = c
            c.consts[name] = self.eval_in_class(c, c.const_nodes[name])
        v = c.consts[name]
        return v

    def eval_in_class(self, c, node):
        fr = Frame(Func(ast.Lambda(args=None, body=None), c.module, c), ClassScope(self, c), None)
        self.frames.append(fr)
        try:
            v = self.eval(node)
        finally:
            self.frames.pop()
        return self.frozen_const(v)

    def frozen_const(self, v):
        return v

    def eval_const(self, node, module):
        fr = Frame(Func(ast.Lambda(args=None, body=None), module), {}, None)
        self.frames.append(fr)
        try:
            return self.eval(node)
        finally:
            self.frames.pop()

    def set_attr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, ObjV):
            i = self.info(o)
            if not i.fresh:
                if self.init_depth(o):
                    pass
                else:
                    self.materialise(o)
                    i = self.info(o)
                    if 'before_write' in self.functional:
                        self.functional['before_write'](self, o)
                    self.written.append('attribute %s of an object that existed before' % name)
            cls = self.known_class(o)
            m = cls.find(name)
            if m is not None and m.kind == 'property':
                self.raise_(AttributeError, "can't set attribute %s" % name)
            i.fields[name] = v
            return
        raise Unsupported('setting attribute %s of %r' % (name, o))

    def init_depth(self, o):
        """Is the constructor of o running?"""
        for fr in self.frames:
            if fr.func.name == '__init__' and fr.func.node.args.args:
                s = fr.vars.get(fr.func.node.args.args[0].arg)
                if isinstance(s, ObjV) and z3.eq(s.t, o.t):
                    return True
        return False

    def wr(self, ref):
        """The heap object behind ref, about to be written."""
        h = self.heap[ref.oid]
        if not h.fresh:
            self.written.append('%s that existed before' % h.kind)
        return h

    # ------------------------------------------------------------ names
    def global_name(self, module, name):
        r = self.program.lookup(module, name)
        if r is None:
            if name in TYPES:
                return PyType(TYPES[name])
            if name in BUILTINS:
                return Builtin(name)
            b = getattr(pybuiltins, name, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return b
            if name == '__name__':
                return module.name
            self.raise_(NameError, name)
        if isinstance(r, tuple):
            if r[0] == 'const':
                key = (r[1].name, name)
                cache = self.functional.setdefault('modconsts', {})
                if key not in cache or isinstance(cache[key], Ref):
                    cache[key] = self.eval_const(r[2], r[1])
                return cache[key]
            if r[0] == 'ext':
                return Ext(r[1])
        return r

    def load(self, name):
        f = self.frames[-1].find(name)
        if f is not None:
            v = f.vars[name]
            if v is UNDEF:
                raise Unsupported('use of %s, whose value after a loop is not tracked' % name)
            return v
        return self.global_name(self.frames[-1].func.module, name)

    def store(self, name, v):
        fr = self.frames[-1]
        if name in fr.nonlocals:
            f = fr.parent.find(name) if fr.parent else None
            if f is None:
                raise Unsupported('nonlocal %s' % name)
            f.vars[name] = v
            return
        fr.vars[name] = v

    # ------------------------------------------------------------ calls
    def bind_args(self, func, pos, kw):
        a = func.node.args
        names = [x.arg for x in a.args]
        out = {}
        segs = tuple(pos)
        kw = dict(kw)
        for nm in names:
            r = None
            if segs:
                r = self.pop_front(segs)
            if r is not None:
                v, segs = r
                if nm in kw:
                    self.raise_(TypeError, 'multiple values for %s' % nm)
                out[nm] = v
            elif nm in kw:
                out[nm] = kw.pop(nm)
        ndef = len(a.defaults)
        for k, nm in enumerate(names):
            if nm not in out:
                j = k - (len(names) - ndef)
                if j < 0:
                    self.raise_(TypeError, '%s() missing argument %s' % (func.name, nm))
                out[nm] = self.default(func, a.defaults[j])
        if a.vararg:
            segs = self.expand(segs)
            if all(s[0] == 'e' for s in segs):
                out[a.vararg.arg] = tuple(s[1] for s in segs)
            else:
                out[a.vararg.arg] = STuple(segs)
        else:
            if segs:
                n = self.len_segs(segs)
                if not isinstance(n, int):
                    if self.branch(n.t > 0):
                        self.raise_(TypeError, '%s() takes fewer arguments' % func.name)
                elif n > 0:
                    self.raise_(TypeError, '%s() takes fewer arguments' % func.name)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif d is not None:
                out[x.arg] = self.default(func, d)
            else:
                self.raise_(TypeError, '%s() missing keyword %s' % (func.name, x.arg))
        if a.kwarg:
            out[a.kwarg.arg] = Opaque('kwargs', kw)
        elif kw:
            self.raise_(TypeError, '%s() got unexpected keyword %s' % (func.name, sorted(kw)[0]))
        return out

    def default(self, func, node):
        if isinstance(node, ast.Constant):
            return node.value
        return self.eval_const(node, func.module)

    def call_func(self, func, pos, kw, inline=False):
        q = func.qual
        h = self.contracts.get(q)
        if h is not None and not inline:
            args = self.bind_args(func, pos, kw)
            r = h(self, func, args)
            if r is not NotImplemented:
                self.used['contract'].add(q)
                return r
            return self.run_body(func, args)
        return self.run_body(func, self.bind_args(func, pos, kw))

    def run_body(self, func, vars):
        if len(self.frames) > self.max_inline or self.callstack.count(func.qual) > 3:
            raise Unsupported('recursion of %s without a contract' % func.qual)
        self.used['body'].add(func.qual)
        fr = Frame(func, vars, func.closure)
        self.frames.append(fr)
        self.callstack.append(func.qual)
        ncs = len(self.callstack)
        nfr = len(self.frames)
        try:
            if isinstance(func.node, ast.Lambda):
                return self.eval(func.node.body)
            if func.is_gen:
                fr.yields = self.new_list((), 'list')
                try:
                    self.exec_block(func.node.body)
                except Ret:
                    pass
                return self.alloc(HList(self.heap[fr.yields.oid].segs, 'iter'))
            try:
                hook = self.functional.get('body_hook', {}).get(func.qual)
                if hook is not None:
                    hook(self, func.node.body)
                else:
                    self.exec_block(func.node.body)
            except Ret as r:
                return r.v
            return None
        finally:
            del self.frames[nfr - 1:]
            del self.callstack[ncs - 1:]

    def call(self, f, pos, kw):
        f = self.force(f)
        if isinstance(f, Func):
            return self.call_func(f, pos, kw)
        if isinstance(f, Bound):
            if isinstance(f.self, ObjV):
                pass
            return self.call_func(f.func, [('e', f.self)] + list(pos), kw, inline=False)
        if isinstance(f, Cls):
            return self.construct(f, pos, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return Exc(f, tuple(s[1] for s in pos if s[0] == 'e'), 'constructed')
        if isinstance(f, Ext):
            h = self.externals.get(f.name)
            if h is None:
                raise Unsupported('external %s' % f.name)
            self.used['external'].add(f.name)
            return h(self, pos, kw)
        if isinstance(f, PyType):
            return self.call_type(f.t, pos, kw)
        if isinstance(f, Builtin):
            h = self.externals.get(f.name)
            if h is not None:
                return h(self, ([('e', f.self)] if f.self is not None else []) + list(pos), kw)
            m = getattr(self, 'bi_' + f.name.replace('.', '_'), None)
            if m is None:
                raise Unsupported('builtin %s' % f.name)
            args = []
            for s in self.expand(tuple(pos)):
                if s[0] != 'e':
                    raise Unsupported('starred argument to %s' % f.name)
                args.append(s[1])
            if f.self is not None:
                return m(f.self, *args, **kw)
            return m(*args, **kw)
        if f is None:
            self.raise_(TypeError, "'NoneType' is not callable")
        raise Unsupported('call of %r' % (f,))


class ClassScope(dict):
    """Names visible while a class constant is evaluated."""

    def __init__(self, e, c):
        super().__init__()
        self.e = e
        self.c = c

    def __contains__(self, name):
        return name in self.c.const_nodes

    def __getitem__(self, name):
        return self.e.class_const(self.c, name)


def CLS(t):
    return uf('CLS', OBJ, INT)(t)


def zb(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def flat_terms(v):
    if isinstance(v, tuple):
        out = []
        for x in v:
            out.extend(flat_terms(x))
        return out
    if isinstance(v, SStr):
        return [v.ps[0].t]
    return [v.t]
