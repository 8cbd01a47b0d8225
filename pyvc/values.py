"""Symbolic values of the verifier.

A value is a Python constant (None, bool, int, str, float, tuple of values) or one of the classes
below.  Strings are ropes of pieces and sequences are ropes of segments, so that homomorphisms (the
usual shape of the contracts) are pushed through them structurally; z3 decides what is left.

Segments of a sequence:
  ('e', value)            one element
  ('c', Chunk)            an unknown finite sequence
  ('f', Chunk, Lam)       concatenation of Lam(x) (a tuple of segments) over the elements x of Chunk
  ('o', cond, segs)       segs when cond holds, nothing otherwise
"""
import z3

STR = z3.StringSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()
OBJ = z3.DeclareSort('Obj')
SEQ = z3.DeclareSort('Sequence')
SORTS = {'str': STR, 'int': INT, 'bool': BOOL, 'obj': OBJ, 'seq': SEQ}

_KEEP = {}


def tid(t):
    i = t.get_id()
    if i not in _KEEP:
        _KEEP[i] = t          # keep alive: ids stay unique
    return i


def fun(name, *sorts):
    return z3.Function(name, *sorts)


class SInt:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SStr:
    """Concatenation of pieces; a piece is a non-empty literal or an Atom/JoinP/CaseP/FnP."""
    __slots__ = ('ps',)

    def __init__(self, ps):
        self.ps = ps

    def __repr__(self):
        return 'S<%s>' % ' . '.join(map(repr, self.ps))


class Atom:
    """A z3 String term."""
    __slots__ = ('t', 'lit')

    def __init__(self, t, lit=False):
        self.t = t
        self.lit = lit      # text of a literal of the query (homomorphism `keep` leaves it alone)

    def __repr__(self):
        return '%s' % self.t


class JoinP:
    """sep.join(segs) with symbolic segments."""
    __slots__ = ('sep', 'segs')

    def __init__(self, sep, segs):
        self.sep = sep
        self.segs = segs

    def __repr__(self):
        return 'JOIN(%r, %r)' % (self.sep, self.segs)


class CaseP:
    """Text chosen by exclusive and exhaustive conditions."""
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return 'CASE(%r)' % (self.cases,)


class FnP:
    """A string function of a rope: upper, lower, replace, nows, keep..."""
    __slots__ = ('fn', 'arg', 'extra')

    def __init__(self, fn, arg, extra=()):
        self.fn = fn
        self.arg = arg
        self.extra = extra

    def __repr__(self):
        return '%s(%r%s)' % (self.fn, self.arg, self.extra and ', %r' % (self.extra,) or '')


class ObjV:
    """Instance of a class of the program; its state is in State.objs."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Obj(%s)' % self.t


class RecV:
    """Immutable snapshot of an instance created inside a generic element context."""
    __slots__ = ('cls', 'fields', 'ctor')

    def __init__(self, cls, fields, ctor=None):
        self.cls = cls
        self.fields = fields
        self.ctor = ctor

    def __repr__(self):
        return 'Rec(%s, %r)' % (self.cls, self.fields)


class Ref:
    """Reference to a mutable list / set / iterator / dict in State.heap."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref(%d)' % self.oid


class STuple:
    """Immutable sequence given by segments."""
    __slots__ = ('segs', 'kind')

    def __init__(self, segs, kind='tuple'):
        self.segs = segs
        self.kind = kind

    def __repr__(self):
        return 'STuple%r' % (self.segs,)


class CaseV:
    """Value chosen by exclusive and exhaustive conditions; forced by branching when used."""
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return 'CaseV(%r)' % (self.cases,)


class Chunk:
    """Unknown finite sequence: a term of sort Sequence plus the element type."""
    __slots__ = ('t', 'et')

    def __init__(self, t, et):
        self.t = t
        self.et = et

    def __repr__(self):
        return '<%s>' % self.t


class Lam:
    """Function of a generic element: params (z3 consts), cases [(cond, facts, segs)]."""
    __slots__ = ('params', 'cases')

    def __init__(self, params, cases):
        self.params = params
        self.cases = cases

    def __repr__(self):
        return 'Lam(%r)' % (self.cases,)


class TypeV:
    """A Python type given by an integer term (see Engine.type_code)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Type(%s)' % self.t


class Opaque:
    """A Python value about which nothing is known (float, exception text, file object...)."""
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None):
        self.tag = tag
        self.data = data

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class HList:
    """list, set (kind 'set', unordered) or iterator (kind 'iter', consumed by next)."""
    __slots__ = ('segs', 'kind', 'fresh', 'raises', 'dups')

    def __init__(self, segs=(), kind='list', fresh=True, raises=False, dups=False):
        self.dups = dups        # elements (of a set) are listed, but perhaps more than once
        self.segs = segs
        self.kind = kind
        self.fresh = fresh
        self.raises = raises    # iterator whose next() may raise

    def clone(self):
        return HList(self.segs, self.kind, self.fresh, self.raises, self.dups)


class HZSet:
    """Set of strings as a z3 set."""
    __slots__ = ('t', 'kind', 'fresh')

    def __init__(self, t, fresh=True):
        self.t = t
        self.kind = 'zset'
        self.fresh = fresh

    def clone(self):
        return HZSet(self.t, self.fresh)


class HDict:
    __slots__ = ('items', 'kind', 'fresh')

    def __init__(self, items=(), fresh=True):
        self.items = items
        self.kind = 'dict'
        self.fresh = fresh

    def clone(self):
        return HDict(self.items, self.fresh)


class ObjInfo:
    """State of an instance."""
    __slots__ = ('cls', 'fields', 'ctor', 'fresh')

    def __init__(self, cls, fields=None, ctor=None, fresh=False):
        self.cls = cls          # class when known, else None
        self.fields = fields    # None until materialised
        self.ctor = ctor        # constructor arguments by name
        self.fresh = fresh      # created by the code under verification

    def clone(self):
        return ObjInfo(self.cls, None if self.fields is None else dict(self.fields),
                       self.ctor, self.fresh)


# ---------------------------------------------------------------- strings

def rope(*parts):
    """Concatenate str / SStr / pieces into a normalised value (python str when constant)."""
    out = []

    def add(p):
        if isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + p
                else:
                    out.append(p)
        elif isinstance(p, SStr):
            for q in p.ps:
                add(q)
        elif isinstance(p, Atom):
            if z3.is_string_value(p.t):
                add(pystr(p.t))
            elif z3.is_app(p.t) and p.t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for c in p.t.children():
                    add(Atom(c, p.lit))
            else:
                out.append(p)
        else:
            out.append(p)
    for p in parts:
        add(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


_ESC = {}


def sval(s):
    """z3 literal for a Python string."""
    t = _ESC.get(s)
    if t is None:
        enc = ''.join(c if (32 <= ord(c) < 127 and c != '\\') else '\\u{%x}' % ord(c) for c in s)
        t = z3.StringVal(enc)
        _ESC[s] = t
        _LIT[tid(t)] = s
    return t


_LIT = {}


def pystr(t):
    i = tid(t)
    if i in _LIT:
        return _LIT[i]
    import re
    s = t.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def pieces(v):
    if isinstance(v, str):
        return (v,) if v else ()
    return v.ps


def is_str(v):
    return isinstance(v, (str, SStr))


def is_int(v):
    return isinstance(v, SInt) or (isinstance(v, int) and not isinstance(v, bool))


def is_bool(v):
    return isinstance(v, (bool, SBool))


# ---------------------------------------------------------------- keys / substitution

def vkey(v):
    """Hashable structural key: equal keys imply equal values."""
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, v)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(vkey(x) for x in v)
    if isinstance(v, Atom):
        return ('Atom', tid(v.t))
    if isinstance(v, (SInt, SBool, ObjV, TypeV)):
        return (type(v).__name__, tid(v.t))
    if isinstance(v, SStr):
        return ('SStr',) + tuple(vkey(x) for x in v.ps)
    if isinstance(v, JoinP):
        return ('JoinP', vkey(v.sep), segkey(v.segs))
    if isinstance(v, (CaseP, CaseV)):
        return ('Case',) + tuple((tid(c), vkey(x)) for c, x in v.cases)
    if isinstance(v, FnP):
        return ('FnP', v.fn, vkey(v.arg), v.extra)
    if isinstance(v, Ref):
        return ('Ref', v.oid)
    if isinstance(v, STuple):
        return ('STuple', segkey(v.segs))
    if isinstance(v, RecV):
        return ('RecV', v.cls.name, tuple(sorted((k, vkey(x)) for k, x in v.fields.items())))
    if isinstance(v, Chunk):
        return ('Chunk', tid(v.t))
    if isinstance(v, Opaque):
        return ('Opaque', v.tag, id(v) if v.data is None else vkey(v.data))
    return ('id', id(v))


_CANON = {}


def canon_params(lam):
    """Rename the parameters of a lambda to canonical constants (for keys)."""
    subs = []
    for i, p in enumerate(lam.params):
        k = (i, p.sort().name())
        if k not in _CANON:
            _CANON[k] = z3.Const('#%d_%s' % k, p.sort())
        subs.append((p, _CANON[k]))
    return subs


def lamkey(lam):
    subs = canon_params(lam)
    return tuple((tid(zsub(c, subs)), segkey(subst_segs(x, subs))) for c, _, x in lam.cases)


def segkey(segs):
    out = []
    for s in segs:
        if s[0] == 'e':
            out.append(('e', vkey(s[1])))
        elif s[0] == 'c':
            out.append(('c', tid(s[1].t)))
        elif s[0] == 'o':
            out.append(('o', tid(s[1]), segkey(s[2])))
        else:
            out.append(('f', tid(s[1].t), lamkey(s[2])))
    return tuple(out)


def zsub(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


def subst(v, pairs):
    if v is None or isinstance(v, (bool, int, float, str, Ref)):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, SInt):
        return SInt(zsub(v.t, pairs))
    if isinstance(v, SBool):
        return SBool(zsub(v.t, pairs))
    if isinstance(v, TypeV):
        return TypeV(zsub(v.t, pairs))
    if isinstance(v, Atom):
        return Atom(zsub(v.t, pairs), v.lit)
    if isinstance(v, ObjV):
        return ObjV(zsub(v.t, pairs))
    if isinstance(v, SStr):
        return rope(*[p if isinstance(p, str) else subst(p, pairs) for p in v.ps])
    if isinstance(v, JoinP):
        return JoinP(subst(v.sep, pairs), subst_segs(v.segs, pairs))
    if isinstance(v, CaseP):
        return CaseP([(zsub(c, pairs), subst(x, pairs)) for c, x in v.cases])
    if isinstance(v, CaseV):
        return CaseV([(zsub(c, pairs), subst(x, pairs)) for c, x in v.cases])
    if isinstance(v, FnP):
        return FnP(v.fn, subst(v.arg, pairs), v.extra)
    if isinstance(v, STuple):
        return STuple(subst_segs(v.segs, pairs), v.kind)
    if isinstance(v, RecV):
        return RecV(v.cls, {k: subst(x, pairs) for k, x in v.fields.items()},
                    None if v.ctor is None else {k: subst(x, pairs) for k, x in v.ctor.items()})
    if isinstance(v, Chunk):
        return Chunk(zsub(v.t, pairs), v.et)
    if isinstance(v, Lam):
        return subst_lam(v, pairs)
    if isinstance(v, Opaque):
        return v if v.data is None else Opaque(v.tag, subst(v.data, pairs))
    return v


def subst_lam(l, pairs):
    return Lam(l.params, [(zsub(c, pairs), [zsub(f, pairs) for f in fs], subst_segs(x, pairs))
                          for c, fs, x in l.cases])


def subst_segs(segs, pairs):
    out = []
    for s in segs:
        if s[0] == 'e':
            out.append(('e', subst(s[1], pairs)))
        elif s[0] == 'c':
            out.append(('c', subst(s[1], pairs)))
        elif s[0] == 'o':
            out.append(('o', zsub(s[1], pairs), subst_segs(s[2], pairs)))
        else:
            out.append(('f', subst(s[1], pairs), subst_lam(s[2], pairs)))
    return tuple(out)
