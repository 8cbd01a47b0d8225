"""Expressions, statements, loops and built-in functions."""
import ast

import os

import z3

from .engine import *
from .interp import *
from .interp import BUILTINS, CLS, MISSING, UNDEF, flat_terms, zb
from .program import Cls, Func, Module
from .values import *


# where splitlines() breaks lines
BREAKS = '\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029'


class Machine(Interp):

    # ================================================================ expressions
    def eval(self, n):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %d)' % (type(n).__name__, n.lineno))
        return m(n)

    def ev_Constant(self, n):
        if isinstance(n.value, (str, int, bool, float, type(None))):
            return n.value
        if n.value is Ellipsis:
            return None
        raise Unsupported('constant %r' % n.value)

    def ev_Name(self, n):
        return self.load(n.id)

    def ev_Attribute(self, n):
        return self.get_attr(self.eval(n.value), n.attr, n)

    def ev_Tuple(self, n):
        segs = self.elts(n.elts)
        if all(s[0] == 'e' for s in segs):
            return tuple(s[1] for s in segs)
        return STuple(segs)

    def elts(self, elts):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                segs.extend(self.consume(v))
            else:
                segs.append(('e', self.eval(e)))
        return tuple(segs)

    def consume(self, v, many=False):
        """All elements of an iterable; an iterator is left empty.  Unless `many`, each is wanted once."""
        v = self.force(v)
        if not many and self.repeats(v):
            raise Unsupported('going through a set whose elements may be equal')
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HList) and \
                self.heap[v.oid].kind == 'iter':
            h = self.heap[v.oid]
            segs = h.segs
            h.segs = ()
            return segs
        return self.segs_of(v)

    def repeats(self, v):
        """The elements of v are listed perhaps more often than they occur in it."""
        v = self.force(v)
        return isinstance(v, Ref) and isinstance(self.heap[v.oid], HList) and self.heap[v.oid].dups

    def ev_List(self, n):
        return self.new_list(self.elts(n.elts))

    def ev_Set(self, n):
        return self.new_list(self.elts(n.elts), 'set')

    def ev_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            items.append((self.eval(k), self.eval(v)))
        return self.alloc(HDict(tuple(items)))

    def ev_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    raise Unsupported('format spec')
                x = self.eval(v.value)
                parts.append(self.bi_repr(x) if v.conversion == 114 else self.to_str(x))
        return rope(*parts)

    def ev_Lambda(self, n):
        return Func(n, self.frames[-1].func.module, None, 'function', self.frames[-1])

    def ev_IfExp(self, n):
        if all(isinstance(x, ast.Constant) and type(x.value) is int for x in (n.body, n.orelse)):
            t = self.truth_term(self.eval(n.test))
            if isinstance(t, bool):
                return (n.body if t else n.orelse).value
            return SInt(z3.If(t, z3.IntVal(n.body.value), z3.IntVal(n.orelse.value)))
        if self.truth(self.eval(n.test)):
            return self.eval(n.body)
        return self.eval(n.orelse)

    def ev_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            t = self.truth_term(self.eval(n.operand))
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        v = self.force(self.eval(n.operand))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, SInt):
                return SInt(-v.t)
            if isinstance(v, Opaque) and v.tag == 'float':
                return Opaque('float', ('neg', v.data))
        raise Unsupported('unary operator')

    def pure(self, n):
        """May the expression be evaluated although Python would skip it? (cannot raise, no effect)"""
        if isinstance(n, (ast.Constant, ast.Name)):
            return True
        if isinstance(n, ast.Compare):
            return all(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn))
                       for o in n.ops) and all(self.pure(x) for x in [n.left] + n.comparators)
        if isinstance(n, ast.Call):
            return isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'lower') \
                and all(self.pure(x) for x in n.args)
        if isinstance(n, ast.UnaryOp):
            return self.pure(n.operand)
        if isinstance(n, ast.BoolOp):
            return all(self.pure(x) for x in n.values)
        if isinstance(n, (ast.Tuple, ast.List)):
            return all(self.pure(x) for x in n.elts)
        if isinstance(n, ast.Attribute):
            # constants of classes and plain attributes of self
            return isinstance(n.value, ast.Name) and n.attr.isupper()
        return False

    def ev_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        acc = None
        for k, x in enumerate(n.values):
            last = k == len(n.values) - 1
            if acc is not None:
                # a later operand: pure operands are combined without branching
                if self.pure(x):
                    try:
                        v = self.eval(x)
                    except PyRaise:
                        v = None
                        raise Unsupported('operand raises')
                    if is_bool(v):
                        t = zbool(v)
                        acc = SBool(z3.simplify(z3.And(acc.t, t) if is_and else z3.Or(acc.t, t)))
                        if z3.is_true(acc.t) or z3.is_false(acc.t):
                            acc = SBool(acc.t)
                        continue
                    b = self.branch(acc.t)
                    if b != is_and:
                        return b
                    acc = None
                    if last:
                        return v
                    if self.truth(v) != is_and:
                        return v
                    continue
                t = self.guarded_operand(x, acc.t if is_and else z3.Not(acc.t))
                if t is not None:
                    acc = SBool(z3.simplify(z3.And(acc.t, t) if is_and else z3.Or(acc.t, t)))
                    continue
                b = self.branch(acc.t)
                if b != is_and:
                    return b
                acc = None
            v = self.eval(x)
            if last:
                return v
            if isinstance(v, bool):
                if v != is_and:
                    return v
                continue
            if isinstance(v, SBool):
                acc = v
                continue
            if self.truth(v) != is_and:
                return self.force(v)
        b = z3.simplify(acc.t)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return SBool(b)

    def guarded_operand(self, x, guard):
        """Truth of a boolean operand evaluated only when guard holds, without splitting the path;
        None when its evaluation may raise, has effects, or is not boolean."""
        # variables can only be narrowed by evaluating it (no := in it)
        if not isinstance(x, (ast.Compare, ast.UnaryOp, ast.Call)) or self.params or \
                any(isinstance(y, ast.NamedExpr) for y in ast.walk(x)):
            return None
        base = self.snapshot()

        def thunk():
            self.assume_branch(guard)
            try:
                v = self.eval(x)
            except PyRaise:
                return 'raise', None
            return ('ok', zbool(v)) if is_bool(v) else ('other', None)
        res = self.sub(thunk)
        for r in res:
            if r.out != 'ok' or any(not f[3] for f in r.rfacts) or \
                    set(r.snap[2]) != set(base[2]) or len(r.snap[8]) != len(base[8]):
                return None
            for oid, h in base[0].items():
                h2 = r.snap[0].get(oid)
                if h2 is None or type(h2) is not type(h) or (
                        segkey(h.segs) != segkey(h2.segs) if isinstance(h, HList)
                        else vkey_heap(h) != vkey_heap(h2)):
                    return None
            for k, o in base[1].items():
                if k not in r.snap[1] or not same_fields(o, r.snap[1][k]):
                    return None
        if not res:
            return None
        ts = []
        for r in res:
            for f in r.facts:
                self.assume(z3.Implies(r.cond, f))
            for f in r.rfacts:
                if f not in self.rfacts:
                    self.add_rfact(*f)
            for k, v in r.snap[3].items():
                self.foralls.setdefault(k, list(v))
            ts.append(z3.And(r.cond, r.val))
        return z3.simplify(z3.Or(ts))

    def ev_Compare(self, n):
        left = self.eval(n.left)
        res = []
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c)
            t = self.compare(op, left, right)
            if t is False:
                return False
            if t is not True:
                res.append(t)
            left = right
        if not res:
            return True
        t = z3.simplify(z3.And(res) if len(res) > 1 else res[0])
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            t = self.eq_term(a, b)
            return t if isinstance(op, ast.Eq) else neg(t)
        if isinstance(op, (ast.Is, ast.IsNot)):
            t = self.is_term(a, b)
            return t if isinstance(op, ast.Is) else neg(t)
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.in_term(a, b)
            return t if isinstance(op, ast.In) else neg(t)
        a, b = self.force(a), self.force(b)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            x = zint(a) if is_int(a) else z3.If(zbool(a), 1, 0)
            y = zint(b) if is_int(b) else z3.If(zbool(b), 1, 0)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        if a is None or b is None or is_str(a) != is_str(b):
            self.raise_(TypeError, 'comparison not supported')
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if is_str(a):
            x, y = self.zstr(a), self.zstr(b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: y < x, ast.GtE: y <= x}[type(op)]
        raise Unsupported('comparison of %r and %r' % (a, b))

    def is_term(self, a, b):
        if isinstance(a, CaseV):
            return self.or_cases(a, lambda x: self.is_term(x, b))
        if isinstance(b, CaseV):
            return self.or_cases(b, lambda x: self.is_term(a, x))
        if a is None or b is None:
            return a is None and b is None
        if is_bool(a) and is_bool(b):
            return self.eq_term(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.oid == b.oid
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return a.t == b.t
        if isinstance(a, (PyType, TypeV, Cls)) and isinstance(b, (PyType, TypeV, Cls)):
            return self.eq_term(a, b)
        if is_bool(a) != is_bool(b):
            return False
        raise Unsupported('is of %r and %r' % (a, b))

    def ev_BinOp(self, n):
        return self.binop(n.op, self.eval(n.left), self.eval(n.right))

    def binop(self, op, a, b, inplace=False):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Add):
            if is_str(a) and is_str(b):
                return rope(a, b)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a + b
            if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
                return SInt(z3.simplify(zint(a) + zint(b)))
            if isinstance(a, Ref) and self.heap[a.oid].kind == 'list':
                if inplace:
                    segs = self.consume(b, True)
                    h = self.wr(a)
                    h.segs = h.segs + tuple(segs)
                    return a
                if isinstance(b, Ref) and self.heap[b.oid].kind == 'list':
                    return self.new_list(self.heap[a.oid].segs + self.heap[b.oid].segs)
            if isinstance(a, (tuple, STuple)) and isinstance(b, (tuple, STuple)):
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return a + b
                return STuple(self.segs_of(a) + self.segs_of(b))
            self.raise_(TypeError, 'unsupported operand types for +')
        if isinstance(op, ast.Sub):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a - b
            if is_int(a) and is_int(b):
                return SInt(z3.simplify(zint(a) - zint(b)))
        if isinstance(op, ast.Mult):
            if isinstance(a, (int, str)) and isinstance(b, (int, str)):
                return a * b
            if is_str(a) and is_int(b):
                a, b = a, b
            elif is_int(a) and is_str(b):
                a, b = b, a
            if is_str(a) and is_int(b):
                return rope(Atom(uf('REPEAT', STR, INT, STR)(self.zstr(a), zint(b))))
            if is_int(a) and is_int(b):
                return SInt(zint(a) * zint(b))
        if isinstance(op, ast.BitOr):
            if isinstance(a, Ref) and isinstance(self.heap[a.oid], HZSet):
                hb = self.heap[b.oid]
                if not isinstance(hb, HZSet):
                    if isinstance(hb, HList) and hb.kind == 'set' and not hb.segs:
                        if inplace:
                            self.wr(a)
                            return a
                        return self.alloc(HZSet(self.heap[a.oid].t))
                    raise Unsupported('set union')
                t = z3.SetUnion(self.heap[a.oid].t, hb.t)
                if inplace:
                    self.wr(a).t = t
                    return a
                return self.alloc(HZSet(t))
            if isinstance(a, Ref) and isinstance(b, Ref) and self.heap[a.oid].kind == 'set':
                hb = self.heap[b.oid]
                if isinstance(hb, HZSet) and not self.heap[a.oid].segs:
                    if inplace:
                        self.wr(a)
                        self.heap[a.oid] = HZSet(hb.t, self.heap[a.oid].fresh)
                        return a
                    return self.alloc(HZSet(hb.t))
                if hb.kind == 'set':
                    if inplace:
                        h = self.wr(a)
                        h.dups = self.union_dups(h, hb)
                        h.segs = h.segs + hb.segs
                        return a
                    ha = self.heap[a.oid]
                    r = self.new_list(ha.segs + hb.segs, 'set')
                    self.heap[r.oid].dups = self.union_dups(ha, hb)
                    return r
            self.raise_(TypeError, 'unsupported operand types for |')
        if isinstance(op, ast.Mod) and is_str(a):
            return rope(Atom(self.fresh('fmt', STR)))
        raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))

    def ev_Subscript(self, n):
        v = self.force(self.eval(n.value))
        if isinstance(n.slice, ast.Slice):
            lo = None if n.slice.lower is None else self.force(self.eval(n.slice.lower))
            hi = None if n.slice.upper is None else self.force(self.eval(n.slice.upper))
            if n.slice.step is not None:
                raise Unsupported('slice step')
            return self.slice(v, lo, hi)
        return self.index(v, self.force(self.eval(n.slice)))

    def index(self, v, i):
        hook = self.functional.get('index_obj')
        if hook and isinstance(v, ObjV):
            return hook(self, v, i)
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HDict):
            for k, x in self.heap[v.oid].items:
                t = self.eq_term(i, k)
                if self.branch(zb(t)):
                    return x
            self.raise_(KeyError, 'key')
        if isinstance(v, Opaque) and v.tag == 'lines' and i == 0:
            t = self.zstr(v.data)
            if not self.branch(t != sval('')):
                self.raise_(IndexError, 'list index out of range')
            a = uf('LINE1', STR, STR)(t)
            self.axiom(z3.PrefixOf(a, t))
            for w in self.functional.get('words', ()):      # instances: the words hold no line break
                for x in (w, w + ' '):
                    self.axiom(z3.PrefixOf(sval(x), t) == z3.PrefixOf(sval(x), a))
                self.axiom((a == sval(w)) == z3.Or(t == sval(w), *[z3.PrefixOf(sval(w + c), t) for c in BREAKS]))
            return rope(Atom(a))
        if isinstance(v, Opaque) and v.tag == 'split1':
            t, sep = self.zstr(v.data[0]), sval(v.data[1])
            if i == 0 and self.functional.get('split1_facts'):
                a = uf('BEFORE1', STR, STR, STR)(t, sep)
                self.axiom(z3.PrefixOf(a, t))
                for w in self.functional['split1_facts']:   # instances: the words do not hold the separator
                    self.axiom((a == sval(w)) == z3.Or(t == sval(w), z3.PrefixOf(z3.Concat(sval(w), sep), t)))
                return rope(Atom(a))
            if i == -1:
                s, sep = v.data
                return rope(Atom(uf('AFTER1_%s' % sep, STR, STR)(self.zstr(s))))
            if i == 0:
                s, sep = v.data
                return rope(Atom(uf('BEFORE1_%s' % sep, STR, STR)(self.zstr(s))))
        if isinstance(v, tuple) and isinstance(i, int):
            if -len(v) <= i < len(v):
                return v[i]
            self.raise_(IndexError, 'tuple index')
        if is_str(v):
            if isinstance(v, str) and isinstance(i, int):
                if -len(v) <= i < len(v):
                    return v[i]
                self.raise_(IndexError, 'string index')
            if isinstance(i, int):
                n = z3.Length(self.zstr(v))
                if self.branch(n <= (i if i >= 0 else -i - 1)):
                    self.raise_(IndexError, 'string index')
                at = z3.IntVal(i) if i >= 0 else n + i
                return rope(Atom(z3.SubString(self.zstr(v), at, 1)))
        if isinstance(v, (STuple, Ref)) and isinstance(i, int):
            if isinstance(v, Ref) and self.heap[v.oid].kind in ('iter', 'set'):
                self.raise_(TypeError, 'not subscriptable')
            segs = self.segs_of(v)
            if i >= 0:
                for _ in range(i + 1):
                    r = self.pop_front(segs)
                    if r is None:
                        self.raise_(IndexError, 'list index out of range')
                    x, segs = r
                return x
            for _ in range(-i):
                r = self.pop_back(segs)
                if r is None:
                    self.raise_(IndexError, 'list index out of range')
                x, segs = r
            return x
        if v is None:
            self.raise_(TypeError, 'None is not subscriptable')
        raise Unsupported('index %r of %r' % (i, v))

    def slice(self, v, lo, hi):
        if is_str(v):
            if isinstance(v, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                return v[lo:hi]
            if isinstance(v, SStr) and isinstance(lo or 0, int) and isinstance(hi or 0, int) and \
                    (lo or 0) >= 0 and (hi is None or hi < 0):
                ps, a, b = list(v.ps), lo or 0, -(hi or 0)
                if isinstance(ps[0], str) and a:
                    k = min(a, len(ps[0]))
                    ps[0], a = ps[0][k:], a - k
                if isinstance(ps[-1], str) and b:
                    k = min(b, len(ps[-1]))
                    ps[-1], b = ps[-1][:len(ps[-1]) - k], b - k
                if not a and not b and len(ps) > 1:
                    return rope(*ps)
            t = self.zstr(v)
            n = z3.Length(t)

            def clamp(x, d):
                if x is None:
                    return d
                x = zint(x)
                x = z3.If(x < 0, n + x, x)
                return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
            a, b = clamp(lo, z3.IntVal(0)), clamp(hi, n)
            return rope(Atom(z3.simplify(z3.SubString(t, a, z3.If(b > a, b - a, z3.IntVal(0))))))
        if isinstance(v, (tuple, STuple, Ref)):
            if isinstance(v, tuple) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                return v[lo:hi]
            segs = self.segs_of(v)
            if (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
                if hi is not None and hi >= 0 and (lo is None or lo >= 0) and hi - (lo or 0) <= 8 and (lo or 0) <= 8:
                    got = []
                    for k in range(hi):
                        r = self.pop_front(segs)
                        if r is None:
                            break
                        segs = r[1]
                        if k >= (lo or 0):
                            got.append(('e', r[0]))
                    return self.new_list(tuple(got)) if isinstance(v, Ref) else STuple(tuple(got))
                if lo is not None and -8 <= lo < 0 and hi is None:
                    got = []
                    for k in range(-lo):
                        r = self.pop_back(segs)
                        if r is None:
                            break
                        segs = r[1]
                        got.insert(0, ('e', r[0]))
                    return self.new_list(tuple(got)) if isinstance(v, Ref) else STuple(tuple(got))
                if hi is not None:
                    if hi >= 0:
                        segs = self.expand(segs)
                        if lo or len(segs) != 1 or segs[0][0] != 'c' or self.params:
                            raise Unsupported('slice upper bound')
                        ch = segs[0][1]
                        if not self.branch(LENF()(ch.t) <= hi):
                            take = Chunk(self.memo_const((ch, hi), SEQ, 'TAKE'), ch.et)
                            rest = Chunk(self.memo_const((ch, hi), SEQ, 'REST'), ch.et)
                            self.inherit(ch, take)
                            self.inherit(ch, rest)
                            self.define(ch, (('c', take), ('c', rest)))
                            self.assume(LENF()(take.t) == hi)
                            self.assume(LENF()(rest.t) == LENF()(ch.t) - hi)
                            segs = (('c', take),)
                        return self.new_list(segs) if isinstance(v, Ref) else STuple(segs)
                    for _ in range(-hi):
                        r = self.pop_back(segs)
                        if r is None:
                            segs = ()
                            break
                        segs = r[1]
                if lo is not None:
                    if lo < 0:
                        raise Unsupported('slice lower bound')
                    for _ in range(lo):
                        r = self.pop_front(segs)
                        if r is None:
                            segs = ()
                            break
                        segs = r[1]
                if isinstance(v, Ref):
                    return self.new_list(segs)
                return STuple(tuple(segs))
        raise Unsupported('slice of %r' % (v,))

    def ev_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fr = self.frames[-1]
            while fr.func.cls is None and fr.parent is not None:
                fr = fr.parent
            a = fr.func.node.args.args[0].arg
            return Super(fr.func.cls, fr.vars[a])
        f = self.eval(n.func)
        pos = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value))
                if not isinstance(d, Opaque) or d.tag != 'kwargs':
                    raise Unsupported('**kwargs in a call')
                kw.update(d.data)
                continue
            kw[k.arg] = self.eval(k.value)
        if isinstance(n.func, ast.Attribute) and isinstance(f, Bound) and isinstance(f.self, ObjV) \
                and not (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name)
                         and n.func.value.func.id == 'super'):
            return self.method_call(f, pos, kw)
        if isinstance(f, Builtin) and f.name == 'virtual':
            return f.self(pos, kw)
        return self.call(f, pos, kw)

    def method_call(self, f, pos, kw):
        return self.call(f, pos, kw)

    # comprehension / generators --------------------------------------------------
    def ev_ListComp(self, n):
        segs, dups = self.comp(n.generators, n.elt)
        if dups:
            raise Unsupported('list of a set whose elements may be equal')
        return self.new_list(segs)

    def ev_GeneratorExp(self, n):
        segs, dups = self.comp(n.generators, n.elt)
        return self.alloc(HList(tuple(segs), 'iter', dups=dups))

    def ev_SetComp(self, n):
        segs, dups = self.comp(n.generators, n.elt, True)
        r = self.new_list(segs, 'set')
        g = n.generators[0]
        if not dups and isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id:
            self.heap[r.oid].dups = False       # some elements of a set
        return r

    def comp(self, gens, elt, to_set=False):
        if len(gens) != 1 or gens[0].is_async:
            raise Unsupported('nested comprehension')
        g = gens[0]
        over = self.force(self.eval(g.iter))
        dups = self.repeats(over)
        if to_set and not dups:         # the elements of what is no set may be equal
            dups = not (isinstance(over, Ref) and self.heap[over.oid].kind == 'set')
        it = self.consume(over, True)

        def body(v):
            self.frames.append(Frame(self.frames[-1].func, {}, self.frames[-1]))
            self.frames[-1].nonlocals = set()
            try:
                self.assign(g.target, v)
                for c in g.ifs:
                    if not self.truth(self.eval(c)):
                        return ()
                return (('e', self.eval(elt)),)
            finally:
                self.frames.pop()
        return self.flatmap(it, body), dups

    def flatmap(self, segs, body):
        """body(value) -> segs, applied to every element."""
        out = []
        for s in self.expand(segs):
            if s[0] == 'e':
                out.extend(body(s[1]))
            elif s[0] == 'o':
                if self.branch(s[1]):
                    out.extend(self.flatmap(s[2], body))
            elif s[0] == 'c':
                out.extend(self.map_chunk(s[1], lambda v: (('e', v),), body))
            else:
                cases = []
                lam = s[2]
                ext = []
                for c, fs, x in lam.cases:
                    def inner(c=c, fs=fs, x=x):
                        for f in fs:
                            self.assume(f)
                        self.assume_branch(c)
                        return x
                    ext.extend(self.lam_cases(lam.params, inner, body))
                out.append(('f', s[1], Lam(lam.params, ext)))
        return tuple(out)

    def map_chunk(self, ch, pre, body):
        v, params, facts = self.generic_elem(ch.et)

        def inner():
            for f in facts:
                self.assume(f)
            for fa in self.facts_of(ch.t):
                for z in fa(params):
                    self.assume(z)
            return pre(v)
        cases = self.lam_cases(params, inner, body)
        return (('f', ch, Lam(params, cases)),)

    def lam_cases(self, params, inner, body):
        """Explore body on the elements inner() yields, as a function of params."""
        def thunk():
            self.params.extend(params)
            segs = inner()
            out = []
            for s in segs:
                if s[0] != 'e':
                    raise Unsupported('mapping over nested sequences')
                try:
                    out.extend(body(s[1]))
                except PyRaise as r:
                    return 'raise', r.exc
            return 'ok', tuple(('e', self.freeze(x[1])) if x[0] == 'e' else x for x in out)
        nw = len(self.written)
        res = self.sub(thunk)
        cases = []
        for r in res:
            if r.out == 'raise':
                # some element makes the body raise
                with_cond = r.cond
                if self.lam_may_raise(params, r):
                    raise PyRaise(r.val)
            for w in r.snap[8][nw:]:
                self.written.append(w)
        for r in res:
            if r.out == 'ok':
                cases.append((r.cond, r.facts, r.val))
        return cases

    def lam_may_raise(self, params, r):
        """An element may raise: explore both the path on which it does and the one where none does."""
        return self.choose(2, 'raise') == 1

    def freeze(self, v):
        """Snapshot of objects created inside a generic element context."""
        if isinstance(v, ObjV):
            i = self.objs.get(tid(v.t))
            if i is not None and i.fresh and self.params:
                return RecV(i.cls, {k: self.freeze(x) for k, x in i.fields.items()},
                            None if i.ctor is None else {k: self.freeze(x) for k, x in i.ctor.items()})
            return v
        if isinstance(v, Ref):
            h = self.heap[v.oid]
            if isinstance(h, HList):
                return STuple(tuple(('e', self.freeze(s[1])) if s[0] == 'e' else s for s in h.segs),
                              h.kind)
            raise Unsupported('heap object in a mapped element')
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, CaseV):
            return CaseV([(c, self.freeze(x)) for c, x in v.cases])
        return v

    # ================================================================ statements
    def exec_block(self, body):
        for st in body:
            self.exec(st)

    def exec(self, st):
        m = getattr(self, 'ex_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(st).__name__, st.lineno))
        self.frames[-1].cur = st
        m(st)

    def ex_Expr(self, st):
        v = st.value
        if isinstance(v, ast.Yield):
            x = None if v.value is None else self.narrow(self.eval(v.value))
            h = self.heap[self.frames[-1].yields.oid]
            h.segs = h.segs + (('e', x),)
            return
        if isinstance(v, ast.YieldFrom):
            segs = self.consume(self.eval(v.value))
            h = self.heap[self.frames[-1].yields.oid]
            h.segs = h.segs + tuple(segs)
            return
        if isinstance(v, ast.Constant):
            return
        self.eval(v)

    def ex_Pass(self, st):
        pass

    def ex_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def ex_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            segs = self.consume(v)
            if not star:
                for x in t.elts:
                    r = self.pop_front(segs)
                    if r is None:
                        self.raise_(ValueError, 'not enough values to unpack')
                    self.assign(x, r[0])
                    segs = r[1]
                n = self.len_segs(segs)
                if not isinstance(n, int):
                    if self.branch(n.t > 0):
                        self.raise_(ValueError, 'too many values to unpack')
                elif n:
                    self.raise_(ValueError, 'too many values to unpack')
            else:
                k = star[0]
                for x in t.elts[:k]:
                    r = self.pop_front(segs)
                    if r is None:
                        self.raise_(ValueError, 'not enough values to unpack')
                    self.assign(x, r[0])
                    segs = r[1]
                tail = []
                for x in reversed(t.elts[k + 1:]):
                    r = self.pop_back(segs)
                    if r is None:
                        self.raise_(ValueError, 'not enough values to unpack')
                    self.assign(x, r[0])
                    segs = r[1]
                self.assign(t.elts[k].value, self.new_list(segs))
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value), t.attr, v)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def ex_AugAssign(self, st):
        if isinstance(st.target, ast.Name):
            a = self.load(st.target.id)
            v = self.binop(st.op, a, self.eval(st.value), inplace=True)
            self.store(st.target.id, v)
        elif isinstance(st.target, ast.Attribute):
            o = self.eval(st.target.value)
            a = self.get_attr(o, st.target.attr)
            v = self.binop(st.op, a, self.eval(st.value), inplace=True)
            self.set_attr(o, st.target.attr, v)
        else:
            raise Unsupported('augmented assignment')

    def ex_Return(self, st):
        raise Ret(None if st.value is None else self.eval(st.value))

    def ex_Break(self, st):
        raise Brk()

    def ex_Continue(self, st):
        raise Cont()

    def ex_Nonlocal(self, st):
        self.frames[-1].nonlocals.update(st.names)

    def ex_FunctionDef(self, st):
        fr = self.frames[-1]
        self.store(st.name, Func(st, fr.func.module, None, 'function', fr))

    def ex_Raise(self, st):
        if st.exc is None:
            raise PyRaise(self.frames[-1].vars.get('#exc') or Exc(RuntimeError))
        v = self.eval(st.exc)
        if isinstance(v, Cls):
            v = self.construct(v, [], {})
        elif isinstance(v, type):
            v = Exc(v, (), 'raise')
        if not isinstance(v, Exc):
            raise Unsupported('raise of %r' % (v,))
        v.origin = 'raise line %d' % st.lineno
        raise PyRaise(v)

    def ex_Assert(self, st):
        if not self.truth(self.eval(st.test)):
            self.raise_(AssertionError, 'assert line %d' % st.lineno)

    def ex_Try(self, st):
        try:
            try:
                self.exec_block(st.body)
            except PyRaise as r:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ts = self.eval(h.type)
                        ts = ts if isinstance(ts, tuple) else (ts,)
                        ok = self.exc_matches(r.exc, ts)
                    if ok:
                        if h.name:
                            self.store(h.name, r.exc)
                        old = self.frames[-1].vars.get('#exc')
                        self.frames[-1].vars['#exc'] = r.exc
                        self.exec_block(h.body)
                        self.frames[-1].vars['#exc'] = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse)
        finally:
            if st.finalbody:
                raise_after = None
                self.exec_block(st.finalbody)

    def exc_matches(self, exc, ts):
        return any(exc.isinst(t) for t in ts)

    def ex_With(self, st):
        h = self.externals.get('with')
        entered = []
        for item in st.items:
            v = self.eval(item.context_expr)
            if h is None:
                raise Unsupported('with')
            x = h(self, v, 'enter')
            entered.append(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, x)
        try:
            self.exec_block(st.body)
        finally:
            for v in reversed(entered):
                h(self, v, 'exit')

    def ex_If(self, st):
        v = self.eval(st.test)
        t = self.truth_term(v)
        if not isinstance(t, bool) and self.merge_ifs and self.mergeable(st):
            if self.exec_merged(st, t):
                return
        if self.branch(t):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    # merging of the two arms of an if -------------------------------------------
    def mergeable(self, st):
        for n in ast.walk(st):
            if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Yield,
                              ast.YieldFrom, ast.While, ast.For, ast.Try, ast.With)):
                return False
        return True

    def exec_merged(self, st, t):
        t = z3.simplify(t)
        if z3.is_true(t) or z3.is_false(t):
            return False
        if self.implied(t) or self.implied(z3.Not(t)):
            return False

        def thunk():
            try:
                if self.branch(t):
                    self.exec_block(st.body)
                else:
                    self.exec_block(st.orelse)
            except PyRaise as r:
                return 'raise', r.exc
            return 'ok', None
        base = self.snapshot()
        res = self.sub(thunk)
        bad = [r for r in res if r.out == 'raise']
        if bad:
            return False
        if not res:
            raise Stop()
        if len(res) == 1:
            return False
        merged = self.merge_states(base, res)
        if merged is None:
            return False
        frames, heap, objs = merged
        cds = {}
        for r in res:
            for k, v in r.snap[2].items():
                if k not in base[2]:
                    return False        # a sequence was decomposed on one side only
        for r in res:
            for f in r.facts:
                self.assume(z3.Implies(r.cond, f))
            if r.rfacts:
                return False
            self.written.extend(r.snap[8][len(base[8]):])
        for f, vs in frames:
            f.vars = vs
        self.heap = heap
        self.objs = objs
        return True

    def merge_states(self, base, res):
        frames = []
        conds = [r.cond for r in res]
        for k, (f, vs0) in enumerate(base[5]):
            out = {}
            names = set()
            for r in res:
                names |= set(r.snap[5][k][1])
            for nm in names:
                vals = [r.snap[5][k][1].get(nm, UNDEF) for r in res]
                keys = {vkey(v) for v in vals}
                if len(keys) == 1:
                    out[nm] = vals[0]
                    continue
                old = vs0.get(nm, UNDEF)
                m = self.merge_values(old, vals, conds)
                if m is MISSING:
                    return None
                out[nm] = m
            frames.append((f, out))
        heap = {}
        for oid in set().union(*[set(r.snap[0]) for r in res]):
            hs = [r.snap[0].get(oid) for r in res]
            if any(h is None for h in hs):
                heap[oid] = [h for h in hs if h is not None][0].clone()
                continue
            h0 = base[0].get(oid)
            if all(isinstance(h, HList) for h in hs):
                ks = {segkey(h.segs) for h in hs}
                if len(ks) == 1:
                    heap[oid] = hs[0].clone()
                    continue
                pre = h0.segs if h0 is not None else ()
                if not all(h.segs[:len(pre)] == pre for h in hs):
                    return None
                segs = list(pre)
                for h, c in zip(hs, conds):
                    d = h.segs[len(pre):]
                    if d:
                        segs.append(('o', c, d))
                nh = hs[0].clone()
                nh.segs = tuple(segs)
                nh.dups = nh.dups or nh.kind == 'set'
                heap[oid] = nh
            else:
                if len({vkey(h.t) if isinstance(h, HZSet) else id(h) for h in hs}) != 1:
                    return None
                heap[oid] = hs[0].clone()
        objs = {}
        for k in set().union(*[set(r.snap[1]) for r in res]):
            os_ = [r.snap[1].get(k) for r in res]
            i0 = base[1].get(k)
            known = [o for o in os_ if o is not None]
            if i0 is None:
                if all(o is not None for o in os_) and len({o.cls for o in os_}) == 1 and all(
                        same_fields(o, os_[0]) for o in os_):
                    objs[k] = os_[0].clone()
                elif any(o is not None and o.fresh for o in os_):
                    objs[k] = [o for o in os_ if o is not None and o.fresh][0].clone()
                continue
            if all(o.cls is i0.cls and same_fields(o, i0) for o in known):
                objs[k] = i0.clone()
                continue
            if i0.fields is None:
                if all(o.fields is None or not o.fresh for o in known):
                    objs[k] = i0.clone()        # materialised on one side: can be redone
                    continue
            if all(o.cls is i0.cls for o in known) and i0.fields is not None:
                n = i0.clone()
                for nm in set().union(*[set(o.fields) for o in known]):
                    vals = [o.fields.get(nm, UNDEF) for o in known]
                    if len({vkey(v) for v in vals}) == 1:
                        n.fields[nm] = vals[0]
                        continue
                    m = self.merge_values(i0.fields.get(nm, UNDEF), vals, conds)
                    if m is MISSING:
                        return None
                    n.fields[nm] = m
                objs[k] = n
                continue
            return None
        return frames, heap, objs

    def merge_values(self, old, vals, conds):
        if all(is_str(v) for v in vals):
            ps = [pieces(v) for v in vals]
            n = 0
            while all(len(p) > n for p in ps) and len({vkey(p[n]) for p in ps}) == 1:
                n += 1
            pre = ps[0][:n]
            if is_str(old):
                # keep the split where the old text ends
                po = pieces(old)
            return rope(*(list(pre) + [CaseP([(c, rope(*p[n:])) for c, p in zip(conds, ps)])]))
        if any(v is UNDEF for v in vals):
            return MISSING if False else UNDEF
        if all(is_bool(v) for v in vals):
            return SBool(z3.simplify(z3.Or([z3.And(c, zbool(v)) for c, v in zip(conds, vals)])))
        if all(is_int(v) for v in vals):
            t = zint(vals[-1])
            for c, v in list(zip(conds, vals))[:-1][::-1]:
                t = z3.If(c, zint(v), t)
            return SInt(z3.simplify(t))
        if self.functional.get('merge_text_only'):
            return MISSING
        return CaseV(list(zip(conds, vals)))

    # ================================================================ loops
    def ex_While(self, st):
        if st.orelse:
            raise Unsupported('while-else')
        h = self.functional.get('loop_hook')
        if h is not None and h(self, st, None) is not NotImplemented:
            return
        # concrete loops are unrolled
        self.loop_general(st, None)

    def ex_For(self, st):
        if st.orelse:
            raise Unsupported('for-else')
        it = self.force(self.eval(st.iter))
        if isinstance(it, Ref) and isinstance(self.heap[it.oid], HList) and \
                self.heap[it.oid].kind == 'iter' and (
                    self.shared_iter(st, it) or self.heap[it.oid].raises):
            h = self.functional.get('loop_hook')
            if h is not None and h(self, st, it) is not NotImplemented:
                return
            self.loop_general(st, it)
            return
        if isinstance(it, Opaque):
            h = self.externals.get('iter:' + it.tag)
            if h is None:
                raise Unsupported('iteration over %r' % it)
            it = h(self, it)
        segs = list(self.expand(self.consume(it)))
        try:
            while segs:
                s = segs.pop(0)
                if s[0] == 'e':
                    self.assign(st.target, s[1])
                    try:
                        self.exec_block(st.body)
                    except Cont:
                        pass
                elif s[0] == 'o':
                    if self.branch(s[1]):
                        segs = list(s[2]) + segs
                else:
                    self.loop_chunk(st, s)
        except Brk:
            pass

    def shared_iter(self, st, it):
        """Is the iterator reachable by the body (a name bound to it is used there)?"""
        names = set()
        f = self.frames[-1]
        while f is not None:
            for k, v in f.vars.items():
                if isinstance(v, Ref) and v.oid == it.oid:
                    names.add(k)
            f = f.parent
        for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
            if isinstance(n, ast.Name) and n.id in names:
                return True
        return False

    # ---- for over an unknown sequence: accumulation
    def assigned(self, body):
        names = set()
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
        return names

    def loop_chunk(self, st, seg):
        r = not self.functional.get('general_loops') and self.try_accumulate(st, seg)
        if not r:
            self.loop_general_seg(st, seg)

    def loop_general_seg(self, st, seg):
        it = self.alloc(HList((seg,), 'iter'))
        self.loop_general(st, it)

    def why(self):
        import sys
        if TRACE:
            print('ACCUMULATION FAILS at', self.callstack[-1], sys._getframe(1).f_lineno)
        return True

    def body_once(self, st, v):
        self.assign(st.target, v)
        try:
            self.exec_block(st.body)
        except Cont:
            pass

    def try_accumulate(self, st, seg):
        key = ('acc', self.cur, tuple(self.callstack), st.lineno, st.col_offset)
        info = self.persist.setdefault(key, {'locs': set(), 'fail': False})
        if info['fail']:
            return False
        fr = self.frames[-1]
        names = self.assigned(st.body)
        targets = set()
        for n in ast.walk(st.target):
            if isinstance(n, ast.Name):
                targets.add(n.id)
        frames = [fr]
        if seg[0] == 'c':
            v, params, facts = self.generic_elem(seg[1].et)
            starts = [(z3.BoolVal(True), facts, (('e', v),))]
            for fa in self.facts_of(seg[1].t):
                facts.extend(fa(params))
        else:
            params = seg[2].params
            starts = seg[2].cases
        base = self.snapshot()
        nw = len(self.written)

        while True:
            old = {}            # placeholder -> location

            def havoc():
                for nm in sorted(names - targets):
                    f = fr
                    if nm in fr.nonlocals:
                        f = fr.parent.find(nm)
                    if nm in f.vars:
                        o = f.vars[nm]
                        ph = self.placeholder(o, nm)
                        old[('v', nm)] = (o, ph)
                        f.vars[nm] = ph
                for loc in sorted(info['locs']):
                    if loc[0] == 'h':
                        h = self.heap[loc[1]]
                        if not isinstance(h, HList):
                            raise Unsupported('set updated in a loop')
                        ch = Chunk(z3.Const('OLDSEQ!%d' % loc[1], SEQ), ('any',))
                        old[loc] = (h.segs, ch)
                        h.segs = (('c', ch),)
                        h.dups = h.dups or h.kind == 'set'

            def thunk():
                havoc()
                self.params.extend(params)
                k = self.choose(len(starts)) if len(starts) > 1 else 0
                c, fs, xs = starts[k]
                for f in fs:
                    self.assume(f)
                self.assume_branch(c)
                if any(x[0] != 'e' for x in xs):
                    raise Unsupported('loop over nested sequences')
                try:
                    for x in xs:
                        self.body_once(st, x[1])
                except Brk:
                    return 'exit', None
                except Ret:
                    return 'exit', None
                except PyRaise as r:
                    return 'exit', r.exc
                return 'next', None
            try:
                saved_sub = self.subn
                self.subn_salt = len(info['locs'])
                res = self.sub_salted(thunk, (key, tuple(sorted(info['locs']))))
            except AccFail as ex:
                info['fail'] = self.why()
                return False
            # which heap objects changed?
            grew = False
            for r in res:
                if r.out != 'next':
                    continue
                for oid, h in r.snap[0].items():
                    b = base[0].get(oid)
                    if b is None or ('h', oid) in info['locs']:
                        continue
                    if isinstance(h, HList) and segkey(h.segs) != segkey(b.segs):
                        info['locs'].add(('h', oid))
                        grew = True
                    elif isinstance(h, HZSet) and not z3.eq(h.t, b.t):
                        info['fail'] = self.why()
                        return False
                for k2, o in r.snap[1].items():
                    b = base[1].get(k2)
                    if b is not None and b.fields is not None and o.fields is not None and \
                            not same_fields(o, b):
                        info['fail'] = self.why()
                        return False
            if not grew:
                break
        for r in res:
            for w in r.snap[8][nw:]:
                self.written.append(w)
        nexts = [r for r in res if r.out == 'next']
        exits = [r for r in res if r.out == 'exit']
        # what does one iteration add?
        deltas = []
        old = {}
        for nm in sorted(names - targets):
            f = fr
            if nm in fr.nonlocals:
                f = fr.parent.find(nm)
            idx = [i for i, (g, _) in enumerate(base[5]) if g is f][0]
            if nm in base[5][idx][1]:
                o = base[5][idx][1][nm]
                old[('v', nm)] = (o, self.placeholder(o, nm), f, idx)
            else:
                old[('v', nm)] = (UNDEF, UNDEF, f, idx)
        for loc in sorted(info['locs']):
            old[loc] = (base[0][loc[1]].segs, Chunk(z3.Const('OLDSEQ!%d' % loc[1], SEQ), ('any',)))
        phs = set()
        for loc, o in old.items():
            ph = o[1]
            if isinstance(ph, Chunk):
                phs.add(tid(ph.t))
            elif isinstance(ph, SStr):
                phs.add(tid(ph.ps[0].t))
            elif isinstance(ph, (SInt, SBool)):
                phs.add(tid(ph.t))

        def clean(x):
            ok = [True]

            def f(t):
                if mentions(t, phs):
                    ok[0] = False
            walk_terms(x, f)
            return ok[0]
        for r in res:
            if not all(clean(c) for c in r.conds):
                info['fail'] = self.why()
                return False
            if r.rfacts:
                info['fail'] = self.why()
                return False
        updates = {}
        for loc, o in old.items():
            cases = []
            if loc[0] == 'h':
                ph = o[1]
                for r in nexts:
                    segs = r.snap[0][loc[1]].segs
                    if not segs or segs[0] != ('c', ph) and not (
                            segs[0][0] == 'c' and z3.eq(segs[0][1].t, ph.t)):
                        info['fail'] = self.why()
                        return False
                    d = segs[1:]
                    if not clean(d):
                        info['fail'] = self.why()
                        return False
                    d = self.freeze_in(r, d, params)
                    cases.append((r.cond, r.facts, d))
                updates[loc] = ('list', cases)
            else:
                nm = loc[1]
                oldv, ph, f, idx = o
                finals = [r.snap[5][idx][1].get(nm, UNDEF) for r in nexts]
                if all(vkey(x) == vkey(ph) for x in finals):
                    updates[loc] = ('same', None)
                elif isinstance(oldv, Ref) and all(isinstance(x, Ref) and x.oid == oldv.oid
                                                   for x in finals):
                    updates[loc] = ('same', None)
                elif is_str(oldv):
                    for x, r in zip(finals, nexts):
                        ps = pieces(x) if is_str(x) else ()
                        if not ps or not isinstance(ps[0], Atom) or not z3.eq(ps[0].t, ph.ps[0].t) \
                                or not clean(rope(*ps[1:])):
                            cases = None
                            break
                        d = rope(*ps[1:])
                        cases.append((r.cond, r.facts, (('e', d),) if d != '' else ()))
                    updates[loc] = ('str', cases) if cases is not None else ('lost', None)
                elif is_bool(oldv):
                    for x, r in zip(finals, nexts):
                        if not is_bool(x):
                            cases = None
                            break
                        if vkey(x) == vkey(ph):
                            continue
                        if not clean(x):
                            cases = None
                            break
                        cases.append((r.cond, x))
                    updates[loc] = ('bool', cases) if cases is not None else ('lost', None)
                elif is_int(oldv):
                    for x, r in zip(finals, nexts):
                        if not is_int(x):
                            cases = None
                            break
                        d = z3.simplify(zint(x) - ph.t)
                        if mentions(d, phs):
                            cases = None
                            break
                        cases.append((r.cond, r.facts, d))
                    updates[loc] = ('int', cases) if cases is not None else ('lost', None)
                else:
                    updates[loc] = ('lost', None)
        # lost variables must not feed anything that survives
        for loc, u in updates.items():
            if u[0] == 'bool' and u[1]:
                if not all(x is True or x is False or (isinstance(x, SBool)) for _, x in u[1]):
                    info['fail'] = self.why()
                    return False
                vals = {vkey(x) for _, x in u[1]}
                if len(vals) != 1 or not isinstance(u[1][0][1], bool):
                    updates[loc] = ('lost', None)
        ch = seg[1]
        if exits:
            exitp = z3.Or([r.cond for r in exits])
            # facts of the exit paths are consequences of earlier code: keep them out of the predicate
            n_exit = self.count(ch, params, exitp)
            if self.branch(n_exit > 0):
                pre = Chunk(self.memo_const((ch, Lam(params, [(exitp, [], ())])), SEQ, 'PRE'), ch.et)
                post = Chunk(self.memo_const((ch, Lam(params, [(exitp, [], ())])), SEQ, 'POST'), ch.et)
                fs = []
                v = self.make(ch.et, lambda sf, so: self.memo_const(
                    (ch, Lam(params, [(exitp, [], ())])), so, 'PICK' + sf), fs)
                for f in fs:
                    self.assume(f)
                self.inherit(ch, pre)
                self.inherit(ch, post)
                self.define(ch, (('c', pre), ('e', v), ('c', post)))
                for fa in self.facts_of(ch.t):
                    for z in fa(flat_terms(v)):
                        self.assume(z)
                self.assume(self.count(pre, params, exitp) == 0)
                self.apply_updates(updates, old, pre, params)
                # the element that leaves the loop
                self.assume(zsub(exitp, self.bind(params, v)))
                if seg[0] == 'c':
                    img = (('e', v),)
                else:
                    img = self.apply_lam(seg[2], v)
                for x in img:
                    if x[0] == 'o':
                        if not self.branch(x[1]):
                            continue
                        for y in x[2]:
                            self.body_once(st, y[1])
                    else:
                        self.body_once(st, x[1])
                raise Stop()
        self.apply_updates(updates, old, ch, params)
        for t in targets:
            self.frames[-1].vars[t] = UNDEF
        return True

    def freeze_in(self, r, segs, params):
        """Freeze objects of a sub-exploration result."""
        save = (self.heap, self.objs, self.params)
        self.heap, self.objs = r.snap[0], r.snap[1]
        self.params = list(params)
        try:
            return tuple(('e', self.freeze(x[1])) if x[0] == 'e' else x for x in segs)
        finally:
            self.heap, self.objs, self.params = save

    def apply_updates(self, updates, old, ch, params):
        for loc, (kind, cases) in updates.items():
            if kind == 'same':
                continue
            if kind == 'list':
                h = self.heap[loc[1]]
                if any(d for _, _, d in cases):
                    h = self.wr(Ref(loc[1]))
                    h.segs = h.segs + (('f', ch, Lam(params, cases)),)
                    h.dups = h.dups or h.kind == 'set'
                continue
            oldv, ph, f, idx = old[loc]
            nm = loc[1]
            if kind == 'str':
                f.vars[nm] = rope(oldv, JoinP('', (('f', ch, Lam(params, cases)),)))
            elif kind == 'bool':
                if not cases:
                    continue
                v = cases[0][1]
                n = self.count(ch, params, z3.Or([c for c, _ in cases]))
                if v is True:
                    f.vars[nm] = SBool(z3.simplify(z3.Or(zbool(oldv), n > 0)))
                else:
                    f.vars[nm] = SBool(z3.simplify(z3.And(zbool(oldv), n == 0)))
            elif kind == 'int':
                total = []
                for c, fs, d in cases:
                    if z3.is_int_value(d):
                        total.append(d * self.count(ch, params, c))
                    else:
                        t = self.memo_const((ch, Lam(params, [(c, [], (('e', SInt(d)),))])), INT, 'SUM')
                        total.append(t)
                f.vars[nm] = SInt(z3.simplify(zint(oldv) + z3.Sum(total)))
            else:
                n = self.len_chunk(ch)
                if oldv is UNDEF:
                    f.vars[nm] = UNDEF
                else:
                    f.vars[nm] = UNDEF if not self.implied(n == 0) else oldv

    def placeholder(self, o, nm):
        if is_str(o):
            return rope(Atom(z3.Const('OLD!' + nm, STR)))
        if is_bool(o):
            return SBool(z3.Const('OLD!' + nm, BOOL))
        if is_int(o):
            return SInt(z3.Const('OLD!' + nm, INT))
        if isinstance(o, Ref):
            return o
        if o is UNDEF:
            return o
        return OldValue(nm)

    def sub_salted(self, thunk, salt):
        return self.sub(thunk, salt)

    # ---- general loops: invariants by elimination of candidates
    def loop_general(self, st, it):
        """while loop, or for loop over an iterator that the body may consume."""
        key = ('loop', self.cur, tuple(self.callstack), st.lineno, st.col_offset)
        info = self.persist.setdefault(key, {'dropped': set(), 'heap': set(), 'kinds': {},
                                             'objs': set(), 'measures': None, 'zsets': set(),
                                             'ghost': set()})
        fr = self.frames[-1]
        # try to unroll a few times when the condition is decided by constants
        if it is None:
            for _ in range(64):
                v = self.eval_pure_const(st.test)
                if v is None:
                    break
                if v is False:
                    return
                try:
                    self.exec_block(st.body)
                except Cont:
                    pass
                except Brk:
                    return
        names = self.assigned(st.body)
        if fr.func.closure is None:
            # variables that a function defined here assigns
            for n in ast.walk(fr.func.node):
                if isinstance(n, ast.Nonlocal):
                    names.update(x for x in n.names if x in fr.vars)
        else:
            for n in ast.walk(fr.func.node):
                if isinstance(n, ast.Nonlocal):
                    fr.nonlocals.update(n.names)
        if it is None:
            for n in ast.walk(st.test):
                if isinstance(n, ast.NamedExpr):
                    names.add(n.target.id)
        targets = set()
        if it is not None:
            for n in ast.walk(st.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
            info['heap'].add(it.oid) if it.oid in self.heap else None
        entry = LoopState(self, fr, names - targets, info)
        ctx = LoopCtx(self, st, it, info, entry)
        # candidates hold on entry
        cands = self.candidates_for(ctx)
        self.drop(info, cands, None)
        # arbitrary iteration
        self.havoc_loop(ctx)
        for c in cands:
            if c.name not in info['dropped']:
                c.assume(self)
        self.loop_live(ctx)
        meas0 = ctx.measures()
        if it is None:
            go = self.truth(self.eval(st.test))
        else:
            h = self.heap[it.oid]
            if h.raises and self.choose(2, 'iterator raises') == 1:
                raise PyRaise(self.external_exc('iteration'))
            r = self.pop_front(h.segs)
            go = r is not None
            if go:
                h.segs = r[1]
                self.assign(st.target, r[0])
            else:
                h.segs = ()
        if not go:
            for t in targets:
                fr.vars[t] = UNDEF if t not in fr.vars else fr.vars[t]
            return
        try:
            try:
                self.exec_block(st.body)
            except Cont:
                pass
        except Brk:
            return
        # end of the iteration
        self.loop_end(ctx, cands, meas0)
        raise Stop()

    def external_exc(self, what):
        return Exc(Exception, (), 'external: ' + what)

    def eval_pure_const(self, test):
        """True/False when the loop condition is decided without branching and by constants only."""
        try:
            with NoBranch(self):
                t = self.truth_term(self.eval(test))
        except (NeedBranch, PyRaise, Unsupported):
            return None
        if isinstance(t, bool):
            return t if self.const_loop(test) else (None if t else False)
        return False if self.implied(neg(t)) else None

    def const_loop(self, test):
        for n in ast.walk(test):
            if isinstance(n, ast.Name):
                f = self.frames[-1].find(n.id)
                if f is not None:
                    v = f.vars[n.id]
                    if not isinstance(v, (int, bool)):
                        if isinstance(v, ObjV) and self.info(v).cls is not None and self.info(v).fresh:
                            continue
                        return False
        return True

    def kind_of(self, v):
        if v is None:
            return 'none'
        if is_str(v):
            return 'str'
        if is_bool(v):
            return 'bool'
        if is_int(v):
            return 'int'
        if isinstance(v, ObjV):
            return 'obj'
        if isinstance(v, Ref):
            h = self.heap[v.oid]
            return 'ref:%d' % v.oid if not h.fresh or h.kind == 'iter' or True else h.kind
        if isinstance(v, CaseV):
            return 'case'
        if v is UNDEF:
            return 'undef'
        return 'other'

    def kinds_of(self, v):
        if isinstance(v, CaseV):
            out = set()
            for c, x in v.cases:
                if self.feasible(c):
                    out |= self.kinds_of(x)
            return out
        return {self.kind_of(v)}

    def havoc_loop(self, ctx):
        info, fr = ctx.info, ctx.frame
        ctx.havoced = {}
        for oid in sorted(info['heap']):
            if oid not in self.heap:
                continue
            h = self.heap[oid]
            if isinstance(h, HList):
                if h.kind == 'iter' and not self.expand(h.segs):
                    continue            # an exhausted iterator stays so
                et = self.elem_type(h.segs, info, ('h', oid))
                ch = self.fresh_chunk('loop', et)
                fa = self.common_foralls(h.segs)
                if fa:
                    self.foralls[tid(ch.t)] = fa
                h.segs = (('c', ch),)
                h.dups = h.dups or h.kind == 'set'
                self.len_chunk(ch)
            elif isinstance(h, HZSet):
                h.t = self.fresh('loopset', z3.SetSort(STR))
            else:
                raise Unsupported('dictionary updated in a loop')
        for k in sorted(info['objs']):
            # fields of an object changed in the loop
            tkey, fname = k
            i = self.objs.get(tkey)
            if i is None or i.fields is None:
                continue
            i.fields[fname] = self.havoc_value(fname, i.fields[fname], {self.kind_of(i.fields[fname])})
        for g in sorted(info['ghost']):
            if g in self.ghost:
                v = self.ghost[g]
                self.ghost[g] = self.havoc_value('ghost_' + g, v, {self.kind_of(v)})
        for nm in sorted(ctx.names):
            f = ctx.frame_of(nm)
            if nm not in f.vars:
                continue
            kinds = info['kinds'].setdefault(nm, set()) | self.kinds_of(f.vars[nm])
            info['kinds'][nm] = kinds
            f.vars[nm] = self.havoc_value(nm, f.vars[nm], kinds)

    def havoc_value(self, nm, v, kinds):
        alts = []
        for k in sorted(kinds):
            if k == 'none':
                alts.append(None)
            elif k == 'str':
                alts.append(rope(Atom(self.fresh(nm, STR))))
            elif k == 'int':
                alts.append(SInt(self.fresh(nm, INT)))
            elif k == 'bool':
                alts.append(SBool(self.fresh(nm, BOOL)))
            elif k == 'obj':
                o = ObjV(self.fresh(nm, OBJ))
                hook = self.functional.get('havoc_obj')
                if hook:
                    hook(self, o)
                else:
                    self.assume(z3.And(CLS(o.t) >= 1, CLS(o.t) <= len(self.program.classes)))
                alts.append(o)
            elif k.startswith('ref:'):
                oid = int(k[4:])
                if oid in self.heap:
                    alts.append(Ref(oid))
                else:
                    return UNDEF
            elif k == 'undef':
                return UNDEF
            else:
                return UNDEF
        if len(alts) == 1:
            return alts[0]
        if len(alts) == 2:
            b = self.fresh(nm + '_k', BOOL)
            return CaseV([(b, alts[0]), (z3.Not(b), alts[1])])
        t = self.fresh(nm + '_k', INT)
        self.assume(z3.And(t >= 0, t < len(alts)))
        return CaseV([(t == i, a) for i, a in enumerate(alts)])

    def elem_type(self, segs, info, loc):
        ets = info.setdefault('ets', {}).setdefault(loc, set())
        for s in self.expand(segs):
            if s[0] in 'cf' and s[0] == 'c':
                ets.add(s[1].et)
            elif s[0] == 'e':
                v = s[1]
                ets.add(self.et_of(v))
            else:
                ets.add(('any',))
        ets2 = {e for e in ets if e != ('any',)}
        if len(ets2) == 1:
            return list(ets2)[0]
        if not ets2:
            return T_STR
        if all(e[0] == 'obj' for e in ets2):
            return ('obj', tuple(sorted({c for e in ets2 for c in e[1]})))
        raise Unsupported('elements of different types in a list: %s' % (ets2,))

    def et_of(self, v):
        if is_str(v):
            return T_STR
        if is_int(v):
            return T_INT
        if is_bool(v):
            return T_BOOL
        if isinstance(v, ObjV):
            return ('obj', self.functional.get('node_classes', ()))
        if isinstance(v, tuple):
            return ('tup', tuple(self.et_of(x) for x in v))
        return ('any',)

    def common_foralls(self, segs):
        fas = None
        for s in self.expand(segs):
            if s[0] != 'c':
                return []
            f = self.facts_of(s[1].t)
            fas = f if fas is None else [x for x in fas if x in f]
        return list(fas or [])

    def candidates_for(self, ctx):
        out = []
        for t in self.loop_templates:
            out.extend(t(self, ctx))
        return out

    def loop_live(self, ctx):
        ctx.start_heap = {k: v.clone() for k, v in self.heap.items()}
        ctx.start_objs = {k: v.clone() for k, v in self.objs.items()}
        ctx.start_ghost = dict(self.ghost)

    def drop(self, info, cands, ctx):
        out = {nm for i, nm in self.dropping if i is info}
        # names are numbered per candidate, so that a path replayed later is numbered the same
        n, subn, bad = self.n, self.subn, []
        for i, c in enumerate(cands):
            if c.name in info['dropped'] or c.name in out:
                continue
            self.n, self.subn = n + 1000 * i, subn + 1000 * i
            if c.holds(self, ctx) != 'yes':
                bad.append(c.name)
        self.n, self.subn = n + 1000 * len(cands), subn + 1000 * len(cands)
        if bad and self.check() != z3.unsat:
            self.dropping = self.dropping + [(info, nm) for nm in bad]
            if os.environ.get('PYVC_DROP'):
                for c in cands:
                    if c.name in bad and os.environ['PYVC_DROP'] in c.name:
                        print('DROP', c.name, ctx and 'preserve' or 'entry', [(k, str(x)[:1500]) for k, x in self.pc if k == 'b' or 'COUNT' in str(x)])
            if not self.defer:
                raise Restart()

    def loop_end(self, ctx, cands, meas0):
        info = ctx.info
        changed = False
        for oid, h0 in ctx.start_heap.items():
            h = self.heap.get(oid)
            if h is None or oid in info['heap']:
                continue
            if isinstance(h, HList):
                if segkey(self.expand(h.segs)) != segkey(self.expand(h0.segs)):
                    info['heap'].add(oid)
                    changed = True
            elif isinstance(h, HZSet):
                if not isinstance(h0, HZSet) or not z3.eq(h.t, h0.t):
                    info['heap'].add(oid)
                    changed = True
        for oid in list(info['heap']):
            if oid in self.heap and isinstance(self.heap[oid], HList):
                ets = info.setdefault('ets', {}).setdefault(('h', oid), set())
                n = len(ets)
                for s in self.expand(self.heap[oid].segs):
                    if s[0] == 'e' and self.et_of(s[1]) != ('any',):
                        ets.add(self.et_of(s[1]))
                    elif s[0] == 'c' and s[1].et != ('any',):
                        ets.add(s[1].et)
                if len(ets) != n:
                    changed = True
        for k, i0 in ctx.start_objs.items():
            i = self.objs.get(k)
            if i is None or i0.fields is None or i.fields is None:
                continue
            for nm in i.fields:
                if nm in i0.fields and vkey(i.fields[nm]) != vkey(i0.fields[nm]) and \
                        (k, nm) not in info['objs']:
                    info['objs'].add((k, nm))
                    changed = True
        for g, v in self.ghost.items():
            if g != 'folds' and g in ctx.start_ghost and g not in info['ghost'] and \
                    not isinstance(v, (list, dict, set)) and vkey(v) != vkey(ctx.start_ghost[g]):
                info['ghost'].add(g)
                changed = True
        for nm in ctx.names:
            f = ctx.frame_of(nm)
            if nm in f.vars:
                v = f.vars[nm]
                ks = self.kinds_of(v)
                if nm in ctx.entry.vals and not ks <= info['kinds'].get(nm, set()):
                    new = set()
                    for k in ks:
                        if k.startswith('ref:') and int(k[4:]) not in ctx.start_heap:
                            new.add('undef')
                        else:
                            new.add(k)
                    if not new <= info['kinds'].get(nm, set()):
                        info['kinds'].setdefault(nm, set()).update(new)
                        changed = True
        if changed:
            raise Restart()
        self.drop(info, cands, ctx)
        # termination
        meas1 = ctx.measures()
        alive = info['measures']
        if alive is None:
            alive = info['measures'] = set(meas0)
        for m in sorted(alive):
            if m not in meas1 or not self.implied(z3.And(meas1[m] < meas0[m], meas0[m] >= 0)):
                alive.discard(m)
        if self.functional.get('check_termination', True):
            self.oblige('termination: %s, loop at line offset %d' % (
                self.callstack[-1] if self.callstack else self.cur, ctx.ordinal()), bool(alive),
                'no measure decreases in every iteration')

    # ================================================================ built-ins
    def to_str(self, v):
        v = self.force(v)
        if is_str(v):
            return v
        if v is None:
            return 'None'
        if isinstance(v, (bool, int, float)):
            return str(v)
        if isinstance(v, SBool):
            return rope(CaseP([(v.t, 'True'), (z3.Not(v.t), 'False')]))
        if isinstance(v, SInt):
            return rope(Atom(uf('INTSTR', INT, STR)(v.t)))
        if isinstance(v, (ObjV, RecV)):
            h = self.virtual.get('__str__')
            if h is not None:
                r = h(self, v, '__str__', ((), {}))
                if r is not NotImplemented:
                    return r
            cls = self.known_class(v)
            m = cls.find('__str__')
            if m is not None:
                return self.call_func(m, [('e', v)], {})
            return rope(Atom(uf('REPR', OBJ, STR)(v.t))) if isinstance(v, ObjV) else \
                rope(Atom(self.fresh('repr', STR)))
        if isinstance(v, Exc) and len(v.args) == 1 and is_str(self.force(v.args[0])) and not (
                isinstance(v.cls, Cls) and v.cls.find('__str__')):
            return self.force(v.args[0])
        if isinstance(v, Opaque) and v.tag == 'float':
            return rope(Atom(self.memo_const(v, STR, 'FLOATSTR')))
        if isinstance(v, (Exc, Opaque, Ref, tuple, STuple, Ext, PyType, Cls, Builtin)):
            return rope(Atom(self.fresh('text', STR)))
        raise Unsupported('str() of %r' % (v,))

    def call_type(self, t, pos, kw):
        args = [s[1] for s in pos]
        if t is str:
            return self.to_str(args[0]) if args else ''
        if t is bool:
            if not args:
                return False
            x = self.truth_term(args[0])
            return x if isinstance(x, bool) else SBool(z3.simplify(x))
        if t in (list, tuple, set):
            if t is set and not args and self.functional.get('string_sets'):
                return self.alloc(HZSet(z3.EmptySet(STR)))
            segs = self.consume(args[0], t is set) if args else ()
            if t is tuple:
                segs = self.expand(segs)
                if all(s[0] == 'e' for s in segs):
                    return tuple(s[1] for s in segs)
                return STuple(segs)
            if t is set and args and isinstance(args[0], Ref) and \
                    isinstance(self.heap[args[0].oid], HZSet):
                return self.alloc(HZSet(self.heap[args[0].oid].t))
            return self.new_list(segs, t.__name__)
        if t is int:
            v = self.force(args[0])
            if isinstance(v, (int, bool)):
                return int(v)
            if isinstance(v, SInt):
                return v
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    self.raise_(ValueError, 'int()')
            if is_str(v):
                z = self.zstr(v)
                if not self.branch(uf('ISDIGIT', STR, BOOL)(z)):
                    # other spellings int() accepts, or ValueError
                    if self.choose(2, 'int() raises') == 1:
                        self.raise_(ValueError, 'int()')
                    return SInt(uf('INTVAL', STR, INT)(z))
                r = uf('INTVAL', STR, INT)(z)
                self.assume(r >= 0)
                if self.functional.get('digits_may_fail', True):
                    pass
                return SInt(r)
            if v is None or isinstance(v, (ObjV, Ref)):
                self.raise_(TypeError, 'int()')
        if t is float:
            v = self.force(args[0])
            if isinstance(v, str):
                try:
                    return float(v)
                except ValueError:
                    self.raise_(ValueError, 'float()')
            if isinstance(v, Opaque) and v.tag == 'float':
                return v
            if is_str(v):
                if self.choose(2, 'float() raises') == 1:
                    self.assume(z3.Not(uf('ISFLOAT', STR, BOOL)(self.zstr(v))))
                    self.raise_(ValueError, 'float()')
                self.assume(uf('ISFLOAT', STR, BOOL)(self.zstr(v)))
                return Opaque('float', ('of', v))
        if t is type:
            return self.type_of(args[0])
        if t is dict:
            return self.alloc(HDict(()))
        raise Unsupported('%s() of %r' % (t.__name__, args))

    def type_of(self, v):
        v = self.force(v)
        if v is None:
            return PyType(type(None))
        if is_bool(v):
            return PyType(bool)
        if is_int(v):
            return PyType(int)
        if is_str(v):
            return PyType(str)
        if isinstance(v, (ObjV, RecV)):
            return self.known_class(v)
        if isinstance(v, Exc):
            return Opaque('class')
        if isinstance(v, Ref):
            return PyType({'list': list, 'set': set, 'zset': set, 'dict': dict}.get(
                self.heap[v.oid].kind, object))
        if isinstance(v, (tuple, STuple)):
            return PyType(tuple)
        raise Unsupported('type of %r' % (v,))

    def isinst_term(self, v, t):
        if isinstance(t, tuple):
            ts = [self.isinst_term(v, x) for x in t]
            if any(x is True for x in ts):
                return True
            ts = [x for x in ts if x is not False]
            return z3.Or([zb(x) for x in ts]) if ts else False
        if isinstance(v, CaseV):
            return self.or_cases(v, lambda x: self.isinst_term(x, t))
        if isinstance(t, PyType):
            if isinstance(v, Opaque) and v.tag == 'float':
                return t.t in (float, object)
            if v is None:
                return t.t in (type(None), object)
            if is_bool(v):
                return t.t in (bool, int, object)
            if is_int(v):
                return t.t in (int, object)
            if is_str(v):
                return t.t in (str, object)
            if isinstance(v, float):
                return t.t in (float, object)
            if isinstance(v, (ObjV, RecV)):
                return t.t is object
            if isinstance(v, Ref):
                k = self.heap[v.oid].kind
                return t.t is object or {'list': list, 'set': set, 'zset': set,
                                         'dict': dict}.get(k) is t.t
            if isinstance(v, (tuple, STuple)):
                return t.t in (tuple, object)
        if isinstance(t, Cls):
            if isinstance(v, RecV):
                return v.cls.issub(t)
            if isinstance(v, ObjV):
                i = self.info(v)
                if i.cls is not None:
                    return i.cls.issub(t)
                ids = [c.id for c in self.program.classes if c.issub(t)]
                return z3.Or([CLS(v.t) == k for k in ids])
            return False
        if isinstance(t, type) and isinstance(v, Exc):
            return v.isinst(t)
        raise Unsupported('isinstance(%r, %r)' % (v, t))

    def bi_isinstance(self, v, t):
        t = self.force(t)
        r = self.isinst_term(v, t)
        return r if isinstance(r, bool) else SBool(z3.simplify(r))

    def bi_hasattr(self, v, name):
        v = self.force(v)
        if isinstance(v, ObjV):
            i = self.info(v)
            if i.cls is None:
                cs = self.candidates(v)
                yes = [c for c in cs if self.cls_has(c, name)]
                if len(yes) == len(cs):
                    return True
                if not yes:
                    return False
                return SBool(z3.Or([CLS(v.t) == c.id for c in yes]))
            r = self.cls_has(i.cls, name)
            if not r:
                i = self.materialise(v)
                return name in i.fields
            return r
        if is_str(v):
            return hasattr('', name)
        if v is None:
            return hasattr(None, name)
        if is_int(v):
            return hasattr(0, name)
        if isinstance(v, RecV):
            return name in v.fields or self.cls_has(v.cls, name)
        raise Unsupported('hasattr of %r' % (v,))

    def cls_has(self, c, name):
        if c.find(name) is not None or c.find_const(name) is not None:
            return True
        if name in (self.schema.get(c.name) or {}):
            raise Unsupported('hasattr of a field')
        return False

    def bi_getattr(self, v, name, *d):
        if d:
            h = self.bi_hasattr(v, name)
            if not self.truth(h):
                return d[0]
        return self.get_attr(v, name)

    def bi_next(self, it, *default):
        it = self.force(it)
        if not isinstance(it, Ref) or self.heap[it.oid].kind != 'iter':
            if it is None or isinstance(it, Ref):
                self.raise_(TypeError, 'not an iterator')
            raise Unsupported('next of %r' % (it,))
        h = self.heap[it.oid]
        if h.raises and self.choose(2, 'iterator raises') == 1:
            raise PyRaise(self.external_exc('iteration'))
        r = self.pop_front(h.segs)
        h = self.heap[it.oid]
        if r is None:
            h.segs = ()
            if default:
                return default[0]
            self.raise_(StopIteration, 'next')
        h.segs = r[1]
        return r[0]

    def bi_iter(self, v):
        v = self.force(v)
        if isinstance(v, Ref) and self.heap[v.oid].kind == 'iter':
            return v
        return self.alloc(HList(self.segs_of(v), 'iter'))

    def bi_len(self, v):
        v = self.force(v)
        if isinstance(v, str):
            return len(v)
        if is_str(v):
            return SInt(self.len_text(v))
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HDict):
            return len(self.heap[v.oid].items)
        if isinstance(v, Ref) and self.heap[v.oid].kind == 'iter':
            self.raise_(TypeError, 'len of iterator')
        if v is None or isinstance(v, ObjV) or is_int(v):
            self.raise_(TypeError, 'object has no len()')
        n = self.len_segs(self.segs_of(v))
        if self.repeats(v):
            k = self.fresh('size', INT)
            self.assume(z3.And(k <= zint(n), k >= z3.If(zint(n) > 0, 1, 0)))
            return SInt(k)
        return n

    def len_text(self, v):
        ts = []
        for p in pieces(v):
            ts.append(z3.IntVal(len(p)) if isinstance(p, str) else z3.Length(self.zstr(rope(p))))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def bi_any(self, it):
        return self.anyall(it, True)

    def bi_all(self, it):
        return self.anyall(it, False)

    def anyall(self, it, is_any):
        segs = self.expand(self.consume(it, True))
        ts = []
        for s in segs:
            ts.append(self.any_seg(s, is_any))
        if is_any:
            if any(t is True for t in ts):
                return True
            ts = [t for t in ts if t is not False]
            if not ts:
                return False
            return SBool(z3.simplify(z3.Or([zb(t) for t in ts])))
        if any(t is False for t in ts):
            return False
        ts = [t for t in ts if t is not True]
        if not ts:
            return True
        return SBool(z3.simplify(z3.And([zb(t) for t in ts])))

    def any_seg(self, s, is_any):
        """bool / z3 Bool: some (every) element of the segment is true."""
        if s[0] == 'e':
            return self.truth_term(s[1])
        if s[0] == 'o':
            inner = [self.any_seg(x, is_any) for x in s[2]]
            t = z3.Or([zb(x) for x in inner]) if is_any else z3.And([zb(x) for x in inner])
            return z3.And(s[1], t) if is_any else z3.Implies(s[1], t)
        if s[0] == 'f':
            preds = []
            for c, fs, xs in s[2].cases:
                for x in xs:
                    t = self.any_seg(x, is_any)
                    preds.append(z3.And(c, zb(t) if is_any else z3.Not(zb(t))))
            p = z3.simplify(z3.Or(preds)) if preds else z3.BoolVal(False)
            n = self.count(s[1], s[2].params, p)
            return n > 0 if is_any else n == 0
        raise Unsupported('any() over an unknown sequence')

    def bi_map(self, f, it, *more):
        if more:
            raise Unsupported('map with several iterables')
        segs = self.consume(it)
        return self.new_list(self.flatmap(segs, lambda v: (('e', self.call(f, [('e', v)], {})),)),
                             'iter')

    def bi_filter(self, f, it):
        segs = self.consume(it)
        return self.new_list(self.flatmap(
            segs, lambda v: (('e', v),) if self.truth(v if f is None else self.call(
                f, [('e', v)], {})) else ()), 'iter')

    def bi_zip(self, *its):
        segs = [self.expand(self.consume(i)) for i in its]
        if all(s[0] == 'e' for x in segs for s in x):
            return self.new_list([('e', t) for t in zip(*[[s[1] for s in x] for x in segs])], 'iter')
        raise Unsupported('zip of unknown sequences')

    def bi_enumerate(self, it):
        segs = self.expand(self.consume(it))
        if all(s[0] == 'e' for s in segs):
            return self.new_list([('e', (i, s[1])) for i, s in enumerate(segs)], 'iter')
        raise Unsupported('enumerate of an unknown sequence')

    def bi_range(self, *a):
        if all(isinstance(x, int) for x in a):
            return tuple(range(*a))
        raise Unsupported('range')

    def bi_sorted(self, it, key=None, reverse=False):
        segs = self.expand(self.consume(it))
        if not all(s[0] == 'e' for s in segs):
            raise Unsupported('sorted of an unknown sequence')
        keys = [s[1] if key is None else self.call(key, [('e', s[1])], {}) for s in segs]
        vals = [s[1] for s in segs]
        if all(isinstance(k, (int, str)) for k in keys):
            order = sorted(range(len(vals)), key=lambda i: keys[i], reverse=bool(reverse))
            return self.new_list([('e', vals[i]) for i in order])
        if not all(is_int(k) for k in keys) or reverse:
            raise Unsupported('sorted by symbolic keys')
        # insertion sort, stable
        out = []
        for k, v in zip(keys, vals):
            i = len(out)
            while i > 0 and self.branch(zint(k) < zint(out[i - 1][0])):
                i -= 1
            out.insert(i, (k, v))
        return self.new_list([('e', v) for _, v in out])

    def bi_min(self, *a, key=None, default=None):
        if key is None and len(a) > 1 and all(is_int(x) for x in a):
            r = a[0]
            for x in a[1:]:
                if self.branch(zint(x) < zint(r)):
                    r = x
            return r
        raise Unsupported('min')

    def bi_max(self, *a, key=None, default=None):
        if key is None and len(a) > 1 and all(is_int(x) for x in a):
            r = a[0]
            for x in a[1:]:
                if self.branch(zint(x) > zint(r)):
                    r = x
            return r
        raise Unsupported('max')

    def bi_sum(self, it):
        segs = self.expand(self.consume(it))
        if all(s[0] == 'e' for s in segs):
            r = 0
            for s in segs:
                r = self.binop(ast.Add(), r, s[1])
            return r
        raise Unsupported('sum')

    def bi_abs(self, v):
        if isinstance(v, int):
            return abs(v)
        return SInt(z3.If(zint(v) < 0, -zint(v), zint(v)))

    def bi_repr(self, v):
        return rope(Atom(self.fresh('repr', STR)))

    def bi_hash(self, v):
        return SInt(self.fresh('hash', INT))

    def bi_print(self, *a, **k):
        for x in a:
            self.to_str(x)
        return None

    def bi_object___init__(self, *a):
        return None

    # ---- list / set methods
    def narrow(self, v):
        """Drop the cases of a value that are impossible on this path."""
        if not isinstance(v, CaseV):
            return v
        cases = [(c, x) for c, x in v.cases if self.feasible(c)]
        if len(cases) == 1:
            return self.narrow(cases[0][1])
        if cases and all(is_str(x) for _, x in cases):
            return rope(CaseP(cases))
        return CaseV(cases) if cases else v

    def bi_list_append(self, r, v):
        v = self.narrow(v)
        h = self.wr(r)
        h.segs = h.segs + (('e', v),)

    def bi_list_extend(self, r, v):
        segs = self.consume(v)
        h = self.wr(r)
        h.segs = h.segs + tuple(segs)

    def bi_list_insert(self, r, i, v):
        if i != 0:
            raise Unsupported('list.insert')
        h = self.wr(r)
        h.segs = (('e', v),) + h.segs

    def bi_list_pop(self, r, *i):
        h = self.heap[r.oid]
        if i and i[0] == 0:
            x = self.pop_front(h.segs)
        elif not i or i[0] == -1:
            x = self.pop_back(h.segs)
        else:
            raise Unsupported('list.pop')
        if x is None:
            self.raise_(IndexError, 'pop from empty list')
        h = self.wr(r)
        h.segs = x[1]
        return x[0]

    def bi_list_copy(self, r):
        return self.new_list(self.heap[r.oid].segs)

    def bi_set_copy(self, r):
        return self.alloc(HList(self.heap[r.oid].segs, 'set', dups=self.heap[r.oid].dups))

    def union_dups(self, a, b):
        return a.dups if not b.segs else b.dups if not a.segs else True

    def bi_set_add(self, r, v):
        h = self.wr(r)
        if not h.segs and is_str(v) and self.functional.get('string_sets'):
            self.heap[r.oid] = HZSet(z3.SetAdd(z3.EmptySet(STR), self.zstr(v)), h.fresh)
            return
        h.dups = h.dups or bool(h.segs)
        h.segs = h.segs + (('e', v),)

    def bi_set_update(self, r, *vs):
        for v in vs:
            self.binop(ast.BitOr(), r, v if isinstance(v, Ref) and self.heap[v.oid].kind in (
                'set', 'zset') else self.new_list(self.consume(v, True), 'set'), inplace=True)

    def bi_set_union(self, r, *vs):
        for v in vs:
            r = self.binop(ast.BitOr(), r, v)
        return r

    def bi_zset_add(self, r, v):
        h = self.wr(r)
        h.t = z3.SetAdd(h.t, self.zstr(v))

    def bi_zset_update(self, r, *vs):
        for v in vs:
            self.binop(ast.BitOr(), r, v, inplace=True)

    def bi_zset_union(self, r, *vs):
        for v in vs:
            r = self.binop(ast.BitOr(), r, v)
        return r

    def bi_zset_copy(self, r):
        return self.alloc(HZSet(self.heap[r.oid].t))

    def bi_dict_get(self, r, k, d=None):
        for kk, x in self.heap[r.oid].items:
            if self.branch(zb(self.eq_term(k, kk))):
                return x
        return d

    # ---- string methods
    def bi_str_lower(self, s):
        return self.case_fn('lower', s)

    def bi_str_upper(self, s):
        return self.case_fn('upper', s)

    def bi_str_format(self, s, *a, **k):
        if not isinstance(s, str):
            raise Unsupported('format on a symbolic template')
        import string
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if spec:
                raise Unsupported('format spec')
            if field == '':
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                raise Unsupported('format field %s' % field)
            parts.append(self.bi_repr(v) if conv == 'r' else self.to_str(v))
        return rope(*parts)

    def bi_str_join(self, sep, it):
        segs = self.expand(self.consume(it))
        for s in segs:
            if s[0] == 'e':
                if not is_str(self.force(s[1])):
                    self.raise_(TypeError, 'join of non-strings')
        segs = tuple(('e', self.force(s[1])) if s[0] == 'e' else s for s in segs)
        if all(s[0] == 'e' for s in segs):
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts.append(sep)
                parts.append(s[1])
            return rope(*parts)
        return rope(JoinP(sep, segs))

    def bi_str_replace(self, s, a, b):
        if not (isinstance(a, str) and isinstance(b, str)):
            raise Unsupported('replace of symbolic text')
        if a == '.' and b == '' and isinstance(s, SStr):
            return rope(Atom(uf('NODOT', STR, STR)(self.zstr(s))))
        return replace_text(s, a, b)

    def bi_str_isdigit(self, s):
        if isinstance(s, str):
            return s.isdigit()
        return SBool(uf('ISDIGIT', STR, BOOL)(self.zstr(s)))

    def bi_str_startswith(self, s, p):
        p = self.force(p)
        if isinstance(p, tuple):
            t = [self.bi_str_startswith(s, x) for x in p]
            return SBool(z3.Or([zbool(x) for x in t]))
        if isinstance(s, str) and isinstance(p, str):
            return s.startswith(p)
        if isinstance(p, str) and isinstance(s, SStr) and isinstance(s.ps[0], str):
            lead = s.ps[0]
            if lead.startswith(p):
                return True
            if not p.startswith(lead):
                return False
            return self.bi_str_startswith(rope(*s.ps[1:]), p[len(lead):])
        return SBool(z3.simplify(z3.PrefixOf(self.zstr(p), self.zstr(s))))

    def bi_str_endswith(self, s, p):
        p = self.force(p)
        if isinstance(p, tuple):
            t = [self.bi_str_endswith(s, x) for x in p]
            return SBool(z3.Or([zbool(x) for x in t]))
        if isinstance(s, str) and isinstance(p, str):
            return s.endswith(p)
        if isinstance(p, str) and isinstance(s, SStr) and isinstance(s.ps[-1], str):
            last = s.ps[-1]
            if last.endswith(p):
                return True
            if not p.endswith(last):
                return False
            return self.bi_str_endswith(rope(*s.ps[:-1]), p[:-len(last)])
        return SBool(z3.simplify(z3.SuffixOf(self.zstr(p), self.zstr(s))))

    def bi_str_split(self, s, sep=None, maxsplit=-1):
        if isinstance(s, str) and (sep is None or isinstance(sep, str)):
            return self.new_list([('e', x) for x in s.split(sep, maxsplit)])
        if maxsplit == 1 and isinstance(sep, str):
            return Opaque('split1', (s, sep))
        if sep is None or maxsplit != -1:
            raise Unsupported('split')
        h = self.functional.get('split')
        if h:
            return h(self, s, sep)
        raise Unsupported('split of symbolic text')

    def bi_str_strip(self, s, *a):
        if isinstance(s, str):
            return s.strip(*a)
        if not a or (isinstance(a[0], str) and not strip_ws(a[0])):
            if not a:
                return rope(Atom(uf('STRIP', STR, STR)(self.zstr(s))))
            return rope(FnP('strip', s, ()))
        return rope(Atom(uf('STRIP_%s' % a[0], STR, STR)(self.zstr(s))))

    def bi_str_lstrip(self, s, *a):
        if isinstance(s, str):
            return s.lstrip(*a)
        if len(a) == 1 and isinstance(a[0], str):
            return rope(Atom(uf('LSTRIP ' + ''.join(sorted(set(a[0]))), STR, STR)(self.zstr(s))))
        return rope(Atom(uf('LSTRIP%r' % (a,), STR, STR)(self.zstr(s))))

    def bi_str_rstrip(self, s, *a):
        if isinstance(s, str):
            return s.rstrip(*a)
        return rope(Atom(uf('RSTRIP%r' % (a,), STR, STR)(self.zstr(s))))

    def bi_str_splitlines(self, s):
        if isinstance(s, str):
            return self.new_list([('e', x) for x in s.splitlines()])
        return Opaque('lines', s)

    def bi_str_index(self, s, sub):
        if isinstance(s, str) and isinstance(sub, str):
            if sub not in s:
                self.raise_(ValueError, 'substring not found')
            return s.index(sub)
        z, zs = self.zstr(s), self.zstr(sub)
        if not self.branch(z3.Contains(z, zs)):
            self.raise_(ValueError, 'substring not found')
        r = z3.IndexOf(z, zs, 0)
        self.assume(z3.And(r >= 0, r + z3.Length(zs) <= z3.Length(z)))
        return SInt(r)

    def bi_str_find(self, s, sub):
        if isinstance(s, str) and isinstance(sub, str):
            return s.find(sub)
        return SInt(z3.IndexOf(self.zstr(s), self.zstr(sub), 0))

    def bi_str_count(self, s, sub):
        if isinstance(s, str) and isinstance(sub, str):
            return s.count(sub)
        t = uf('STRCOUNT', STR, STR, INT)(self.zstr(s), self.zstr(sub))
        self.assume(t >= 0)
        return SInt(t)


class AccFail(Exception):
    pass


class NeedBranch(Exception):
    pass


class NoBranch:
    """Evaluation that must not branch."""

    def __init__(self, e):
        self.e = e

    def __enter__(self):
        self.snap = self.e.snapshot()
        self.e.branch = self.branch
        self.e.choose = self.choose

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        raise NeedBranch()

    def choose(self, n, label=''):
        if n == 1:
            return 0
        raise NeedBranch()

    def __exit__(self, *a):
        del self.e.branch
        del self.e.choose
        if a[0] is not None:
            self.e.frames = [f for f, _ in self.snap[5]]
            del self.e.callstack[self.snap[11]:]
        return False


class OldValue:
    """Value of a variable before a loop iteration, of a kind that is not tracked."""

    def __init__(self, nm):
        self.nm = nm


class LoopState:
    def __init__(self, e, fr, names, info):
        self.vals = {}
        for nm in names:
            f = fr
            if nm in fr.nonlocals and fr.parent is not None:
                f = fr.parent.find(nm) or fr
            if nm in f.vars:
                self.vals[nm] = f.vars[nm]
        self.heap = {k: v.clone() for k, v in e.heap.items()}
        self.ghost = dict(e.ghost)


class LoopCtx:
    def __init__(self, e, st, it, info, entry):
        self.e = e
        self.st = st
        self.it = it
        self.info = info
        self.entry = entry
        self.frame = e.frames[-1]
        self.names = set(entry.vals)
        for nm in e.assigned(st.body):
            self.names.add(nm)
        for n in ast.walk(self.frame.func.node):
            if isinstance(n, ast.Nonlocal):
                self.names.update(x for x in n.names if x in self.entry.vals)

    def frame_of(self, nm):
        if nm in self.frame.nonlocals and self.frame.parent is not None:
            return self.frame.parent.find(nm) or self.frame
        return self.frame

    def var(self, nm):
        return self.frame_of(nm).vars.get(nm, UNDEF)

    def ordinal(self):
        """Position of the loop among the loops of its function (stable under edits elsewhere)."""
        n = self.frame.func.node
        k = 0
        for x in ast.walk(n):
            if isinstance(x, (ast.While, ast.For)):
                if x is self.st:
                    return k
                k += 1
        return -1

    def measures(self):
        e = self.e
        out = {}
        its = []
        for oid in sorted(self.info['heap']):
            h = e.heap.get(oid)
            if isinstance(h, HList) and h.kind == 'iter':
                its.append(zint(e.len_segs(h.segs)))
        base = z3.Sum(its) if its else z3.IntVal(0)
        out['unread'] = base
        for nm in sorted(self.names):
            v = self.var(nm)
            if isinstance(v, CaseV) or v is None or is_str(v):
                try:
                    t = e.is_term(v, None)
                    some = z3.If(zb(t), z3.IntVal(0), z3.IntVal(1))
                    out['unread+' + nm] = base + some
                except Unsupported:
                    pass
            if is_str(v):
                out['len ' + nm] = z3.Length(e.zstr(v))
            elif isinstance(v, CaseV) and all(x is None or is_str(x) for _, x in v.cases):
                out['len ' + nm] = z3.Sum([z3.If(c, z3.Length(e.zstr(x)), z3.IntVal(0))
                                          for c, x in v.cases if x is not None])
            elif is_int(v):
                out['int ' + nm] = zint(v)
            elif isinstance(v, ObjV):
                out['depth ' + nm] = uf('DEPTH', OBJ, INT)(v.t)
        return out


def vkey_heap(h):
    if isinstance(h, HZSet):
        return tid(h.t)
    return tuple((vkey(k), vkey(v)) for k, v in h.items)


def same_fields(a, b):
    if (a.fields is None) != (b.fields is None):
        return False
    if a.fields is None:
        return True
    return set(a.fields) == set(b.fields) and all(vkey(a.fields[k]) == vkey(b.fields[k])
                                                  for k in a.fields)


_MENT = {}


def mentions(t, ids):
    key = (tid(t), frozenset(ids))
    r = _MENT.get(key)
    if r is None:
        r = tid(t) in ids or any(mentions(c, ids) for c in t.children())
        _MENT[key] = r
    return r


def neg(t):
    return (not t) if isinstance(t, bool) else z3.Not(t)
