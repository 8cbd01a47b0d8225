"""Two views of one query.  Texts are first read as values of an unknown sort (literals distinct, operations
unknown): what is unsatisfiable there is unsatisfiable.  Only when that view is satisfiable and an operation
on texts occurs, z3's string theory decides."""
import z3

STR = z3.StringSort()
U = z3.DeclareSort('TEXT')
CODE = z3.Function('CODE', U, z3.IntSort())
LENGTH = z3.Function('LENGTH', U, z3.IntSort())
_keep, _memo, _decl, _lit = [], {}, {}, {}
_inexact = {}


def sort_of(s):
    if s == STR:
        return U
    if s.kind() == z3.Z3_ARRAY_SORT:
        return z3.ArraySort(sort_of(s.domain()), sort_of(s.range()))
    return s


def convert(t):
    """(term over TEXT or None, exact?, axioms)"""
    i = t.get_id()
    r = _memo.get(i)
    if r is None:
        _keep.append(t)
        r = _memo[i] = _convert(t)
    return r


def _convert(t):
    if z3.is_quantifier(t) or z3.is_var(t):
        return None, False, ()
    if z3.is_string_value(t):
        k = t.as_string()
        if k not in _lit:
            c = z3.Const('lit%d' % len(_lit), U)
            _lit[k] = (c, (CODE(c) == len(_lit), LENGTH(c) == len_of(k)))
        return _lit[k][0], True, (k,)
    kids = [convert(c) for c in t.children()]
    if any(k[0] is None for k in kids):
        return None, False, ()
    args = [k[0] for k in kids]
    exact = all(k[1] for k in kids)
    lits = tuple({x for k in kids for x in k[2]})
    d = t.decl()
    kind = d.kind()
    if kind == z3.Z3_OP_UNINTERPRETED:
        doms = [d.domain(j) for j in range(d.arity())]
        if d.range() == sort_of(d.range()) and all(x == sort_of(x) for x in doms):
            return d(*args), exact, lits
        k = (d.name(),) + tuple(x.sexpr() for x in doms + [d.range()])
        if k not in _decl:
            _decl[k] = z3.Function(d.name() + '~', *[sort_of(x) for x in doms + [d.range()]]) if doms else \
                z3.Const(d.name() + '~', sort_of(d.range()))
        return (_decl[k](*args) if doms else _decl[k]), exact, lits
    if kind == z3.Z3_OP_SEQ_LENGTH and t.arg(0).sort() == STR:
        r = LENGTH(args[0])
        return r, False, lits + (('len', args[0]),)
    if any(c.sort() == STR for c in t.children()) or t.sort() == STR:
        if kind in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE, z3.Z3_OP_SELECT, z3.Z3_OP_STORE,
                    z3.Z3_OP_SET_UNION):
            if kind == z3.Z3_OP_EQ:
                return args[0] == args[1], exact, lits
            if kind == z3.Z3_OP_DISTINCT:
                return z3.Distinct(*args), exact, lits
            if kind == z3.Z3_OP_ITE:
                return z3.If(*args), exact, lits
            if kind == z3.Z3_OP_SELECT:
                return z3.Select(*args), exact, lits
            return z3.Store(*args), exact, lits
        k = ('op', kind, d.name()) + tuple(x.sort().sexpr() for x in args) + (t.sort().sexpr(),)
        if k not in _decl:
            _decl[k] = z3.Function('%s~%d' % (d.name(), len(_decl)), *[x.sort() for x in args],
                                   sort_of(t.sort()))
        return _decl[k](*args), False, lits
    if any(sort_of(c.sort()) != c.sort() for c in t.children()) or sort_of(t.sort()) != t.sort():
        if kind == z3.Z3_OP_CONST_ARRAY:
            return z3.K(sort_of(t.sort().domain()), args[0]), exact, lits
        if kind == z3.Z3_OP_EQ:
            return args[0] == args[1], exact, lits
        if kind == z3.Z3_OP_ITE:
            return z3.If(*args), exact, lits
        return None, False, ()
    return (d(*args) if args else t), exact, lits


def len_of(k):
    # as_string() escapes characters outside printable ASCII as \u{..}
    n, i = 0, 0
    while i < len(k):
        if k.startswith('\\u{', i):
            i = k.index('}', i) + 1
        else:
            i += 1
        n += 1
    return n


class View:
    def __init__(self, m, abstract):
        self.m, self.abstract = m, abstract

    def eval(self, t, model_completion=False):
        if self.abstract:
            t = convert(t)[0]
            if t is None:
                raise z3.Z3Exception('no value')
        return self.m.eval(t, model_completion=model_completion)

    def __str__(self):
        return str(self.m)


class Solver:
    def __init__(self, view_first=False):
        self.view_first = view_first
        self.real = z3.Solver()
        self.view = z3.Solver()
        self.items = []             # [(exact, axiom keys)] with None marks for scopes
        self.inexact = 0
        self.known = []             # axiom keys asserted, per scope
        self.stack = []
        self.have = set()
        self.pending = []           # assertions the string solver has not seen, per scope
        self.used = None

    def set(self, k, v):
        self.real.set(k, v)
        self.view.set(k, v)

    def note(self, keys):
        for k in keys:
            kk = ('len', k[1].get_id()) if isinstance(k, tuple) else k
            if kk in self.have:
                continue
            self.have.add(kk)
            self.known.append(kk)
            if isinstance(k, tuple):
                n = LENGTH(k[1])
                self.note(('',))
                self.view.add(n >= 0, (n == 0) == (k[1] == _lit[''][0]))
            else:
                if k not in _lit:
                    convert(z3.StringVal(k))
                self.view.add(*_lit[k][1])

    def add(self, *cs):
        for c in cs:
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            self.real.add(c)
            t, exact, keys = convert(c)
            if t is None:
                self.inexact += 1
                continue
            self.note(keys)
            self.view.add(t)
            if not exact:
                self.inexact += 1

    def push(self):
        self.real.push()
        self.view.push()
        self.stack.append((self.inexact, len(self.known)))

    def pop(self):
        self.real.pop()
        self.view.pop()
        self.inexact, n = self.stack.pop()
        for k in self.known[n:]:
            self.have.discard(k)
        del self.known[n:]

    def check(self, *cs):
        conv = [convert(c) for c in cs]
        self.used = None
        exact = not self.inexact and all(ex for _, ex, _ in conv)
        if not self.view_first and not exact:
            r = self.real.check(*cs)
            if r == z3.sat:
                self.used = View(self.real.model(), False)
            if r != z3.unknown:
                return r
            return z3.unsat if self.look(conv) == z3.unsat else z3.unknown
        r = self.look(conv)
        if r == z3.unsat or r == z3.sat and exact:
            return r
        self.used = None
        r = self.real.check(*cs)
        if r == z3.sat:
            self.used = View(self.real.model(), False)
        return r

    def clear(self, *cs):
        if not self.view_first:
            return self.check(*cs) == z3.unsat
        return self.look([convert(c) for c in cs]) == z3.unsat

    def look(self, conv):
        self.view.push()
        n = len(self.known)
        try:
            for t, _, keys in conv:
                if t is not None:
                    self.note(keys)
                    self.view.add(t)
            r = self.view.check()
            if r == z3.sat:
                self.used = View(self.view.model(), True)
            return r
        finally:
            self.view.pop()
            for k in self.known[n:]:
                self.have.discard(k)
            del self.known[n:]

    def model(self):
        if self.used is None:
            raise z3.Z3Exception('no model')
        return self.used

    def reason_unknown(self):
        return None if self.used is None else ''

    def assertions(self):
        return self.real.assertions()

    def to_smt2(self):
        return self.real.to_smt2()
