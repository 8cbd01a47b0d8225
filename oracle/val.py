"""What validation must report, written from the statements of C10, C11 and C12."""
from collections import Counter

from . import base, sqlgen, tree

NAMES = ['a', 'b', 'c1', 'd']
KNOWN = ['a', 'b', 'c1', 't.a', 'u.a', 't.b', 'u.c1', 't.*', 'u.*', '*', 't.u.a', 'd', 'v.d', 'A', '"q"', 'q']


def typename(t):
    return {'bool': bool, 'int': int, 'str': str, 'object': object, 'float': float}[t]


def fields(spec):
    from sqlvalidator.grammar.sql import _FieldInfo
    return {_FieldInfo(n, typename(t)) for n, t in spec}


def some_fields(rng):
    n = rng.choice([0, 1, 2, 3, 5])
    names = rng.sample(KNOWN, n)
    if names and rng.random() < 0.2:
        names.append(names[0])  # offered with two types
    return [[k, rng.choice(['bool', 'int', 'str', 'object'])] for k in names]


def kind(o):
    return type(o).__name__


def strip(o):
    while kind(o) == 'Parenthesis' and len(o.args) == 1:
        o = o.args[0]
    return o


def parts(o, known):
    """(part, known columns) whose errors are errors of o; None when the statement says nothing."""
    k = kind(o)
    if k == 'SelectStatement':
        vis = visible(o, known)
        r = [(e, (vis,)) for e in o.expressions]
        if o.from_statement:
            r.append((o.from_statement, (set(),)))
        for c in (o.where_clause, o.having_clause, o.limit_clause, o.offset_clause):
            if c:
                r.append((c, (vis,)))
        for c in (o.group_by_clause, o.order_by_clause):
            if c:
                r.append((c, (vis, o.expressions)))
        return r
    if k in ('WhereClause', 'HavingClause'):
        return [(o.value, known)]
    if k in ('FunctionCall', 'CountFunctionCall', 'ArrayAggFunctionCall'):
        return [(a, known) for a in o.args]
    if k == 'CastFunctionCall':
        return [(o.args[0], known)]
    if k == 'FilteredFunctionCall':
        return [(o.function_call, known), (o.filter_condition, known)]
    if k == 'AnalyticsClause':
        return [(o.function, known)] + [(p, known) for p in o.partition_by or ()] + (
            [(i, (known[0], None)) for i in o.order_by.args] if o.order_by else [])
    if k == 'Parenthesis':
        return [(a, known) for a in o.args]
    if k == 'Alias':
        return [(o.expression, known)]
    if k == 'Condition':
        if o.predicate.lower() == 'between':
            return [(o.value, known)] + [(a, known) for a in o.right_hand.args]
        return [(o.value, known), (o.right_hand, known)]
    if k == 'BooleanCondition':
        return [(a, known) for a in o.args]
    if k == 'OrderByClause':
        return [(i, known) for i in o.args]
    if k == 'OrderByItem':
        v = strip(o.value)
        if kind(v) == 'Integer' or kind(v) == 'Column' and known[1] is not None and v.value in select_aliases(known[1]):
            return []
        return [(o.value, known[:1])]
    if k == 'Join':
        return [(o.left_from, known), (o.right_from, known)]
    if k == 'CombinedQueries':
        return [(o.left_query, known), (o.right_query, known)]
    if k == 'WithStatement':
        return [(q.statement, (set(),)) for q in o.with_queries] + [(o.select_statement, (set(),))]
    return None


def visible(o, known):
    vis = set(known[0]) if known else set()
    f = o.from_statement
    if f is not None and hasattr(f, 'known_fields'):
        vis |= f.known_fields
    return vis


def type_of(o, known):
    """Type of an expression when it is known, else object; None when the statement leaves it open."""
    k = kind(o)
    names = [f for f in known if f.name == ''.join(tree.toks(o))] if k in ('Column', 'ChainedColumns') else []
    if len(names) > 1:
        return object           # offered with several types
    if names:
        return names[0].type
    if k != 'Column' and any(base.nows(f.name) == base.nows(''.join(tree.toks(o))) for f in known):
        return None             # a visible column spelled like the expression
    if k in ('Condition', 'BooleanCondition', 'Negation', 'Boolean'):
        return bool
    if k in ('Integer',):
        return int
    if k == 'Float':
        return float
    if k == 'String':
        return str
    if k in ('Column', 'ChainedColumns', 'FunctionCall', 'CountFunctionCall', 'CastFunctionCall', 'Case', 'Index',
             'FilteredFunctionCall', 'AnalyticsClause', 'SelectStatement'):
        return object if k != 'ChainedColumns' else None if any(kind(c) != 'Column' for c in o.columns) else object
    if k == 'Parenthesis' and len(o.args) == 1:
        # the column in it may be known by the text of the whole parenthesis only
        t = type_of(o.args[0], known)
        return t if kind(strip(o)) not in ('Column', 'ChainedColumns') else None
    return None


def select_aliases(select):
    return [alias_name(e.alias) for e in select if kind(e) == 'Alias']


def last_column(e):
    while kind(e) == 'ChainedColumns':
        e = e.columns[-1]
    return e


def columns(o):
    """Names of the columns a FROM item makes visible; None: it is none."""
    k = kind(o)
    if k in ('Table', 'Unnest'):
        return {'*'}
    if k == 'Parenthesis':
        r = columns(o.args[0])
        return set() if r is None else r
    if k == 'Alias':
        r = columns(o.expression)
        a = o.alias if isinstance(o.alias, str) else ''.join(tree.toks(o.alias))
        return None if r is None else {a + '.' + n for n in r}
    if k == 'Join':
        a, b = columns(o.left_from), columns(o.right_from)
        return None if a is None or b is None else a | b
    if k == 'CombinedQueries':
        return columns(o.left_query)
    if k == 'WithStatement':
        return columns(o.select_statement)
    if k == 'SelectStatement':
        out = set()
        for e in o.expressions:
            c = last_column(e)
            if kind(c) == 'Column':
                out.add(c.value)
            elif kind(e) == 'Alias':
                out.add(alias_name(e.alias))
            elif kind(e) in ('ExceptClause', 'ReplaceClause'):
                out.add('*')
        f = o.from_statement
        if '*' in out and kind(f) == 'Parenthesis' and kind(f.args[0]) == 'SelectStatement':
            sub = columns(f.args[0])
            if '*' not in sub:
                out = (out - {'*'}) | sub
        return out
    return None


def from_items(o):
    """Everything below o that stands where FROM items stand."""
    for n in tree.walk(o):
        if kind(n) == 'SelectStatement' and n.from_statement is not None:
            yield n.from_statement
        if kind(n) == 'Join':
            yield n.left_from
            yield n.right_from


def check_columns(q):
    for f in from_items(q):
        want = columns(f)
        if want is None:
            continue
        try:
            got = {x.name for x in f.known_fields}
        except AttributeError:
            got = set()
        if got != want:
            return f, (), 'makes %r visible instead of %r' % (sorted(got), sorted(want))
    return None


def own_rules(o, known):
    """Number of errors of the clause rules (C11) o itself must give; None: not said."""
    k = kind(o)
    if k in ('WhereClause', 'HavingClause'):
        t = type_of(o.value, known[0])
        return None if t is None else int(t not in (bool, object))
    if k == 'BooleanCondition':
        ts = [type_of(a, known[0]) for a in o.args]
        return None if None in ts else sum(t not in (bool, object) for t in ts)
    if k in ('LimitClause', 'OffsetClause'):
        if getattr(o, 'limit_all', False):
            return 0
        v = strip(o.value)
        return int(not (kind(v) == 'Integer' and v.value >= 0))
    if k == 'OrderByItem':
        v = strip(o.value)
        return int(kind(v) == 'Integer' and known[1] is not None and not 1 <= v.value <= len(known[1]))
    if k == 'GroupByClause':
        vs = [strip(a) for a in o.args]
        return sum(kind(v) == 'Integer' and not 1 <= v.value <= len(known[1]) for v in vs)
    if k == 'Join':
        return int(not (o.join_type in ('CROSS JOIN', ',') or o.on or o.using))
    return 0


def own_columns(o, known):
    """Number of column errors (C12) o itself must give; None: not said."""
    k = kind(o)
    if k == 'Column':
        return int(column_state(o.value, known[0]) != 'ok' and o.value != '*')
    if k == 'ChainedColumns':
        names = {f.name for f in known[0]}
        full = ''.join(tree.toks(o))
        q = '.'.join(''.join(tree.toks(c)) for c in o.columns[:-1])
        return int(not ('*' in names or full in names or q + '.*' in names))
    if k == 'GroupByClause':
        aliases = select_aliases(known[1])
        n = 0
        for a in o.args:
            a = strip(a)
            if kind(a) in ('Column', 'String'):
                n += a.value not in aliases and column_state(a.value, known[0]) != 'ok'
        return n
    return 0


def alias_name(a):
    return a if isinstance(a, str) else a.value if kind(a) in ('Column', 'String') else ''.join(tree.toks(a))


def column_state(name, known):
    names = {f.name for f in known}
    if name in names or any(n == '*' or n.endswith('.*') for n in names):
        return 'ok'
    # distinct visible columns, whatever their types
    q = [f for f in known if f.name.split('.', 1)[-1] == name]
    return 'ok' if len(q) == 1 else 'missing' if not q else 'ambiguous'


def errors(o, known):
    if kind(o) in ('OrderByClause', 'OrderByItem', 'GroupByClause'):
        return o.validate(known[0], known[1])
    if kind(o) == 'SelectStatement':
        return o.validate(known[0]) if known else o.validate()
    if kind(o) == 'WithStatement':
        return o.validate()
    return o.validate(known[0])


def nodes(o, known):
    """Every node with the columns visible there."""
    yield o, known
    for p, k in parts(o, known) or ():
        yield from nodes(p, k)
    # clauses of joins and other parts whose errors the statements leave open are not visited


# hand columns and select lists down
HANDED = ('SelectStatement', 'AnalyticsClause', 'WithStatement')


def check(o, known, rules):
    """First disagreement between the errors o gives and the statement, at any node."""
    for n, k in nodes(o, known):
        if rules != 'C10' and kind(n) not in OWN and kind(n) not in HANDED:
            continue
        try:
            got = Counter(errors(n, k))
        except Exception as x:
            continue            # C20
        ps = parts(n, k)
        below = Counter()
        try:
            for p, kk in ps or ():
                below.update(errors(p, kk))
        except Exception:
            continue
        if rules == 'C10':
            if ps is not None and below - got:
                return n, k, 'does not report %r' % sorted((below - got).elements())
            continue
        if kind(n) in HANDED:
            # what its parts say of the columns and of the select list handed to them, and nothing else
            if ps is None:
                continue
            wrong = sorted(x for x in ((below - got) + (got - below)).elements()
                           if ('column' in x.lower()) == (rules == 'C12'))
            if wrong:
                return n, k, 'has %r, its parts have %r' % (sorted(got.elements()), sorted(below.elements()))
            continue
        a, b = own_rules(n, k), own_columns(n, k)
        if a is None or b is None or below - got:
            continue
        count = sum(got.values()) - sum(below.values())
        if count != a + b:
            mine = 'C12' if kind(n) in ('Column', 'ChainedColumns') else 'C11'
            if kind(n) == 'GroupByClause':
                mine = 'C11' if group_ints_wrong(n, k) else 'C12'
            if mine == rules:
                return n, k, 'gives %d errors of its own (%r), not %d' % (count, sorted((got - below).elements()), a + b)
    return None


def group_ints_wrong(n, k):
    for a in n.args:
        if kind(strip(a)) == 'Integer':
            one = type(n)(a, rollup=n.rollup)
            if len(errors(one, k)) != own_rules(one, k):
                return True
    return False


OWN = {'WhereClause', 'HavingClause', 'BooleanCondition', 'LimitClause', 'OffsetClause', 'OrderByItem', 'GroupByClause',
       'Join', 'Column', 'ChainedColumns'}
INNER = ['a', 'b', 'c1', 'd', 'a AS b', 'a c1', 'TRUE AS d', '1 AS a', '2 b', "'x' AS c1", 'a = 1 AS d', '*', 't.a', 'a AS "q"',
         'count(a) AS d', '(a) AS b', 'a + 1 AS b', 'FALSE a', '1.5 AS d']


class VGen(sqlgen.Gen):
    """Statements over few column names, with subqueries that make columns known."""

    def __init__(self, rng):
        super().__init__(rng, columns=NAMES)

    def column(self):
        k = self.r.random()
        if k < 0.6:
            return [self.name()]
        if k < 0.85:
            return [self.r.choice(['t', 'u', 'v']), '.', self.name()]
        if k < 0.9:
            return ['t', '.', 'u', '.', self.name()]
        return [self.r.choice(['*', 'q', '"q"', '`a`', 'A'])]

    def inner(self, d):
        if d > 0 and self.r.chance(0.2):
            return ['('] + self.select(d - 1) + [')']
        es = [self.r.choice(INNER) for _ in range(self.r.choice([1, 1, 2, 3]))]
        return ['(', 'SELECT'] + sqlgen.sep([[e] for e in es]) + ['FROM', 'tab'] + self.r.choice(
            [[], [], ['LIMIT', '-', '1'], ['WHERE', '1']]) + [')']

    def alias(self):
        return self.r.choice([[], ['AS', 't'], ['t'], ['AS', 'u'], ['v'], ['"q"']])

    def from_item(self, d):
        k = self.r.random()
        if k < 0.65:
            return self.inner(d) + self.alias()
        return super().from_item(min(d, 1))

    def from_(self, d):
        p = self.from_item(d)
        for _ in range(self.r.choice([0, 0, 1, 1, 2])):
            j = self.r.choice(sqlgen.JOINS[:7])
            p = p + j + self.from_item(d)
            k = self.r.random()
            if k < 0.5:
                p += ['ON', 't', '.', 'a', '=', 'u', '.', 'a']
            elif k < 0.85:
                p += ['USING', '(', 'a', ')']
        if self.r.chance(0.1):
            p = p + self.r.choice(sqlgen.JOINS[7:]) + self.from_item(d)
        return p


def cases(rng, n, hints):
    """[query text, known columns of its clauses]"""
    for h in hints:
        yield [h, []]
    g = VGen(rng)
    w = sqlgen.Gen(rng)
    while True:
        k = rng.random()
        if k < 0.5:
            yield [g.text(g.statement()), []]
        elif k < 0.6:
            yield [w.text(w.statement()), []]
        elif k < 0.8:
            d = rng.choice([0, 1, 2])
            p = ['SELECT', g.select_expr(d)] + g.r.choice([[], [',', g.select_expr(d)]])
            for c in rng.sample(sqlgen.CLAUSES[1:], rng.choice([1, 2])):
                p += g.clause(c, d)
            yield [g.text(p), some_fields(rng)]
        else:
            d = rng.choice([0, 1])
            p = ['SELECT', g.expr(d)]
            cl = g.r.choice([['WHERE'] + g.cond(d), ['WHERE'] + g.operand(d), ['HAVING'] + g.operand(d),
                             ['WHERE'] + g.operand(d) + ['AND'] + g.operand(d),
                             ['GROUP', 'BY'] + sqlgen.sep([g.r.choice([g.column(), [str(rng.randint(0, 3))],
                                                                      ['('] + g.column() + [')']]) for _ in range(2)]),
                             ['LIMIT'] + g.r.choice([g.operand(d), ['(', '(', '2', ')', ')'], ['-', '0'], ['(', '1', ',', '2', ')']]),
                             ['OFFSET'] + g.r.choice([g.operand(d), ['(', '-', '2', ')'], ['(', '1', ',', '2', ')']]),
                             ['ORDER', 'BY'] + g.orders(d)])
            yield [g.text(p + cl), some_fields(rng)]


def nontrivial(c):
    return len(c[0]) > 15


def smaller(c):
    for i in range(len(c[1])):
        yield [c[0], c[1][:i] + c[1][i + 1:]]
    for t in sqlgen.smaller(c[0]):
        yield [t, c[1]]


def judge(c, rules):
    q = sqlgen.try_parse(c[0])
    if q is None:
        return None
    known = (fields(c[1]),) if kind(q) == 'SelectStatement' else ()
    r = check(q, known, rules) or (check_columns(q) if rules == 'C12' else None)
    if r is not None:
        n, k, what = r
        return (rules, 'in %r with columns %r: %s %r %s' % (
            c[0], sorted(f.name for f in (k[0] if k else ())), kind(n), ' '.join(tree.toks(n))[:120], what))
