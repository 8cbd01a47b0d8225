"""Grammar-based generator of SELECT statements: lists of pieces (keywords in upper case, literals with their
quotes, anything else), rendered with random letter case of keywords and random blanks."""
from . import base

NAMES = ['a', 'b', 'c1', 'col', 'x_y', 'field', 'long_column_name_number_one', 'another_rather_long_name', 'tbl', 'é',
         'day_', 'e_1', 'fromage', 'ending', 'casex']
FUNCS = ['sum', 'max', 'coalesce', 'MyFunc', 'date_trunc', 'lower', 'concat_ws', 'if', 'row_number', 'timestamp_trunc']
CONTENT = ['', 'x', 'a b', 'From  Here', 'it, is; (ok', 'UPPER lower', 'case when', '%a%', "\\'esc\\'", '1', ' lead', 'trail ',
           'a.b', 'b) -- c', '[x', '=', '  ', '\t', 'select 1', 'é']
CMP = ['=', '>', '<', '<=', '>=', '<>']
ARITH = ['+', '-', '*', '/']
BITS = ['&', '^', '||', '<<', '>>']
JOINS = [['JOIN'], ['INNER', 'JOIN'], ['LEFT', 'JOIN'], ['LEFT', 'OUTER', 'JOIN'], ['FULL', 'OUTER', 'JOIN'],
         ['RIGHT', 'JOIN'], ['JOIN', 'EACH'], ['CROSS', 'JOIN'], [',']]
SETS = [['UNION'], ['UNION', 'ALL'], ['INTERSECT'], ['EXCEPT']]
CLAUSES = ('from', 'where', 'group', 'having', 'order', 'limit', 'offset')


def flatten(p):
    out = []
    for x in p:
        out.extend(flatten(x) if isinstance(x, list) else [x])
    return out


def sep(parts, s=','):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(s)
        out.append(p)
    return out


TIGHT = set('()[],.;+*/=<>')


class Gen:
    def __init__(self, rng, newlines=False, columns=None, simple=False):
        self.r = rng
        self.newlines = newlines
        self.names = columns or NAMES
        self.simple = simple
        self.strs, self.ints = base.mined()
        self.contents = CONTENT + [s for s in self.strs if not set(s) & set("'\"`\\\n")]
        self.idents = [s for s in self.strs if s.isidentifier() and s.islower() and len(s) > 2]

    # ---------------------------------------------------------- pieces
    def name(self):
        return self.r.choice(self.names)

    def literal(self, prefix=True):
        q = self.r.choice(['"', "'", "'", '`'])
        c = self.r.choice(self.contents)
        if self.newlines and self.r.chance(0.3):
            c = c + '\n' + self.r.choice(self.contents)
        if q == "'":
            c = c.replace('"', '')
        else:
            c = c.replace("\\'", '')
        p = self.r.choice(['', '', '', 'r', 'R']) if prefix and q != '`' else ''
        return p + q + c + q

    def column(self):
        k = self.r.random()
        if k < 0.6:
            return [self.name()]
        if k < 0.8:
            return [self.name(), '.', self.name()]
        if k < 0.88:
            return [self.name(), '.', self.name(), '.', self.name()]
        return [self.literal(prefix=False) if self.r.chance(0.4) else self.r.choice(['t', 'u'])]

    def number(self):
        k = self.r.random()
        if k < 0.6:
            return [str(self.r.choice([0, 1, 2, 3, 10, 88, 1000] + self.ints))]
        if k < 0.8:
            return [self.r.choice(['1.5', '0.25', '2.0'])]
        return ['-', str(self.r.choice([1, 7, 12]))]

    def atom(self, d):
        k = self.r.random()
        if d <= 0:
            k *= 0.62
        if k < 0.34:
            return self.column()
        if k < 0.44:
            return self.number()
        if k < 0.54:
            return [self.literal()]
        if k < 0.58:
            return [self.r.choice(['TRUE', 'FALSE', 'NULL'])]
        if k < 0.62:
            return [self.r.choice(['monday', 'current_date', 'b2'])]
        return self.r.choice([self.func, self.func, self.count, self.cast, self.array_agg, self.paren, self.paren,
                              self.array, self.indexed, self.case, self.subquery, self.over, self.filtered,
                              self.chained_call, self.extract])(d - 1)

    def func(self, d):
        n = self.r.choice([0, 1, 1, 2, 2, 3, 6])
        return [self.r.choice(FUNCS), '('] + sep([self.expr(d - 1) for _ in range(n)]) + [')']

    def chained_call(self, d):
        return [self.name(), '.', self.r.choice(FUNCS), '('] + self.expr(d - 1) + [')']

    def count(self, d):
        return ['COUNT', '('] + (['DISTINCT'] if self.r.chance(0.4) else []) + \
            self.r.choice([['*'], self.expr(d - 1)]) + [')']

    def cast(self, d):
        return ['CAST', '('] + self.operand(d - 1) + ['AS', self.r.choice(['INT64', 'STRING', 'DATE', 'FLOAT']), ')']

    def array_agg(self, d):
        p = ['ARRAY_AGG', '('] + (['DISTINCT'] if self.r.chance(0.3) else []) + self.column()
        if self.r.chance(0.5):
            p += [self.r.choice(['IGNORE', 'RESPECT']), 'NULLS']
        if self.r.chance(0.4):
            p += ['ORDER', 'BY'] + self.orders(d - 1)
        if self.r.chance(0.3):
            p += ['LIMIT', str(self.r.choice([0, 1, 2, 9]))]
        return p + [')']

    def extract(self, d):
        return ['EXTRACT', '(', self.r.choice(['DAY', 'MONTH', 'YEAR', 'DAYOFWEEK']), 'FROM'] + self.column() + [')']

    def paren(self, d):
        if self.r.chance(0.15):
            return ['('] + self.paren(d - 1) + [')']
        n = 1 if self.r.chance(0.85) else 2
        return ['('] + sep([self.cond(d - 1) for _ in range(n)]) + [')']

    def array(self, d):
        return ['['] + sep([self.operand(d - 1) for _ in range(self.r.randint(1, 3))]) + [']']

    def indexed(self, d):
        return [self.name(), '[', self.r.choice(['OFFSET', 'SAFE_OFFSET']), '('] + [str(self.r.randint(0, 3))] + [')', ']']

    def case(self, d):
        p = ['CASE']
        subject = self.r.chance(0.3)
        if subject:
            p += self.column()
        for _ in range(self.r.choice([1, 1, 2, 3])):
            when = self.operand(d - 1) if subject else self.cond(d - 1)
            while self.r.chance(0.3):
                when = ['('] + when + [')']
            p += ['WHEN'] + when + ['THEN'] + self.operand(d - 1)
        if self.r.chance(0.6):
            p += ['ELSE'] + self.operand(d - 1)
        return p + ['END']

    def subquery(self, d):
        return ['('] + self.select(d - 1) + [')']

    def over(self, d):
        p = [self.r.choice(FUNCS), '('] + ([] if self.r.chance(0.5) else self.column()) + [')', 'OVER', '(']
        if self.r.chance(0.6):
            p += ['PARTITION', 'BY'] + sep([self.column() for _ in range(self.r.randint(1, 3))])
        if self.r.chance(0.6):
            p += ['ORDER', 'BY'] + self.orders(d - 1)
            if self.r.chance(0.4):
                p += [self.r.choice(['ROWS', 'RANGE'])] + self.r.choice([
                    ['BETWEEN', 'UNBOUNDED', 'PRECEDING', 'AND', 'CURRENT', 'ROW'],
                    ['BETWEEN', '1', 'PRECEDING', 'AND', '2', 'FOLLOWING'],
                    ['BETWEEN', 'CURRENT', 'ROW', 'AND', 'UNBOUNDED', 'FOLLOWING'],
                    ['UNBOUNDED', 'PRECEDING'], ['CURRENT', 'ROW']])
        return p + [')']

    def filtered(self, d):
        return ['SUM', '('] + self.column() + [')', 'FILTER', '(', 'WHERE'] + self.cond(d - 1) + [')']

    def operand(self, d):
        if d > 0 and self.r.chance(0.25):
            return self.atom(d) + [self.r.choice(ARITH)] + self.operand(d - 1)
        return self.atom(d)

    def comparison(self, d):
        l = self.operand(d)
        k = self.r.random()
        if k < 0.45:
            return l + [self.r.choice(CMP)] + self.operand(d)
        if k < 0.55:
            return l + ['IS'] + (['NOT'] if self.r.chance(0.5) else []) + ['NULL']
        if k < 0.7:
            return l + (['NOT'] if self.r.chance(0.4) else []) + ['IN', '('] + \
                sep([self.operand(d - 1) for _ in range(self.r.randint(1, 3))]) + [')']
        if k < 0.8:
            return l + ['LIKE', self.literal()]
        return l + ['BETWEEN'] + self.operand(d) + ['AND'] + self.operand(d)

    def cond(self, d):
        k = self.r.random()
        if d <= 0 or k < 0.35:
            return self.comparison(d - 1)
        if k < 0.7:
            return self.comparison(d - 1) + [self.r.choice(['AND', 'OR'])] + self.cond(d - 1)
        if k < 0.8:
            return self.r.choice([['('] + self.cond(d - 1) + [')'], ['(', '('] + self.cond(d - 1) + [')', ')']])
        if k < 0.9:
            return ['(', self.cond(d - 1), ')', self.r.choice(['AND', 'OR'])] + self.cond(d - 1)
        return ['NOT', '('] + self.cond(d - 1) + [')']

    def expr(self, d):
        k = self.r.random()
        if k < 0.75:
            return self.operand(d)
        if k < 0.9:
            return self.cond(d)
        return self.atom(d - 1) + [self.r.choice(BITS)] + self.atom(d - 1)

    def select_expr(self, d):
        k = self.r.random()
        if k < 0.12:
            p = ['*']
            if self.r.chance(0.3):
                p += ['EXCEPT', '('] + sep([[self.name()] for _ in range(self.r.randint(1, 3))]) + [')']
            elif self.r.chance(0.3):
                p += ['REPLACE', '('] + sep([self.operand(d - 1) + ['AS', self.name()]
                                            for _ in range(self.r.randint(1, 2))]) + [')']
            return p
        p = self.expr(d)
        if self.r.chance(0.35):
            p = p + (['AS'] if self.r.chance(0.7) else []) + \
                [self.name() if self.r.chance(0.85) else self.literal(prefix=False)]
        return p

    def orders(self, d):
        return sep([self.operand(d) + self.r.choice([[], ['ASC'], ['DESC']])
                    for _ in range(self.r.choice([1, 1, 2, 3]))])

    def alias(self):
        if self.r.chance(0.4):
            return (['AS'] if self.r.chance(0.6) else []) + \
                [self.r.choice(['t', 'u', 'alias_1']) if self.r.chance(0.85) else '"q t"']
        return []

    def from_item(self, d):
        k = self.r.random()
        if d <= 0:
            k *= 0.6
        if k < 0.35:
            return [self.name()] + self.alias()
        if k < 0.45:
            return [self.name(), '.', self.name()] + self.alias()
        if k < 0.52:
            return [self.r.choice(['`p.d.t`', '"tab"'])] + self.alias()
        if k < 0.56:
            return ['[', 'proj:tbl', ']'] + self.alias()
        if k < 0.6:
            return ['UNNEST', '('] + self.column() + [')'] + self.alias() + (
                ['WITH', 'OFFSET'] + (['AS', 'o'] if self.r.chance(0.5) else []) if self.r.chance(0.4) else [])
        if k < 0.85:
            return ['('] + self.select(d - 1) + [')'] + self.alias()
        return ['('] + self.from_(d - 1) + [')'] + self.alias()

    def from_(self, d):
        k = self.r.random()
        p = self.from_item(d)
        if k < 0.55 or d <= 0:
            return p
        if k < 0.65:
            for _ in range(self.r.choice([1, 1, 2])):
                p = (['('] + self.select(d - 1) + [')']) if p is None else p
                p = p + self.r.choice(SETS) + ['('] + self.select(d - 1) + [')']
            return p
        joins = self.r.choice([1, 1, 2])
        for i in range(joins):
            j = self.r.choice(JOINS[:7] if i < joins - 1 else JOINS)
            p = p + j + self.from_item(d - 1)
            if j not in (['CROSS', 'JOIN'], [',']):
                p += self.r.choice([['ON'] + self.cond(d - 1), ['USING', '('] + sep(
                    [[self.name()] for _ in range(self.r.choice([1, 2]))]) + [')']])
        return p

    def clause(self, c, d):
        if c == 'from':
            return ['FROM'] + self.from_(d)
        if c == 'where':
            return ['WHERE'] + self.cond(d)
        if c == 'group':
            return ['GROUP'] + (['EACH'] if self.r.chance(0.1) else []) + ['BY'] + (
                ['ROLLUP', '('] + sep([self.column() for _ in range(2)]) + [')'] if self.r.chance(0.15) else
                sep([self.r.choice([self.column(), [str(self.r.randint(0, 4))], self.func(d - 1)])
                     for _ in range(self.r.choice([1, 1, 2, 3]))]))
        if c == 'having':
            return ['HAVING'] + self.cond(d)
        if c == 'order':
            return ['ORDER', 'BY'] + sep([self.r.choice([self.operand(d), [str(self.r.randint(0, 4))]]) +
                                          self.r.choice([[], ['ASC'], ['DESC']])
                                          for _ in range(self.r.choice([1, 1, 2, 3]))])
        if c == 'limit':
            return ['LIMIT'] + self.r.choice([['3'], ['0'], ['10'], ['(', '3', ')'], ['ALL'], ['-', '3'], ['a'],
                                              ["'3'"], ['1.5'], ['3', '+', '4'], ['(', '-', '3', ')'], ['(', '(', '3', ')', ')'],
                                              ['(', 'a', ')'], ['(', '1.5', ')'], ['(', '2', '+', '3', ')']])
        return ['OFFSET'] + self.r.choice([['3'], ['0'], ['(', '2', ')'], ['-', '2'], ['a'], ['2.5'], ['(', '-', '2', ')'],
                                           ['(', '(', '-', '2', ')', ')'], ['(', 'a', ')'], ['2', '*', '2']])

    def body(self, d):
        p = []
        if self.r.chance(0.08):
            p += ['ALL']
        elif self.r.chance(0.15):
            p += ['DISTINCT']
            if self.r.chance(0.3):
                p += ['ON', '('] + sep([self.column() for _ in range(self.r.randint(1, 2))]) + [')']
        return p + sep([self.select_expr(d) for _ in range(self.r.choice([1, 1, 2, 3, 5]))])

    def select(self, d, top=False):
        p = ['SELECT'] + self.body(d)
        for c in CLAUSES:
            if self.r.chance({'from': 0.75, 'where': 0.35}.get(c, 0.14)):
                p += self.clause(c, d)
        return p

    def statement(self, d=None):
        d = self.r.choice([0, 1, 2, 3]) if d is None else d
        p = []
        if self.r.chance(0.1):
            p += ['WITH'] + sep([[self.name(), 'AS', '('] + self.select(d - 1) + [')']
                                 for _ in range(1)])
        p = p + self.select(d)
        if self.r.chance(0.25):
            p += [';']
        return p

    # ---------------------------------------------------------- text
    def text(self, pieces, plain=False):
        pieces = flatten(pieces)
        out = []
        mode = self.r.random()
        for i, p in enumerate(pieces):
            if p.isupper() and len(p) > 1 and p.replace('_', '').isalnum() and not plain:
                k = self.r.random() if mode > 0.5 else mode
                p = p if k < 0.2 else p.lower() if k < 0.75 else p.capitalize()
            if out:
                a = out[-1][-1]
                word = (a.isalnum() or a in "_'\"`:") and (p[0].isalnum() or p[0] in "_'\"`")
                if pieces[i] == '.' or pieces[i - 1] == '.':
                    s = ''
                elif word or a in '|&^<>=-!' or p[0] in '|&^<>=-!':
                    s = self.r.choice([' ', ' ', ' ', '\n', '  ', '\t']) if not plain else ' '
                elif p == '(' and out[-1][-1].isalnum():
                    s = ''
                elif a in TIGHT or p[0] in TIGHT:
                    s = self.r.choice(['', '', ' ', '\n']) if not plain else ' '
                else:
                    s = ' '
                out.append(s)
            out.append(p)
        return ''.join(x for x in out)

    def sql(self, d=None):
        return self.text(self.statement(d))

    def clauses(self):
        d = self.r.choice([0, 1, 2])
        out = {'select': self.text(['SELECT'] + self.body(d))}
        for c in CLAUSES:
            if self.r.chance(0.5):
                out[c] = self.text(self.clause(c, d))
        return out


ATTRS = {'from': 'from_statement', 'where': 'where_clause', 'group': 'group_by_clause', 'having': 'having_clause',
         'order': 'order_by_clause', 'limit': 'limit_clause', 'offset': 'offset_clause'}


def dump(o, depth=0):
    """Structure of a query tree: class and attributes, recursively."""
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [dump(x, depth + 1) for x in o]
    if isinstance(o, (set, frozenset)):
        return ['set'] + sorted((repr(dump(x, depth + 1)) for x in o))
    if hasattr(o, '__dict__') and not isinstance(o, type):
        return [type(o).__name__] + [[k, dump(v, depth + 1)] for k, v in sorted(vars(o).items())]
    return repr(o)


def parse(sql):
    from sqlvalidator.grammar.lexer import SQLStatementParser
    from sqlvalidator.grammar.tokeniser import to_tokens
    return SQLStatementParser.parse(to_tokens(sql))


def try_parse(sql):
    try:
        return parse(sql)
    except Exception:
        return None


def judge_clauses(d):
    """Each clause of the whole query is what it is on its own."""
    whole = ' '.join([d['select']] + [d[c] for c in CLAUSES if c in d])
    tree = try_parse(whole)
    alone = {}
    for c in CLAUSES:
        if c in d:
            t = try_parse('select a ' + d[c])
            if t is None:
                return None
            alone[c] = dump(getattr(t, ATTRS[c]))
    t = try_parse(d['select'])
    if t is None:
        return None
    if tree is None:
        return ('clause', 'each clause of %r parses on its own, the whole does not' % whole)
    if dump(tree.expressions) != dump(t.expressions):
        return ('clause', 'SELECT list of %r: %r instead of %r' % (whole, tree.expressions, t.expressions))
    for c in CLAUSES:
        got = dump(getattr(tree, ATTRS[c]))
        if got != alone.get(c, dump(None)):
            return ('clause', '%s of %r: %r instead of %r' % (c, whole, got, alone.get(c)))


def smaller_clauses(d):
    for c in d:
        if c != 'select':
            yield {k: v for k, v in d.items() if k != c}
    for c in d:
        ws = d[c].split(' ')
        for i in range(1, len(ws)):
            yield dict(d, **{c: ' '.join(ws[:i] + ws[i + 1:])})


def smaller(t):
    """Shorter texts of a query, by words and then by characters."""
    ws = t.split(' ')
    k = len(ws) // 2
    while k >= 1:
        for i in range(0, len(ws) - k + 1, max(1, k // 2)):
            yield ' '.join(ws[:i] + ws[i + k:])
        k //= 2
    for i in range(len(t)):
        yield t[:i] + t[i + 1:]


def wild(rng, n, hints=()):
    """Queries: grammatical ones, and ones with tokens dropped, swapped, repeated or inserted."""
    for h in hints:
        yield h
    g = Gen(rng)
    extra = g.strs + ['(', ')', '[', ']', "'", '"', ',', ';', '.', '-', '*', '1', 'a', '']
    while True:
        p = flatten(g.statement())
        if rng.chance(0.6):
            for _ in range(rng.choice([1, 1, 2, 4])):
                i = rng.randrange(len(p))
                k = rng.random()
                if k < 0.3:
                    del p[i]
                elif k < 0.5:
                    p[i] = rng.choice(extra) or 'x'
                elif k < 0.7:
                    p.insert(i, rng.choice(extra) or 'x')
                elif k < 0.8:
                    p = p[:i]
                elif k < 0.9:
                    p.insert(i, rng.choice(p))
                else:
                    j = rng.randrange(len(p))
                    p[i], p[j] = p[j], p[i]
                if not p:
                    p = ['SELECT']
        yield g.text(p)
