"""The canonical sequence of the parts of a query tree, written from the statement of C05/C07 (not from the
rendering code): a list of tokens; a literal is one token with its quotes and prefix."""
import re

QUOTES = "'\"`"


def lst(items, s=','):
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(s)
        out += x
    return out


def words(text):
    return text.split()


def name(x):
    """An alias or a name: text or an expression."""
    return [x] if isinstance(x, str) else toks(x)


def toks(o, sub=False):
    if isinstance(o, str):
        return [o]
    return globals()['t_' + type(o).__name__](o) if type(o).__name__ not in ('SelectStatement', 'WithStatement') \
        else globals()['t_' + type(o).__name__](o, sub)


def many(xs, sub=False):
    return lst([toks(x, sub) for x in xs])


def t_SelectStatement(o, sub=False):
    r = ['SELECT']
    if o.select_all:
        r.append('ALL')
    elif o.select_distinct:
        r.append('DISTINCT')
        if o.select_distinct_on:
            r += ['ON', '('] + many(o.select_distinct_on) + [')']
    r += many(o.expressions)
    if o.from_statement:
        r += ['FROM'] + toks(o.from_statement)
    if o.where_clause:
        r += ['WHERE'] + toks(o.where_clause)
    if o.group_by_clause:
        r += ['GROUP'] + (['EACH'] if o.group_by_clause.group_each_by else []) + ['BY'] + toks(o.group_by_clause)
    if o.having_clause:
        r += ['HAVING'] + toks(o.having_clause)
    if o.order_by_clause:
        r += ['ORDER', 'BY'] + toks(o.order_by_clause)
    if o.limit_clause:
        r += ['LIMIT'] + toks(o.limit_clause)
    if o.offset_clause:
        r += ['OFFSET'] + toks(o.offset_clause)
    if o.semi_colon and not sub:
        r.append(';')
    return r


def t_WithStatement(o, sub=False):
    return ['WITH'] + lst([toks(q) for q in o.with_queries]) + toks(o.select_statement)


def t_WithQuery(o):
    return [o.name, 'AS', '('] + toks(o.statement, True) + [')']


def value(o):
    return toks(o.value)


t_WhereClause = t_HavingClause = t_OnClause = t_UsingClause = t_OffsetClause = value


def t_GroupByClause(o):
    return (['ROLLUP'] if o.rollup else []) + many(o.args)


def t_OrderByClause(o):
    return many(o.args)


def t_OrderByItem(o):
    return toks(o.value) + (['ASC'] if o.has_asc else ['DESC'] if o.has_desc else [])


def t_LimitClause(o):
    return ['ALL'] if o.limit_all else toks(o.value)


def t_FunctionCall(o):
    return [o.function_name.upper(), '('] + many(o.args) + [')']


def t_CastFunctionCall(o):
    return ['CAST', '('] + toks(o.args[0]) + ['AS'] + toks(o.args[2]) + [')']


def t_CountFunctionCall(o):
    return ['COUNT', '('] + (['DISTINCT'] if o.distinct else []) + many(o.args) + [')']


def t_ArrayAggFunctionCall(o):
    return ['ARRAY_AGG', '('] + (['DISTINCT'] if o.distinct else []) + toks(o.args[0]) + (
        ['IGNORE', 'NULLS'] if o.ignore_nulls else ['RESPECT', 'NULLS'] if o.respect_nulls else []) + (
        ['ORDER', 'BY'] + toks(o.order_bys) if o.order_bys else []) + (
        ['LIMIT', str(o.limit)] if o.limit is not None else []) + [')']


def t_FilteredFunctionCall(o):
    return toks(o.function_call) + ['FILTER', '(', 'WHERE'] + toks(o.filter_condition) + [')']


def t_AnalyticsClause(o):
    return toks(o.function) + ['OVER', '('] + (
        ['PARTITION', 'BY'] + many(o.partition_by) if o.partition_by else []) + (
        ['ORDER', 'BY'] + toks(o.order_by) if o.order_by else []) + (
        toks(o.frame_clause) if o.frame_clause else []) + [')']


def t_WindowFrameClause(o):
    return [o.rows_range.upper()] + re.findall(r"""'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|`[^`]*`|[^\s'"`]+""", o.frame, re.S)


def t_Column(o):
    return [o.value.upper() if o.value in o.KEYWORDS else o.value]


def t_ChainedColumns(o):
    return lst([toks(c) for c in o.columns], '.')


def t_Type(o):
    return [o.value.upper()]


def t_DatePartExtraction(o):
    return [o.part.upper(), 'FROM'] + toks(o.value)


def t_String(o):
    return [(o.prefix or '') + o.quotes + o.value + o.quotes]


def number(o):
    s = str(o.value)
    return ['-', s[1:]] if s.startswith('-') else [s]


t_Integer = t_Float = number


def t_Null(o):
    return ['NULL']


def t_Boolean(o):
    return ['TRUE' if o.value else 'FALSE']


def t_Parenthesis(o):
    return ['('] + many(o.args, True) + [')']


def t_Array(o):
    return ['['] + many(o.args) + [']']


def t_Alias(o):
    return toks(o.expression) + (['AS'] if o.with_as else []) + name(o.alias)


def t_Index(o):
    return toks(o.value) + ['['] + many(o.indices) + [']']


def t_ArithmaticOperator(o):
    return lst([toks(a) for a in o.args], o.operator)


t_Addition = t_ArithmaticOperator


def t_BitwiseOperation(o):
    return toks(o.value) + [o.predicate] + toks(o.right_hand)


def t_Table(o):
    t = toks(o.value)
    return ['['] + t + [']'] if o.in_square_brackets else t


def t_Unnest(o):
    r = toks(o.value)
    if o.with_offset:
        r += ['WITH', 'OFFSET']
        if o.offset_alias:
            r += (['AS'] if o.with_offset_as else []) + name(o.offset_alias)
    return r


def t_Join(o):
    return toks(o.left_from) + words(o.join_type.upper()) + toks(o.right_from) + (
        ['ON'] + toks(o.on) if o.on else ['USING'] + toks(o.using) if o.using else [])


def t_CombinedQueries(o):
    return toks(o.left_query) + words(o.set_operator.upper()) + toks(o.right_query)


def t_Condition(o):
    return toks(o.value) + words(o.predicate.upper()) + toks(o.right_hand)


def t_BooleanCondition(o):
    return lst([toks(a) for a in o.args], o.type.upper())


def t_Negation(o):
    return ['NOT'] + toks(o.value)


def t_ExceptClause(o):
    return toks(o.value) + ['EXCEPT', '('] + many(o.args) + [')']


def t_ReplaceClause(o):
    return toks(o.value) + ['REPLACE', '('] + many(o.args) + [')']


def t_Case(o):
    r = ['CASE'] + (toks(o.value) if o.value else [])
    for w, t in o.when_then:
        r += ['WHEN'] + toks(w) + ['THEN'] + toks(t)
    return r + (['ELSE'] + toks(o.else_expression) if o.else_expression else []) + ['END']


def walk(o, seen=None):
    """Every object of a tree."""
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from walk(x)
    elif hasattr(o, '__dict__') and not isinstance(o, type):
        yield o
        for v in vars(o).values():
            yield from walk(v)


def merge_literals(tokens):
    """Tokens of the tokeniser with each literal as one token; None when a literal is not closed."""
    out, i = [], 0
    while i < len(tokens):
        t = tokens[i]
        if t in QUOTES and t:
            if i + 1 < len(tokens) and tokens[i + 1] == t:
                out.append((t + t,))
                i += 2
            elif i + 2 < len(tokens) and tokens[i + 2] == t:
                out.append((t + tokens[i + 1] + t,))
                i += 3
            else:
                return None
            continue
        out.append(t)
        i += 1
    return out


def canonical(seq):
    """Comparable form: letter case outside literals, equal spellings of numbers and booleans."""
    out = []
    for t in seq:
        if isinstance(t, tuple):
            out.append(t[0])
            continue
        t = t.lower()
        if t.isdigit():
            t = str(int(t))
        elif t.replace('.', '').isdigit():
            try:
                t = str(float(t))
            except ValueError:
                pass
        t = {'yes': 'true', 'no': 'false'}.get(t, t)
        out.append(t)
    ends = (')', ']', ';', 'from', 'where', 'group', 'having', 'order', 'limit', 'offset', 'rows', 'range')
    res = []
    out = [t for i, t in enumerate(out) if not (t == '-' and out[i + 1:i + 2] in (['0'], ['0.0']))]
    for t in reversed(out):
        if t == ',' and (not res or res[-1] in ends):
            continue
        res.append(t)
    return res[::-1]
