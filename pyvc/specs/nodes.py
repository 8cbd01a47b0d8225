"""The shape of a query tree: which values the parser puts where.  The parameters of the constructors of
grammar/sql.py, by class."""
import z3

from ..engine import *
from ..interp import CLS, T_BOOL, T_INT, T_LIST, T_OBJ, T_OPT, T_STR, T_TUP, T_UNION
from ..values import *

# nodes that only occur in one place of a statement, never as an expression
CLAUSES = ('WhereClause', 'GroupByClause', 'HavingClause', 'OrderByClause', 'OrderByItem', 'LimitClause',
           'OffsetClause', 'WithQuery', 'OnClause', 'UsingClause', 'WindowFrameClause', 'Expression', 'SelectAllClause',
           'Addition')
NODES = ('SelectStatement', 'WithStatement', 'FunctionCall', 'CastFunctionCall', 'CountFunctionCall',
         'ArrayAggFunctionCall', 'FilteredFunctionCall', 'AnalyticsClause', 'Column', 'ChainedColumns', 'Type',
         'DatePartExtraction', 'String', 'Integer', 'Float', 'Null', 'Boolean', 'Parenthesis', 'Array', 'Alias',
         'Index', 'ArithmaticOperator', 'BitwiseOperation', 'Table', 'Unnest', 'Join', 'CombinedQueries', 'Condition',
         'BooleanCondition', 'Negation', 'ExceptClause', 'ReplaceClause', 'Case')
FROMS = ('Parenthesis', 'Table', 'Alias', 'CombinedQueries', 'Join', 'Unnest', 'SelectStatement', 'WithStatement')
NODE = T_OBJ(*NODES)
FROM = T_OBJ(*FROMS)
CALLS = ('FunctionCall', 'CastFunctionCall', 'CountFunctionCall', 'ArrayAggFunctionCall')
NODE_LIST = T_LIST(NODE, 'tuple')
ARGS = {'args': NODE_LIST}
VALUE = {'value': NODE}
TYPE = ('type',)
ALIAS = T_UNION(T_STR, NODE)

SCHEMA = {
    '_FieldInfo': {'name': T_STR, 'type': TYPE},
    'SelectStatement': {
        'expressions': T_LIST(NODE), 'select_all': T_BOOL, 'select_distinct': T_BOOL,
        'select_distinct_on': T_OPT(T_LIST(NODE)), 'from_statement': T_OPT(FROM),
        'where_clause': T_OPT(T_OBJ('WhereClause')), 'group_by_clause': T_OPT(T_OBJ('GroupByClause')),
        'having_clause': T_OPT(T_OBJ('HavingClause')), 'order_by_clause': T_OPT(T_OBJ('OrderByClause')),
        'limit_clause': T_OPT(T_OBJ('LimitClause')), 'offset_clause': T_OPT(T_OBJ('OffsetClause')),
        'semi_colon': T_BOOL},
    'WhereClause': VALUE, 'HavingClause': VALUE, 'OffsetClause': VALUE, 'OnClause': VALUE, 'UsingClause': VALUE,
    'GroupByClause': {'args': NODE_LIST, 'rollup': T_BOOL, 'group_each_by': T_BOOL},
    'OrderByClause': {'args': T_LIST(T_OBJ('OrderByItem'), 'tuple')},
    'OrderByItem': {'expression': NODE, 'has_asc': T_BOOL, 'has_desc': T_BOOL},
    'LimitClause': {'limit_all': T_BOOL, 'expression': T_OPT(NODE)},
    'WithQuery': {'name': T_STR, 'statement': T_OBJ('SelectStatement', 'WithStatement')},
    'WithStatement': {'with_queries': T_LIST(T_OBJ('WithQuery')), 'select_statement': T_OBJ('SelectStatement')},
    'FunctionCall': {'function_name': T_STR, 'args': NODE_LIST},
    'CountFunctionCall': {'args': NODE_LIST, 'distinct': T_BOOL},
    'CastFunctionCall': {'column': NODE, 'cast_type': T_OBJ('Type')},
    'ArrayAggFunctionCall': {'column': NODE, 'distinct': T_BOOL, 'ignore_nulls': T_BOOL, 'respect_nulls': T_BOOL,
                             'order_bys': T_OPT(T_OBJ('OrderByClause')), 'limit': T_OPT(T_INT)},
    'FilteredFunctionCall': {'function_call': T_OBJ(*CALLS), 'filter_condition': NODE},
    'AnalyticsClause': {'function': NODE, 'partition_by': T_OPT(T_LIST(NODE)),
                        'order_by': T_OPT(T_OBJ('OrderByClause')), 'frame_clause': T_OPT(T_OBJ('WindowFrameClause'))},
    'WindowFrameClause': {'rows_range': T_STR, 'frame': T_STR},
    'Column': {'value': T_STR}, 'ChainedColumns': ARGS, 'Type': {'value': T_STR},
    'DatePartExtraction': {'part': T_STR, 'date_expression': NODE},
    'String': {'value': ('lit',), 'quotes': T_STR, 'prefix': T_OPT(T_STR)},
    'Integer': {'value': T_INT}, 'Float': {'value': ('float',)}, 'Null': {}, 'Boolean': {'value': T_STR},
    'Parenthesis': ARGS, 'Array': ARGS,
    'Alias': {'expression': NODE, 'alias': ALIAS, 'with_as': T_BOOL},
    'Index': {'expression': NODE, 'indices': T_LIST(NODE)},
    'ArithmaticOperator': {'operator': T_STR, 'args': NODE_LIST},
    'BitwiseOperation': {'expression': NODE, 'predicate': T_STR, 'right_hand': NODE},
    'Table': {'value': NODE, 'in_square_brackets': T_BOOL},
    'Unnest': {'unnest_expression': NODE, 'with_offset': T_BOOL, 'with_offset_as': T_BOOL,
               'offset_alias': T_OPT(T_STR)},
    'Join': {'join_type': T_STR, 'left_from': FROM, 'right_from': FROM, 'on': T_OPT(T_OBJ('OnClause')),
             'using': T_OPT(T_OBJ('UsingClause'))},
    'CombinedQueries': {'set_operator': T_STR, 'left_query': FROM, 'right_query': FROM},
    'Condition': {'expression': NODE, 'predicate': T_STR, 'right_hand': NODE},
    'BooleanCondition': {'type': T_STR, 'args': NODE_LIST},
    'Negation': {'expression': NODE},
    'ExceptClause': {'expression': NODE, 'args': T_LIST(NODE)},
    'ReplaceClause': {'expression': NODE, 'args': T_LIST(T_OBJ('Alias'))},
    'Case': {'expression': T_OPT(NODE), 'when_then': T_LIST(T_TUP(NODE, NODE)), 'else_expression': T_OPT(NODE)},
}


def classes(program):
    """Classes a node may have."""
    return [program.cls(n) for n in NODES if program.cls(n) is not None]


def condition_facts(e, args):
    """BETWEEN is followed by the pair of its bounds."""
    r = args['right_hand']
    p = e.zstr(e.bi_str_lower(args['predicate']))
    yield z3.Implies(p == sval('between'), CLS(r.t) == e.program.cls('BooleanCondition').id)


def limit_facts(e, args):
    """LIMIT without ALL has an argument."""
    x = args['expression']
    none = next(c for c, v in x.cases if v is None)
    yield z3.Implies(z3.Not(args['limit_all'].t), z3.Not(none))


def nonempty(name):
    def facts(e, args):
        yield LENF()(e.segs_of(args[name])[0][1].t) >= 1
    return facts


def select_facts(e, args):
    """A parenthesised FROM item has content."""
    x = next(v for c, v in args['from_statement'].cases if v is not None)
    yield z3.Implies(CLS(x.t) == e.program.cls('Parenthesis').id, LENF()(uf('Parenthesis.args.q', OBJ, SEQ)(x.t)) >= 1)


def replace_facts(e, args):
    """What REPLACE names is an expression."""
    ch = e.segs_of(args['args'])[0][1]
    e.foralls.setdefault(tid(ch.t), []).append(lambda ps: [uf("Alias.alias.tag", OBJ, INT)(ps[0]) == 1])
    return ()


def install(e):
    e.schema.update(SCHEMA)
    e.functional['schema_facts'] = {'Condition': condition_facts, 'LimitClause': limit_facts,
                                    'ChainedColumns': nonempty('args'), 'SelectStatement': select_facts,
                                    'ReplaceClause': replace_facts}
