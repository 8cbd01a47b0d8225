from . import val

RULE = ('generated statements over few column names, with subqueries, aliases, joins and given column sets; at every '
        'node of the parsed tree the errors the real code gives are compared with what the statement says; '
        'non-trivial: more than 15 characters')
cases, nontrivial, smaller = val.cases, val.nontrivial, val.smaller


def judge(c):
    return val.judge(c, 'C12')
