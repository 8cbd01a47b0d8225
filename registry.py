"""What each check verifies: tasks (spec module, task, budget in seconds), the obligations that decide the
property, and the concrete oracle."""


class Prop:
    def __init__(self, tasks, level='proof', only=None, skip=None, n=6000, cross=15, trusted=(),
                 assumptions=(), bounded=None, note=None, technique=None, shape=0):
        self.shape = shape          # seconds for checking the assumed shape of trees
        self.note, self.technique = note, technique
        self.tasks = tasks          # [(spec, task)]
        self.level = level
        self.only, self.skip = only, skip
        self.n, self.cross = n, cross
        self.trusted = list(trusted)
        self.assumptions = list(assumptions)
        self.bounded = bounded      # what stands in, bounded, for functions no contract reaches

    def mine(self, name):
        if self.only is not None and not any(x in name for x in self.only):
            return False
        return not (self.skip and any(x in name for x in self.skip))


BASE_TRUST = [
    'the verifier /verif/pyvc (symbolic execution of the Python AST of /repo, loop rule, rope theory)',
    'z3 (python3-vt z3-solver)',
]
TEXT_TRUST = ['str.split(sep): at least one piece, joined with sep they are the text, no piece holds sep, '
              'two or more exactly when sep occurs (cross-checked on CPython)',
              'str.join, endswith, startswith, truthiness, isdigit, replace: axioms of pyvc (cross-checked)']
GEN = ['generators are evaluated where they are created (they have no side effects)']
TERM = ('termination', 'shorter text')

COL = ('until_one_of', 'until_one_of_first', 'until_one_of_keep', 'until_one_of_first_keep',
       'until_one_of_quote_keep', 'closing', 'until_not_in')

# the command line: directories and inputs over the contract of analyse_file
RUN = ('analyse_file', 'analyse_dir', 'one_input', 'inputs', 'main')
OS_TRUST = ['os.path.abspath, join, isdir, isfile, os.walk: functions of their arguments during a run; open and write '
            'do or raise; print does not raise', 'argparse: a store_true switch is true exactly when given']
RUN_ASSUME = ['what compute_file_content returns for a file and the options asked for is a function of the absolute '
              'name (files do not change during a run other than by being written)',
              'KeyboardInterrupt and other exceptions that are not Exception end the run']
TOKEN_TRUST = ['tokenize.generate_tokens: ends with one ENDMARKER; a position identifies a token',
               'tokenize.untokenize: a function of the tokens']
VAL_TRUST = ['the shape of query trees (pyvc/specs/nodes.py: constructor parameters of every class); the oracle checks it '
             'on every tree the parser builds there',
             'methods of parts keep the contract of their own class (open recursion over the tree: a part is smaller)']
VAL_ASSUME = ['a tree that validation is asked about is finite',
              'RecursionError: depends on the depth of the stack']
REN = ('rest', 'case', 'calls', 'conditions', 'select', 'join')
WHOLE = ('clauses', 'group_by', 'calls', 'inner', 'select', 'with')
VAL = ('clauses', 'columns', 'inner', 'group_by', 'calls', 'select', 'with', 'rest', 'types', 'fields',
       'select_fields', 'resolve', 'strip', 'last', 'alias_name')
REN_TRUST = ['str.replace, upper, lower, format: removing the blanks of a text removes those of its parts; upper and lower '
             'leave blanks and one-line literals of other parts alone (cross-checked)',
             'len of a text and membership of a line break in it: any value (both branches are verified)']
REN_ASSUME = ['a tree that is rendered is finite',
              'the text of a part is known by its contract (induction over the tree); images under the two '
              'homomorphisms (all blanks removed; blanks outside literals removed) are compared',
              'RecursionError: depends on the depth of the stack']
PAR = ('expression', 'from', 'select', 'small', 'orderby', 'with', 'case', 'frame', 'unnest', 'string', 'list')
PAR_TRUST = ['tokens are compared up to letter case, and commas, closing brackets and semicolons are left out of the '
             'comparison (where a bracket closes is C04)',
             'int, float and str.lower of a token are equal spellings of it',
             'tokens come from the tokeniser: none of them is empty',
             'the tokens a node stands for: table TOKS of pyvc/specs/par.py, one entry per class']
PAR_ASSUME = ['the contract of each parser is used at its calls; calls are on fewer tokens, or on as many and of a parser of '
              'lower rank (the termination obligations, C03), so the induction is sound',
              'invariants at loops and between the top-level statements of long parsers are inferred (the strongest '
              'candidates that every arrival keeps) and then verified like any other',
              'RecursionError: depends on the depth of the stack']
LOCATED = ('located at', 'count of invalid')

PROPS = {
    'C01': Prop([('tok', 'lemma_shorter'), ('tok', 'split_with_escaping'), ('tok', 'first'),
                 ('tok', 'split_tokens'), ('tok', 'merge_stream')],
                skip=TERM, n=60000, cross=20, trusted=BASE_TRUST + TEXT_TRUST, assumptions=GEN),
    'C02': Prop([('tok', t) for t in ('lemma_shorter', 'split_with_escaping', 'first', 'literals', 'pieces',
                                      'lemma_unescaped', 'plain', 'lemma_plain', 'merged', 'lemma_merge')],
                skip=TERM, n=60000, cross=20, trusted=BASE_TRUST + TEXT_TRUST, assumptions=GEN),
    'C03': Prop([('tok', t) for t in ('lemma_shorter', 'split_with_escaping', 'first', 'split_tokens', 'merge_stream')] +
                [('col', t) for t in COL] + [('par', t) for t in PAR], only=TERM, n=60000, cross=20,
                trusted=BASE_TRUST + TEXT_TRUST, assumptions=GEN + PAR_ASSUME[1:]),
    'C04': Prop([('col', t) for t in COL], skip=TERM, n=60000, cross=20, trusted=BASE_TRUST, assumptions=GEN),
    'C05': Prop([('ren', t) for t in REN], only=('blanks aside', 'gives a text', 'raises no exception', 'termination'),
                n=30000, cross=15, shape=8, trusted=BASE_TRUST + VAL_TRUST + REN_TRUST, assumptions=REN_ASSUME),
    'C06': Prop([('ren', t) for t in REN], only=('every literal',), n=30000, cross=15, shape=8,
                trusted=BASE_TRUST + VAL_TRUST + REN_TRUST, assumptions=REN_ASSUME),
    'C07': Prop([('par', t) for t in PAR], skip=TERM, n=30000, cross=15, trusted=BASE_TRUST + PAR_TRUST,
                assumptions=GEN + PAR_ASSUME),
    'C08': Prop([('ren', t) for t in REN] + [('val', t) for t in VAL], only=('writes to nothing', 'are unchanged'),
                n=20000, cross=15, shape=8, trusted=BASE_TRUST + VAL_TRUST, assumptions=VAL_ASSUME + [
                    'no global or class state is written by rendering and validation (the verifier refuses such writes), '
                    'so the same call on the same tree gives the same result']),
    'C09': Prop([('fh', 'query')], n=4000, cross=20, trusted=BASE_TRUST, assumptions=[
        'parsing and validating are functions of the text (no hidden state): checked concretely here and by C08',
        'RecursionError of the parser escapes: it depends on the depth of the stack, not on the text alone']),
    'C13': Prop([('fh', t) for t in RUN], only=('is written', '--format a file', 'options', 'as asked', '_main'),
                n=4000, cross=20, trusted=BASE_TRUST + OS_TRUST, assumptions=RUN_ASSUME),
    'C14': Prop([('fh', t) for t in RUN + ('summaries',)], only=('num_', 'status', 'summary', 'totals', '_main',
                                                                 'options', 'as asked', 'one line'),
                n=4000, cross=20, trusted=BASE_TRUST + OS_TRUST, assumptions=RUN_ASSUME),
    'C15': Prop([('fh', t) for t in RUN], only=('seen', 'is read', 'file read', 'analysed, and no other', 'walked'),
                n=4000, cross=20, trusted=BASE_TRUST + OS_TRUST, assumptions=RUN_ASSUME),
    'C16': Prop([('fh', t) for t in RUN], only=('raises no exception', 'by its name', 'total over', 'no other',
                                                'that fails has been'),
                n=4000, cross=25, trusted=BASE_TRUST + OS_TRUST, assumptions=RUN_ASSUME),
    'C17': Prop([('fh', t) for t in ('content', 'string_token', 'is_select')], skip=TERM + LOCATED,
                n=20000, cross=20, trusted=BASE_TRUST + TOKEN_TRUST),
    'C18': Prop([('fh', t) for t in ('content', 'string_token')], skip=TERM,
                n=20000, cross=20, trusted=BASE_TRUST + TOKEN_TRUST),
    'C19': Prop([('fh', 'sql_string'), ('fh', 'query')], n=20000, cross=15, trusted=BASE_TRUST + TOKEN_TRUST, assumptions=[
        'a Python string token is prefix + quotes + body + quotes, and the body of a single-quoted token does not '
        'start with its quote']),
    'C10': Prop([('val', t) for t in WHOLE], only=('errors of', 'no other errors'), n=30000, cross=15, shape=8,
                trusted=BASE_TRUST + VAL_TRUST, assumptions=VAL_ASSUME),
    'C11': Prop([('val', t) for t in ('clauses', 'group_by', 'inner', 'types', 'resolve', 'strip', 'calls', 'select')],
                only=tuple('%s.validate: own errors' % c for c in (
                    'WhereClause', 'HavingClause', 'LimitClause', 'OffsetClause', 'OrderByClause', 'OrderByItem',
                    'GroupByClause', 'BooleanCondition', 'Join')) + ('return_type', 'strip_parentheses') + tuple(
                    'SelectStatement.validate: errors of ' + c for c in ('where', 'having', 'group', 'order', 'limit', 'offset')) +
                ('OrderByClause.validate: ', 'OrderByItem.validate: ', 'SelectStatement.validate: no errors of anything else',
                 'AnalyticsClause.validate: errors of ORDER BY', 'AnalyticsClause.validate: no errors of anything else'),
                n=30000, cross=15, trusted=BASE_TRUST + VAL_TRUST, assumptions=VAL_ASSUME),
    'C12': Prop([('val', t) for t in ('columns', 'alias_name', 'strip', 'last', 'fields', 'select_fields') + WHOLE],
                only=tuple('%s.validate: own errors' % c for c in ('Column', 'ChainedColumns', 'GroupByClause')) +
                ('get_alias_name', 'strip_parentheses', 'get_last_column', 'the columns are those', 'OrderByItem.validate: ', 'against the columns visible there'),
                n=30000, cross=15, trusted=BASE_TRUST + VAL_TRUST, assumptions=VAL_ASSUME),
    'C20': Prop([('val', t) for t in VAL],
                only=('raises no exception', 'gives a', 'termination'), n=30000, cross=15, shape=8,
                trusted=BASE_TRUST + VAL_TRUST, assumptions=VAL_ASSUME),
}
