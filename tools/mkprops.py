#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
TOK='sqlvalidator/grammar/tokeniser.py'; LEX='sqlvalidator/grammar/lexer.py'; SQL='sqlvalidator/grammar/sql.py'
FH='sqlvalidator/file_handler.py'; MAIN='sqlvalidator/main.py'; API='sqlvalidator/sql_validator.py'; FMT='sqlvalidator/sql_formatter.py'

p('C01','Tokenising a query loses, invents and reorders nothing but whitespace',
  'For every text, concatenating the tokens the tokeniser produces gives back exactly the characters of that text, in order, once spaces, newlines and tabs are removed from both. No character is dropped, duplicated, moved or made up, whatever mix of quotes, backslashes, operators, separators and whitespace the text contains.',
  ['inputs'],'every string given to the tokeniser','The tests fix about 25 short strings; quotes, backslashes at the end, operators and separators combine without bound.',
  [TOK],[('recursive splitting on quotes, whitespace, kept separators','split_tokens and its helpers'),('re-gluing of escaped separators','split_with_escaping'),('operator merging with one token of look-ahead','merge_stream')],
  observe=['to_tokens(text)'])
p('C02','A quoted literal is one verbatim token, whatever it contains',
  'Reading a text from left to right, the first quote character not directly preceded by a backslash opens a literal that runs to the next same quote character not directly preceded by a backslash; the text between them reaches the parser as a single token, character for character, between its two quote tokens, and reading resumes the same way after it. This holds whatever other quotes, escaped quotes, operators, separators or blanks the literal contains and whatever literals come before it.',
  ['inputs'],'every string given to the tokeniser, every number and kind of literals in it','Tests contain one literal at a time with at most one escaped quote; interactions between several literals of different quote kinds are not sampled.',
  [TOK],[('choice of the quote that opens first','split_tokens'),('escaped separators stay glued','split_with_escaping'),('inside/outside literal switching','_split_on_string_token')],
  observe=['to_tokens(text)'])
p('C03','Reading a query always terminates',
  'For every text, tokenising and parsing either return or raise after finitely many steps: no loop over the remaining text repeats without consuming any of it, and no recursive step works on input as long as the one it came from. In particular no query text makes the tool hang or exhaust the stack independently of its nesting depth.',
  ['inputs'],'every string; every loop iteration and recursive call of tokeniser and parser','A test that hangs on one text says nothing about the others; progress must be shown for every loop and every recursive call.',
  [TOK,LEX],[('each loop pulls from the token stream','get_tokens_until_*, parser loops'),('recursive calls get a strictly shorter stream','split_tokens, every *Parser.parse')],
  observe=['sqlvalidator.format_sql','sqlvalidator.parse(...).is_valid'])
p('C04','A clause ends only at its own keyword outside brackets and CASE',
  'When the tokens of a clause or argument are collected, collection stops exactly at the first terminating word that is outside every parenthesis, square bracket and CASE...END opened since the clause began, whatever the letter case of the words (the contents of literals are not words; "outside" means no more openings than closings of each kind so far; a first token handed over by the caller only opens); for a parenthesised group it stops exactly at the matching closing parenthesis, or at the end of the tokens. Everything before that point goes to the clause, in order, and everything after it stays available to the rest of the query.',
  ['inputs'],'every token sequence, every set of terminating words, every nesting depth','Tests exercise five flat sequences; nesting depth, bracket kinds and their interleavings are unbounded.',
  [TOK],[('parenthesis / bracket / CASE counters','get_tokens_until_one_of'),('matching parenthesis','get_tokens_until_closing_parenthesis'),('keyword runs','get_tokens_until_not_in')],
  observe=['get_tokens_until_one_of','get_tokens_until_closing_parenthesis','get_tokens_until_not_in'])
p('C05','Layout decisions change nothing but whitespace',
  'For every query tree, the rendered text with spaces, newlines and tabs removed is the same canonical sequence of the tree\'s own parts: every part appears exactly once, in source order, with exactly the separators, brackets and keywords of its construct, and nothing else (the semicolon is that of the outermost statement; one written inside a subquery may be shown or not). Line length, nesting, subquery position and the number of items may move line breaks and indentation only.',
  ['inputs'],'every query tree (every node kind, every nesting, every number of items, every text length)','The choice between one-line and multi-line layout depends on text length and on newlines anywhere below; tests fix a few hundred complete queries and few constructs at both sides of every threshold.',
  [SQL],[('rendering of each node kind','transform / __str__ methods'),('line-length and newline dependent branches','FunctionCall, BooleanCondition, Where/On/Using/Having, Join, Case, Parenthesis')],
  observe=['transform(node)','format_sql'])
p('C06','The text of a one-line literal is rendered verbatim',
  'For every query tree whose string literals contain no line break, the rendered text contains the content of every string literal character for character, between its own quotes and after its own prefix, including blanks and letter case. No layout decision and no keyword capitalisation reaches inside it.',
  ['inputs'],'every query tree with one-line string literals, every literal content','Tests use a handful of literals without unusual blanks; re-indentation and upper-casing work on whole rendered texts, so any literal at any depth is exposed.',
  [SQL],[('literal rendering','String.__str__'),('re-indentation of rendered parts by text replacement','every replace of line breaks'),('upper-casing of keywords and function names','FunctionCall, Type, Column, conditions')],
  observe=['transform(node)','format_sql'])
p('C07','Parsing keeps every token it consumes',
  'Whenever the parser turns part of the token stream into a query tree, the tree, written back in canonical order, together with the tokens still unread, is the token stream it was given: no token is silently dropped, duplicated, moved or attached to another construct (up to letter case, list and trailing commas, the semicolon of a subquery, brackets closed or left over at the end of the text, and equal spellings of numbers and booleans). Text that cannot be represented is either left unread for the caller or refused with an error.',
  ['inputs'],'every token sequence, every parser entry point and option','Each grammar construct is tested alone with a few spellings; combinations of optional parts are exponential and a lost token is only seen if the test happens to contain it.',
  [LEX],[('expression parser with one token of look-ahead','ExpressionParser.parse'),('clause parsers','SelectStatementParser, FromStatementParser, ...')],
  observe=['SQLStatementParser.parse','format_sql'])
p('C08','Formatting and validating never alter the query',
  'Rendering a query tree and validating it change neither the tree nor any set of known columns passed in: no rendering or validation step writes to any object that existed before it began. Hence repeating or interleaving formatting and validation of the same query, in any order, keeps giving the same text and the same errors.',
  ['inputs','histories'],'every query tree, every sequence of format and validate calls','Tests render or validate each query once; an in-place update of a shared set or list shows only on a second call or in a sibling clause.',
  [SQL,API],[('known columns are combined into fresh sets','SelectStatement.validate, known_fields'),('error lists are fresh per call','validate methods')],
  observe=['transform(node)','node.validate','SQLQuery.format','SQLQuery.is_valid'])
p('C09','Verdict and error list always agree and never change',
  'After a query has been checked, it is reported valid exactly when its list of errors is empty, a query the parser refuses is reported invalid with at least one error, and checking again or formatting in between gives the same verdict and the same errors. The verdict is that of the query\'s own text only.',
  ['inputs','histories'],'every text, every sequence of is_valid / format calls and reads of the errors','Tests ask for the verdict once per query; caching and accumulation across calls are only visible over call histories.',
  [API],[('validated flag and error list','SQLQuery'),('conversion of parse errors','SQLQuery._validate')],
  state=[('validated','whether the errors have been computed','SQLQuery'),('errors','list of messages','SQLQuery')],
  observe=['SQLQuery.is_valid','SQLQuery.errors'])
p('C10','An error inside a part is an error of the whole',
  'Every error that validation finds in a select expression, FROM item, WHERE, GROUP BY, HAVING, ORDER BY, LIMIT or OFFSET clause is among the errors of the statement, and every error found in an argument of a function call (aggregates, filters and windows included), in a parenthesised or aliased expression, in either side of a comparison, a join or a set operation, in a BETWEEN bound or in an operand of AND / OR is among the errors of that expression (an ORDER BY column that names a select alias is not an error). Nothing between the part and the whole swallows, overwrites or reports against other columns than those visible to that part.',
  ['inputs'],'every query tree, every number and nesting of parts','Tests contain one wrong column per query, at depth at most two; the claim is about every position, number of siblings and depth.',
  [SQL],[('error lists concatenated over the parts','validate methods of statement, function call, parenthesis, alias, conditions, clauses')],
  observe=['node.validate','SQLQuery.errors'])
p('C11','Clause rules are enforced exactly',
  'LIMIT and OFFSET are accepted exactly when their argument, parentheses aside, is a non-negative integer constant (or LIMIT ALL); an integer in GROUP BY or ORDER BY of a statement is accepted exactly when it is between 1 and the number of select expressions; a WHERE or HAVING argument and every operand of AND / OR is refused exactly when its type is known and not boolean; a join without ON or USING is refused exactly when it is neither a cross join nor a comma. No other value is refused by these rules.',
  ['inputs'],'every integer, every nesting of parentheses, every number of select expressions, every argument type, every join type','Tests check a few constants around each boundary; integers, parenthesis depth and list length are unbounded.',
  [SQL],[('limit / offset rules','LimitClause.validate, OffsetClause.validate'),('position rules','GroupByClause.validate, OrderByItem.validate'),('boolean rules','WhereClause, HavingClause, BooleanCondition'),('join rule','Join.validate')],
  observe=['node.validate','SQLQuery.errors'])
p('C12','A column is reported missing exactly when it is not visible',
  'Given the columns visible at a place, a plain column is accepted exactly when it is *, or everything (* or some qualifier.*) is visible, or a visible column has its name, or exactly one visible qualified column has its name after the qualifier; several such are reported as ambiguous and none as missing, in expressions and in GROUP BY alike (where, as in ORDER BY, names of select aliases are also accepted). A qualified column is accepted exactly when *, its full name, or everything of its qualifier is visible. What a FROM item makes visible: a table or UNNEST everything; a subquery its select list: plain columns, the last part of qualified ones, aliases, and * (EXCEPT and REPLACE count as *), where * stands for the columns of the subquery it is directly selected from when those are known; brackets what is inside; an alias the columns of its expression, qualified by it; a join both sides; a set operation its left query; a WITH statement its final query.',
  ['inputs'],'every set of visible columns, every column name, every FROM item','Tests use at most three visible columns, few FROM shapes and never the ambiguous case in GROUP BY.',
  [SQL],[('plain columns','Column.validate'),('qualified columns','ChainedColumns.validate'),('group by columns','GroupByClause.validate'),('visible columns','known_fields of each FROM item')],
  observe=['node.validate','node.known_fields','SQLQuery.errors'])
p('C13','Files are written only by --format, and only when SQL in them changed',
  'No run without --format ever writes, creates, truncates, renames or deletes a file, whatever other options, inputs and failures occur. With --format, the only files written are analysed inputs in which at least one SQL literal changed, each written at most once, with exactly the newly computed content, and only after that content has been computed completely.',
  ['inputs','configurations','fault_sequences'],'every option combination, every set of inputs, every failure of reading or analysing a file','No test runs the command on real files at all; the frame ("nothing else is touched") is a statement about every path, including error paths.',
  [FH,MAIN],[('writing guarded by the format option and the change count','analyse_file'),('option passing','handle_inputs, handle_one_input, analyse_dir, _main')],
  observe=['file system','sqlvalidator --check-format / --validate / --format'])
p('C14','Exit status and summary state the exact totals',
  'The run ends with status 1 exactly when format checking was asked for and at least one SQL literal would change, or validation (plain or verbose) was asked for and at least one query is invalid; otherwise it ends normally. The totals of changed files, changed queries, invalid files and invalid queries are exactly the sums over the files analysed, each file counted once.',
  ['inputs','configurations'],'every option combination, every number of inputs and directories, every per-file result','No test covers the summary, the exit status or more than one file; totals over arbitrarily many files need induction.',
  [FH],[('per-file result','analyse_file'),('accumulation','analysis info update, analyse_dir, handle_inputs'),('exit decision','handle_inputs')],
  observe=['exit status','standard output'])
p('C15','Each input file is analysed exactly once',
  'However files are given - directly, repeatedly, through a directory or through overlapping directories - every existing file named directly and every file ending in .py below a named directory is analysed, and no file (by absolute path) is analysed more than once in a run, also when analysing an earlier occurrence failed.',
  ['inputs','histories','fault_sequences'],'every list of inputs with every overlap, every position of a failing file','The set of files seen is shared by aliasing through three functions and must survive failures; tests never pass two inputs.',
  [FH],[('set of seen absolute paths','analyse_file, analyse_dir, handle_one_input, handle_inputs')],
  state=[('seen_files','absolute paths analysed so far','file_handler')],
  observe=['files opened for reading'])
p('C16','A file that cannot be analysed never stops or changes the others',
  'If reading or analysing one file fails in any way, the failure is reported by naming that file, that file is left unmodified and contributes nothing to the totals, and all remaining inputs are processed exactly as if it had not been there. No failure of a single file escapes as a crash of the run.',
  ['inputs','fault_sequences'],'every file at every position failing with every kind of error while being read or analysed','There is no test with a failing file.',
  [FH],[('catch around each file','handle_one_input, analyse_dir'),('write only after analysis','analyse_file')],
  observe=['standard output','file system'])
p('C17','Only SELECT literals of a Python file are rewritten',
  'The rewritten token sequence of a Python file (as the tokenizer of Python reads its text) equals the original one except that some string tokens that start with SELECT are replaced by their formatted form; every other token keeps its text and position, none is lost, added or reordered, and the number of changed queries reported is exactly the number of tokens that differ. A file none of whose literals changed is reported with zero changes.',
  ['inputs'],'every Python token sequence, every mix of strings, comments and other tokens','Eleven tests use one or two literals; the look-ahead for comments re-queues tokens through recursion, so losing or doubling a token depends on arbitrary neighbourhoods.',
  [FH],[('token loop with look-ahead to the next comment or string','compute_file_content'),('selection of SELECT strings','is_select_string')],
  observe=['compute_file_content','files after --format'])
p('C18','Opt-out comments are honoured for exactly the literal before them',
  'A SELECT literal followed, with no other string in between, by a comment containing nosqlformat is never rewritten, and one followed so by a comment containing nosqlvalidation is never counted as invalid. Every other SELECT literal whose formatted form differs is rewritten when formatting was asked for, and every other invalid one is counted and located at its own line when validation was asked for.',
  ['inputs','configurations'],'every token sequence around the literal, both options on or off','Tests place the comment right behind one literal; arbitrary tokens may come in between and the next literal may own the comment.',
  [FH],[('next comment or string decides','compute_file_content')],
  observe=['compute_file_content','files after --format'])
p('C19','A rewritten literal stays the same kind of Python literal',
  'When a literal is rewritten, its prefix letters and its quote character are kept, its body is the formatted SQL of the original body (with one line break added at each end when it spans several lines), and it becomes triple-quoted exactly when it was so before or its new body spans several lines. This holds for every prefix and quote style.',
  ['inputs'],'every legal prefix, every quote style, every body','Tests use no prefix or r with two quote styles; there are 28 prefixes and 4 quote styles, and the body is arbitrary.',
  [FH],[('quote and prefix detection and re-quoting','handle_sql_string')],
  observe=['handle_sql_string','files after --format'])
p('C20','Validating a parsed query never crashes',
  'For every query tree the parser can build, asking for its errors returns a list of messages; no combination of clauses, aliases, joins, windows or constants makes validation raise an exception.',
  ['inputs'],'every query tree the parser can build','Validation code is tested on about 80 queries; an attribute or operation missing on one node kind is reached only by the particular combination.',
  [SQL,API],[('validate, known columns and types of every node kind','validate, known_fields, return_type')],
  observe=['SQLQuery.is_valid'])
p('C21','Formatting is idempotent',
  'For every query the formatter accepts, formatting its output again gives the same text, so that a file just formatted passes the format check.',
  ['inputs'],'every query text','Needs the parser to read back every rendering of every tree; tests only compare single outputs.',
  [TOK,LEX,SQL,FMT],[('parse and render','whole pipeline')],observe=['format_sql'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
