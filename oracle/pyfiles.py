"""Python files with SQL literals: a generator, an independent reading of which literals are rewritten, and runs of
the command line on scratch directories."""
import builtins
import contextlib
import importlib
import io
import os
import re
import shutil
import sys
import tempfile
import tokenize

from . import base, sqlgen

PREFIXES = ('',) * 12 + ('r', 'R', 'u', 'U', 'b', 'B', 'rb', 'rB', 'Rb', 'RB', 'br', 'bR', 'Br', 'BR')
QUOTES = ("'", '"', "'''", '"""')
SQL = ('select 1', 'SELECT a from t', 'select  *  from t', 'select a,b from t where x=1', 'SELECT 1;', 'select',
       'select a from t having a > 1', 'select a from t limit 1.5', 'select sum(a) from t', "select 'it' from t",
       'SELECT 1', 'SELECT *\nFROM t', '\n select a\nfrom t\n', 'select a from t union select b from u',
       'SELECT a\nFROM t\nLIMIT -1', 'SELECT COUNT(*)\nFROM t', 'SELECT 1\n', '  select a from t', 'select\na',
       'SELECT a\nFROM t\nORDER BY 2', 'select a from (select b from u) group by 9', 'SELECT  1', 'SELECT a  ', '   SELECT a, b', 'SELECT\n1', 'SELECT a ;',
       'SELECT 1  LIMIT -1', 'SELECT sum( a )')
BAD = ('select a from', 'select (', 'select case', 'select a from t where', 'select ;; a')
OTHER = ('selected', 'insert into t', 'x', '', 'select_from x', 'not select', 'selects a', 'from t', 'SELECTX 1')
COMMENTS = ('', '', '', '# nosqlformat', '# nosqlvalidation', '# nosqlformat nosqlvalidation', '# a comment',
            '#nosqlformat', '# NOSQLFORMAT', '# nosql', '# see nosqlvalidation below')


def literal(rng, bad=0.0):
    k = rng.random()
    if k < bad:
        body = rng.choice(BAD)
    elif k < 0.7:
        body = rng.choice(SQL)
    elif k < 0.8:
        body = rng.choice(OTHER)
    else:
        body = 'select ' + sqlgen.wild_text(rng) if hasattr(sqlgen, 'wild_text') else rng.choice(SQL)
    q = rng.choice(QUOTES)
    p = rng.choice(PREFIXES)
    if len(q) == 1:
        body = body.replace('\n', ' ' if 'b' in p.lower() or rng.chance(.7) else '\\\n')
    body = body.replace(q, '')
    if body.endswith(q[0]) or (body.startswith(q[0]) and len(q) == 1):
        body = body.strip(q[0])
    if 'b' in p.lower():
        body = body.encode('ascii', 'ignore').decode()
    if rng.chance(.1):
        body = rng.choice((' ', '\n' if len(q) == 3 else '  ', "'" if '"' in q else '"', '`')) + body
    if rng.chance(.08) and body.rstrip(' ;').endswith(('a', 't', '1')):
        # a literal of the query at the end of the body, in the quotes of the body
        body = body.rstrip(' ;') + ' as ' + '\\' + q[0] + 'a' + '\\' + q[0]
    return p + q + body + q


def source(rng, bad=0.0):
    out = []
    for _ in range(rng.randint(1, 6)):
        k, c = rng.randint(0, 9), rng.choice(COMMENTS)
        s = literal(rng, bad)
        if k <= 3:
            out.append('x = %s  %s' % (s, c))
        elif k == 4:
            out.append('f(%s, %s)  %s' % (s, literal(rng, bad), c))
        elif k == 5:
            out.append('y = [\n    %s,  %s\n    %s,\n    1,\n]  %s' % (s, c, literal(rng, bad), rng.choice(COMMENTS)))
        elif k == 6:
            out.append('def g():\n    %s\n    return %s  %s' % (c or 'pass', s, c))
        elif k == 7:
            out.append('z = %s\n%s' % (s, c))
        elif k == 8:
            out.append('%s %s  %s' % (s, literal(rng, bad), c) if rng.chance(.5) else 'q = %s' % s)
        else:
            out.append('# %s\nt = 3' % rng.choice(COMMENTS))
    t = '\n'.join(out)
    return t + ('\n' if rng.chance(.9) else '')


def tokens_of(text):
    return list(tokenize.generate_tokens(io.StringIO(text).readline))


def valid_source(rng, bad=0.0):
    while True:
        t = source(rng, bad)
        try:
            compile(t, 'x', 'exec')
            tokens_of(t)
            return t
        except (SyntaxError, ValueError, tokenize.TokenError):
            pass


class Fails(Exception):
    pass


def split_literal(s):
    m = re.match(r'([A-Za-z]*)(\'\'\'|"""|\'|")', s)
    p, q = m.group(1), m.group(2)
    if len(q) == 1 and s[len(p):] == q * 2:
        return p, q, ''
    return p, q, s[len(p) + len(q):-len(q)]


def rewritten(s):
    """(new literal, query, formatted) of a literal, from the statement of the property."""
    import sqlvalidator
    p, q, body = split_literal(s)
    query = sqlvalidator.parse(body)
    try:
        new = query.format()
    except Exception as x:
        raise Fails(str(x))
    if '\n' in new:
        q = q[0] * 3
        return p + q + '\n' + new + '\n' + q, query
    return p + q + new + q, query


def is_select(s):
    rest = s.lower().lstrip(' \n\'"`ufbr')
    lines = rest.splitlines()
    return bool(lines) and lines[0].split(' ')[0] == 'select'


def model(text, sf, sv):
    """[(token, new text or None, located errors or None)]; raises Fails."""
    toks = tokens_of(text)
    out = []
    for i, t in enumerate(toks):
        new = errs = None
        if t.type == tokenize.STRING and is_select(t.string):
            comment = ''
            for u in toks[i + 1:]:
                if u.type == tokenize.STRING:
                    break
                if u.type == tokenize.COMMENT:
                    comment = u.string
                    break
            nf, nv = 'nosqlformat' in comment, 'nosqlvalidation' in comment
            if (sf and not nf) or (sv and not nv) or not comment:
                r, query = rewritten(t.string)
                if sf and not nf and r != t.string:
                    new = r
                if sv and not nv:
                    try:
                        if not query.is_valid():
                            errs = list(query.errors)
                    except Exception as x:
                        raise Fails(str(x))
        out.append((t, new, errs))
    return out


def compute(text, sf, sv):
    """What the code does: (changed, new content, invalid, locations, tokens written) or the exception."""
    fh = importlib.import_module('sqlvalidator.file_handler')
    got = []
    old = tokenize.untokenize

    def spy(ts):
        ts = list(ts)
        got.append(ts)
        return old(ts)
    tokenize.untokenize = spy
    try:
        r = fh.compute_file_content(io.StringIO(text), sf, sv)
    except Exception as x:
        return x
    finally:
        tokenize.untokenize = old
    return tuple(r) + (got[0] if len(got) == 1 else tokens_of(r[1]),)


# ------------------------------------------------------------------ runs
class Run:
    pass


OPTS = ([], ['--format'], ['--check-format'], ['--validate'], ['--verbose-validate'], ['--format', '--validate'],
        ['--check-format', '--verbose-validate'], ['--check-format', '--validate'], ['--format', '--verbose-validate'])


def scenario(rng, bad=0.3):
    names = ['a.py', 'b.py', 'd/a.py', 'd/c.py', 'd/e/f.py', 'n.txt', 'd/n.pyc', 'd/e/g.py', 'h/i.py', 'x.py/y.py',
             'd/.py', '.h/k.py', 'd/.i/j.py', 'd/x.PY', 'd/__pycache__/m.py', 'd/_p.py', 'venv/test_l.py', 'd/o.x.py',
             'd/e/f/g/h/i.py']
    files = {}
    for n in rng.sample(names, rng.randint(1, 7)):
        k = rng.random()
        if k < bad * .3:
            t = rng.choice(('x = (\n', "x = '''abc", '  x\n y\n', 'y = "\x00"'))
        elif k < bad * .5:
            t = {'bytes': 'x = "select  \xe9"\n'}
        elif k < bad:
            t = 'q = "%s"\n' % rng.choice(BAD) + source(rng)
        else:
            t = valid_source(rng) if rng.chance(.8) else 'x = 1\n'
        files[n] = t
    pool = sorted(files) + ['.', 'd', 'd/e', './d', 'd/../a.py', 'missing.py', 'h', 'd/', './a.py', '../@/a.py']
    args = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
    return {'files': files, 'args': args, 'opts': rng.choice(OPTS[1:]) if rng.chance(.97) else []}


def smaller_scenario(c):
    for n in c['files']:
        yield dict(c, files={k: v for k, v in c['files'].items() if k != n})
    for i in range(len(c['args'])):
        if len(c['args']) > 1:
            yield dict(c, args=c['args'][:i] + c['args'][i + 1:])
    for n, t in c['files'].items():
        if isinstance(t, str):
            ls = t.split('\n')
            for i in range(len(ls)):
                yield dict(c, files=dict(c['files'], **{n: '\n'.join(ls[:i] + ls[i + 1:])}))


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + '/'] = None
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def run(c):
    """Run the command line on the scenario, in a scratch directory that is removed afterwards."""
    main = importlib.import_module('sqlvalidator.main')
    top = os.path.realpath(tempfile.mkdtemp(prefix='vp-run-'))
    d = os.path.join(top, 'w')
    os.mkdir(d)
    o = Run()
    o.reads, o.writes, o.status, o.crash, o.order = [], [], None, None, []
    real = builtins.open
    cwd, argv = os.getcwd(), sys.argv
    try:
        for n in ('d/e', 'h'):
            os.makedirs(os.path.join(d, n))
        for n, t in c['files'].items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with real(p, 'wb') as f:
                f.write(t['bytes'].encode('latin-1') if isinstance(t, dict) else t.encode('utf-8'))
        o.dir = d
        o.before = snapshot(d)

        def spy(file, mode='r', *a, **k):
            p = os.path.abspath(file) if isinstance(file, (str, os.PathLike)) else None
            if p is not None and p.startswith(top + os.sep):
                if any(x in mode for x in 'wax+'):
                    o.writes.append(os.path.relpath(p, d))
                else:
                    o.reads.append(os.path.relpath(p, d))
                if p == os.path.join(d, c.get('fault', '?')) and c.get('fault_mode', 'r') in mode:
                    raise OSError('injected')
            elif p is not None and any(x in mode for x in 'wax+') and p != os.devnull:
                raise PermissionError('writing outside of the scratch directory: %s' % p)
            return real(file, mode, *a, **k)
        out = io.StringIO()
        os.chdir(d)
        sys.argv = ['sqlvalidator'] + [a.replace('@', 'w') for a in c['args']] + c['opts']
        builtins.open = io.open = spy
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                main._main()
            o.status = 0
        except SystemExit as x:
            o.status = x.code if x.code is not None else 0
        except Exception as x:
            o.crash = '%s: %s' % (type(x).__name__, x)
        finally:
            builtins.open = io.open = real
            os.chdir(cwd)
            sys.argv = argv
        o.out = out.getvalue()
        o.after = snapshot(d)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    # what is expected to be analysed, in order, by name under the scratch directory
    o.files = []
    for a in c['args']:
        a = os.path.normpath(a.replace('../@/', ''))
        if a == '.':
            o.files += [f for f in sorted(c['files']) if f.endswith('.py')]
        elif a in c['files']:
            o.files.append(a)
        else:
            o.files += [f for f in sorted(c['files']) if f.startswith(a + '/') and f.endswith('.py')]
    o.files = sorted(set(o.files))
    return o


def asked(c):
    s = set(c['opts'])
    return bool(s & {'--format', '--check-format'}), bool(s & {'--validate', '--verbose-validate'})


def alone(c, n):
    """(changed, invalid, new text) of a file on its own, or None when analysing it fails."""
    t = c['files'][n]
    if isinstance(t, dict) or n == c.get('fault') and c.get('fault_mode', 'r') == 'r':
        return None
    try:
        t = io.TextIOWrapper(io.BytesIO(t.encode('utf-8'))).read()
    except ValueError:
        return None
    r = compute(t, *asked(c))
    return None if isinstance(r, Exception) else (r[0], r[2], r[1])
