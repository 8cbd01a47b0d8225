from . import pyfiles

RULE = ('runs of the command line on generated scratch directories with and without one failing file (broken Python, '
        'undecodable, refused SQL, an error while opening): output, files and status are those of the run without it, '
        'and the file is named; non-trivial: several files')
BAD = ('x = (\n', 'x = "select 1"\ny = """abc', {'bytes': 'x = "select \xe9"\n'}, 'x = 1\n',
       'x = "select 1 from"\n', 'x = "select %sa%s"\n' % ('(' * 3000, ')' * 3000), 'x = "select a limit 1.5"\ny = "select ("\n')


def cases(rng, n, hints):
    while True:
        c = pyfiles.scenario(rng, .05)
        if not c['opts']:
            continue
        name = rng.choice(('a.py', 'd/bad.py', 'd/e/bad.py', 'h/bad.py'))
        c['files'][name] = rng.choice(BAD)
        if c['files'][name] == 'x = 1\n':
            c['fault'] = name
        if rng.chance(.7):
            c['args'].insert(rng.randint(0, len(c['args'])), rng.choice((name, '.', 'd')))
        c['bad'] = name
        yield c


def smaller(c):
    for d in pyfiles.smaller_scenario(c):
        if c['bad'] in d['files']:
            yield d


def nontrivial(c):
    return len(c['files']) > 1


def judge(c):
    bad = c['bad']
    if pyfiles.alone(c, bad) is not None:
        return None
    o = pyfiles.run(c)
    if o.crash:
        return ('crash', 'the run crashes: %s' % o.crash)
    if o.after.get(bad) != o.before.get(bad):
        return ('modified', '%r fails and was modified' % bad)
    if bad not in o.files:
        return None
    name = bad.rsplit('/')[-1]
    if not any(name in l for l in o.out.splitlines()):
        return ('silent', '%r fails and is not named: %r' % (bad, o.out))
    # the run as if it had not been there: it is there, and holds nothing
    p = pyfiles.run({k: v for k, v in dict(c, files=dict(c['files'], **{bad: ''})).items() if k != 'fault'})
    if p.crash:
        return None

    def rest(r):
        return sorted(l for l in r.out.splitlines() if name not in l)
    if rest(o) != rest(p) or o.status != p.status:
        return ('rest', 'with %r failing: status %r %r, without it: status %r %r' % (
            bad, o.status, rest(o), p.status, rest(p)))
    if {f: t for f, t in o.after.items() if f != bad} != {f: t for f, t in p.after.items() if f != bad}:
        return ('files', 'other files differ when %r fails' % bad)
