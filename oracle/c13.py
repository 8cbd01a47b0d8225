from . import pyfiles

RULE = ('runs of the command line on generated scratch directories (SQL in Python files, broken files, unreadable '
        'files, repeated and overlapping inputs): files written, compared byte for byte; non-trivial: several files')


def cases(rng, n, hints):
    while True:
        yield pyfiles.scenario(rng, .3)


smaller = pyfiles.smaller_scenario


def nontrivial(c):
    return len(c['files']) > 1


def judge(c):
    o = pyfiles.run(c)
    n = len(o.writes)
    if '--format' not in c['opts']:
        if n:
            return ('opened', 'options %r opened %r for writing' % (c['opts'], o.writes))
        if o.after != o.before:
            return ('written', 'options %r changed the files %r' % (c['opts'], changed(o)))
        return None
    if set(o.after) != set(o.before):
        return ('names', 'files appeared or went: %r' % sorted(set(o.after) ^ set(o.before)))
    if n != len(set(o.writes)):
        return ('twice', 'written more than once: %r' % o.writes)
    for f in set(changed(o)) | set(o.writes):
        if f not in o.files:
            return ('other', '%r was written and is not an input' % f)
        r = pyfiles.alone(c, f)
        if r is None or not r[0]:
            return ('unchanged', '%r was written and no literal changed' % f)
        if o.after[f] != r[2].encode('utf-8'):
            return ('content', '%r was written as %r, not %r' % (f, o.after[f], r[2]))


def changed(o):
    return [f for f in o.after if o.after.get(f) != o.before.get(f)]
