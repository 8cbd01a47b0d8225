from . import pyfiles

RULE = ('runs of the command line on generated scratch directories: which files are read, how often; non-trivial: '
        'several files')


def cases(rng, n, hints):
    while True:
        yield pyfiles.scenario(rng, .3)


smaller = pyfiles.smaller_scenario


def nontrivial(c):
    return len(c['files']) > 1


def judge(c):
    if not c['opts']:
        return None
    o = pyfiles.run(c)
    if o.crash:
        return None
    if len(set(o.reads)) != len(o.reads):
        return ('twice', 'read more than once: %r' % o.reads)
    if sorted(o.reads) != o.files:
        return ('which', 'read %r, not %r' % (sorted(o.reads), o.files))
