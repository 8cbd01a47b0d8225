import re

from . import pyfiles

RULE = ('runs of the command line on generated scratch directories: exit status and printed totals against the sums over '
        'the files analysed on their own; non-trivial: several files')


def cases(rng, n, hints):
    while True:
        yield pyfiles.scenario(rng, .1)


smaller = pyfiles.smaller_scenario


def nontrivial(c):
    return len(c['files']) > 1


def judge(c):
    o = pyfiles.run(c)
    if o.crash:
        return None
    if not c['opts']:
        return None if o.status == 2 else ('usage', 'no option and status %r' % o.status)
    rs = [r for r in (pyfiles.alone(c, f) for f in o.files) if r]
    fmt, val = pyfiles.asked(c)
    nf, ns = sum(r[0] > 0 for r in rs), sum(r[0] for r in rs)
    kf, ks = sum(r[1] > 0 for r in rs), sum(r[1] for r in rs)
    want = 1 if ('--check-format' in c['opts'] and ns) or (val and ks) else 0
    if o.status != want:
        return ('status', 'status %r, not %r: %r changed, %r invalid' % (o.status, want, ns, ks))
    lines = o.out.splitlines()
    for on, k, s, none in ((fmt, nf, ns, r'^No file (would be )?reformatted\.$'), (val, kf, ks, '^No invalid queries')):
        if not on:
            continue
        word = 'detected' if none.startswith('^No inv') else '(would be )?reformatted'
        at = r'^%d files? %s[^0-9]*%d ' % (k, word, s) if s else none
        if sum(bool(re.match(at, x)) for x in lines) != 1:
            return ('totals', 'totals of %d in %d files not printed: %r' % (s, k, lines))
