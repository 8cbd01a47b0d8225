#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a bug description (JSON on stdin) after confirming it in a scratch copy:
{id, property, needs, what_it_breaks, edits: [[file, old, new], ...], demo: python source}"""
import json, os, subprocess, sys, tempfile, shutil
b = json.load(sys.stdin) if len(sys.argv) < 2 else json.load(open(sys.argv[1]))
for b in (b if isinstance(b, list) else [b]):
    d = tempfile.mkdtemp(prefix='bug')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        out = os.path.join('/verif/seeded', b['id'])
        new = os.path.join(d, 'seed'); os.makedirs(new)
        open(os.path.join(new, 'demo.py'), 'w').write(b['demo'])
        open(os.path.join(new, 'demo.sh'), 'w').write(
            '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        def demo():
            return subprocess.run(['bash', os.path.join(new, 'demo.sh')], cwd=r, capture_output=True, text=True)
        p0 = demo()
        for f, old, nw in b['edits']:
            s = open(os.path.join(r, f)).read()
            assert s.count(old) == 1, ('edit', b['id'], f, s.count(old), old)
            open(os.path.join(r, f), 'w').write(s.replace(old, nw))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        p1 = demo()
        t = subprocess.run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -5', shell=True, cwd=r,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'), capture_output=True, text=True).stdout
        # are the changed lines original?
        base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=r, capture_output=True, text=True).stdout.strip()
        orig = {f: set(subprocess.run(['git', 'show', base + ':' + f], cwd=r, capture_output=True, text=True).stdout.splitlines())
                for f in {e[0] for e in b['edits']}}
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        mine = [l for l in removed if not any(l in o for o in orig.values())]
        ok = p0.returncode == 0 and p1.returncode != 0 and 'failed' not in t and 'error' not in t and (len(mine) < len(removed))
        print(b['id'], 'OK' if ok else 'REJECTED', 'demo', p0.returncode, p1.returncode, t.strip().splitlines()[-1:],
              'not original: %r' % mine if mine else '')
        if not ok:
            print(p0.stdout[-300:], p0.stderr[-300:], p1.stdout[-300:], p1.stderr[-300:], t if 'failed' in t else '')
            continue
        open(os.path.join(new, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what_it_breaks']},
                  open(os.path.join(new, 'meta.json'), 'w'), indent=1)
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(new, out)
    finally:
        shutil.rmtree(d)
