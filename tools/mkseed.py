#!/usr/bin/env python3
"""Makes seeded bugs from a spec file: BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python source, files={})].
Applies each to /repo, keeps patch, demonstration and meta data under /verif/seeded, and confirms them (build, tests, demo with and without).
usage: mkseed.py SPEC [id...]"""
import sys, os, json, subprocess, runpy, shutil
R = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
sh = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, **k)
assert not sh('git', '-C', R, 'status', '--porcelain').stdout.strip(), 'repo is dirty'
ns = runpy.run_path(sys.argv[1])
for b in ns['BUGS']:
    if sys.argv[2:] and b['id'] not in sys.argv[2:]: continue
    d = '%s/seeded/%s' % (V, b['id'])
    os.makedirs(d, exist_ok=True)
    ok = True
    try:
        for f, o, n in b['edits']:
            s = open('%s/%s' % (R, f)).read()
            assert s.count(o) == 1, (b['id'], f, s.count(o), o)
            open('%s/%s' % (R, f), 'w').write(s.replace(o, n))
        open(d + '/patch.diff', 'w').write(sh('git', '-C', R, 'diff').stdout)
        # lines of the original repository only
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.copy(V + '/tools/seedlib/h.py', d + '/h.py')
        open(d + '/demo.py', 'w').write('from h import *\n' + b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds, 1: it does not\nd=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\nexport REPO="$PWD" CAPYPDF_SO_OVERRIDE="$PWD/_build/src" PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1\ncd "$w" || exit 3\n/usr/bin/python3 "$d/demo.py"\n')
        for k, v in b.get('files', {}).items(): shutil.copy(v, d + '/' + k)
        r = sh('bash', '/opt/vp/build.sh')
        if r.returncode: print(b['id'], 'DOES NOT BUILD', r.stdout[-1500:]); ok = False
        if ok:
            r = sh('bash', d + '/demo.sh', cwd=R, timeout=300)
            if r.returncode == 0: print(b['id'], 'demo passes with the bug', r.stdout[-300:]); ok = False
            else: print(b['id'], 'with bug rc', r.returncode, r.stdout[-200:].strip(), r.stderr[-200:].strip())
            sh('bash', '/opt/vp/test.sh', '/tmp/sb/t.json')
            miss = stable - set(json.load(open('/tmp/sb/t.json'))['passed'])
            if miss: print(b['id'], 'TESTS FAIL', sorted(miss)[:4]); ok = False
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
    sh('bash', '/opt/vp/build.sh')
    r = sh('bash', d + '/demo.sh', cwd=R, timeout=300)
    if r.returncode: print(b['id'], 'demo fails WITHOUT the bug', r.stdout[-500:], r.stderr[-800:]); ok = False
    print(b['id'], 'OK' if ok else 'NOT OK')
