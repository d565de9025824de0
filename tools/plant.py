#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes seeded/<id>/ from edits of the real code, after confirming that the change compiles,
passes the tests, and that its demonstration tells the two trees apart. Never leaves /repo changed."""
import json, os, shutil, subprocess, sys
H = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
R = '/repo'
DEMO = '''#!/bin/bash
# cwd: the built repository
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -I_build -Iinclude -Iinclude/gear "$D/demo.cc" -L_build -lgearxml -lgear -lgearsurf -Wl,-rpath,"$PWD/_build" -lCLHEP -ldl -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo > out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
'''
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git', '-C', R, 'checkout', '--', '.')
def stable():
    o = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'stable', 'tests', 'pass'):
        if k in o: return set(map(str, o[k]))
    return set(o)
def tests():
    p = '/tmp/plant-out.json'
    sh('bash', '/opt/vp/test.sh', p)
    return set(map(str, json.load(open(p))['passed']))
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
assert not sh('git', '-C', R, 'status', '--porcelain').stdout.strip(), 'repo not clean'
ok = {}
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    d = os.path.join(H, 'seeded', b['id'])
    if os.path.exists(d) and not only: continue
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in b['edits']:
            s = open(os.path.join(R, f)).read()
            assert s.count(old) == b.get('count', 1), (b['id'], f, s.count(old), old)
            open(os.path.join(R, f), 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', '-C', R, 'diff').stdout)
        open(os.path.join(d, 'demo.cc'), 'w').write(spec.get('PRE', '') + b['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        t = tests()
        miss = stable() - t
        r1 = sh('bash', os.path.join(d, 'demo.sh'), cwd=R)
    finally:
        clean()
    sh('bash', '/opt/vp/build.sh')
    r0 = sh('bash', os.path.join(d, 'demo.sh'), cwd=R)
    good = not miss and r1.returncode not in (0, 2) and r0.returncode == 0
    print(b['id'], 'OK' if good else 'BAD', 'missing tests %s' % sorted(miss)[:4], 'with patch rc=%d' % r1.returncode, 'without rc=%d' % r0.returncode, flush=True)
    if not good:
        print(r1.stdout[-800:], r0.stdout[-800:])
        shutil.move(d, '/tmp/w/pl/bad-' + b['id']) if not os.path.exists('/tmp/w/pl/bad-' + b['id']) else shutil.rmtree(d)
