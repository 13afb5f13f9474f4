#!/usr/bin/env python3
"""Development helper for the planted bugs in /verif/seeded (no check uses it).

  seed.py new ID PROP NEEDS BREAKS   take /repo's uncommitted change as the
                                     patch of a planted bug, revert it, and
                                     assemble its folder with DEMO.go (stdin)
  seed.py verify ID...               build, stable tests, demo with/without
  seed.py check ID [PROP...]         run the quick checks against the bug
"""
import json, os, shutil, subprocess, sys

V = '/verif'
LIB = ['core.go', 'stores.go', 'model.go', 'pub.go', 'dtpub.go', 'rig.go', 'net.go']
DEMO = r'''#!/bin/bash
# Runs the demonstration against the source tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
cd "$repo" || exit 3
tmp=$(mktemp -d)
python3 - "$here" "$repo" "$tmp" <<'PY' || exit 3
import json, os, sys
here, repo, tmp = sys.argv[1:]
rep = {}
for f in os.listdir(os.path.join(here, 'lib')):
    rep[os.path.join(repo, 'internal/verifdemo', f[:-4])] = os.path.join(here, 'lib', f)
rep[os.path.join(repo, 'internal/verifdemo/demo.go')] = os.path.join(here, 'demo.go.txt')
if os.path.isdir(os.path.join(here, 'inpkg')):
    for f in os.listdir(os.path.join(here, 'inpkg')):
        pkg, name = f.rsplit('--', 1)
        rep[os.path.join(repo, pkg.replace('__', '/'), name[:-4])] = os.path.join(here, 'inpkg', f)
json.dump({'Replace': rep}, open(os.path.join(tmp, 'overlay.json'), 'w'))
PY
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./internal/verifdemo || exit 3
timeout 250 "$tmp/demo" -prop DEMO -scratch "$tmp" -out "$tmp/out.json"
rc=$?
[ $rc -eq 0 ] || exit 1
python3 - "$tmp/out.json" <<'PY'
import json, sys
r = json.load(open(sys.argv[1]))
sys.exit(1 if r['violations'] or not r['complete'] else 0)
PY
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), **kw)

def new(id, prop, needs, breaks):
    d = f'{V}/seeded/{id}'
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    os.makedirs(d + '/lib', exist_ok=True)
    if diff:
        open(d + '/patch.diff', 'w').write(diff)
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    elif not os.path.exists(d + '/patch.diff'):
        sys.exit('no change in /repo')
    demo = sys.stdin.read()
    if demo.strip():
        open(d + '/demo.go.txt', 'w').write(demo)
    for f in LIB:
        if os.path.exists(f'{V}/harness/mon/{f}'):
            shutil.copy(f'{V}/harness/mon/{f}', f'{d}/lib/{f}.txt')
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    verify(id)

def demo(id):
    return sh(['bash', f'{V}/seeded/{id}/demo.sh'], cwd='/repo', capture_output=True, text=True)

def clean():
    return subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout == ''

def verify(id):
    if not clean():
        sys.exit('/repo is not clean')
    r = demo(id)
    print(id, 'demo on unchanged tree:', r.returncode, '' if r.returncode == 0 else (r.stdout + r.stderr)[-1500:])
    good = r.returncode == 0
    if sh(['git', '-C', '/repo', 'apply', f'{V}/seeded/{id}/patch.diff']).returncode:
        sys.exit('patch does not apply')
    try:
        b = sh(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
        if b.returncode:
            print(id, 'BUILD FAILS', b.stdout + b.stderr); good = False
        r = demo(id)
        print(id, 'demo with the change:', r.returncode, (r.stdout + r.stderr)[-700:])
        good &= r.returncode != 0 and r.returncode != 3
        sh(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'], capture_output=True)
        t = json.load(open('/tmp/seedtest.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(t.get('passed', t.get('pass', [])))
        bad = [x for x in stable if x not in passed]
        print(id, 'stable tests not passing:', bad); good &= not bad
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        sh(['git', '-C', '/repo', 'clean', '-fdq'])
    print(id, 'OK' if good else 'NOT OK')

def check(id, props):
    props = props or [json.load(open(f'{V}/seeded/{id}/meta.json'))['property']]
    if not clean():
        sys.exit('/repo is not clean')
    if sh(['git', '-C', '/repo', 'apply', f'{V}/seeded/{id}/patch.diff']).returncode:
        sys.exit('patch does not apply')
    try:
        for p in props:
            r = sh(['python3', f'{V}/run.py', p, 'quick'], capture_output=True, text=True)
            print(id, p, 'CAUGHT' if r.returncode == 1 else 'missed rc=%d' % r.returncode, (r.stdout[-900:] if r.returncode == 1 or '-v' in sys.argv else ''))
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])

cmd = sys.argv[1]
if cmd == 'new':
    new(*sys.argv[2:6])
elif cmd == 'verify':
    for i in sys.argv[2:]:
        verify(i)
elif cmd == 'check':
    check(sys.argv[2], [a for a in sys.argv[3:] if a != '-v'])
