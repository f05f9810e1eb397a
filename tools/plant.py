#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and writes /verif/seeded/<id>/.

usage: plant.py SPEC.py [--nocheck] [--keep-anyway]
SPEC.py defines id, property, edits=[(file, old, new)], demo (C++ source), needs, breaks
and optionally flags (extra compiler flags of the demonstration).
The bug is kept only if the patched tree builds, its tests pass, and the demonstration
passes on the unchanged tree and fails on the patched one."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -O1 -w -DSTRICT_ERROR_EXCEPTIONS -DSTRICT_REMOVE_NODISCARD %s -I"$PWD" "$d/demo.cpp" -o "$t/demo" %s || exit 2
cd "$t" && timeout 100 ./demo
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

spec = {}
exec(open(sys.argv[1]).read(), spec)
wt = tempfile.mkdtemp(prefix='plant', dir='/tmp')
try:
    repo = wt + '/repo'
    sh('git clone -q /repo %s' % repo)
    for f, old, new in spec['edits']:
        p = repo + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: text occurs %d times in %s:\n%s' % (spec['id'], s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    patch = subprocess.run(['git', '-C', repo, 'diff'], text=True, stdout=subprocess.PIPE).stdout
    # only lines of the original repository may change
    for f, old, new in spec['edits']:
        orig = sh('git -C /repo show 60a183d:' + f).stdout.splitlines()
        p2 = subprocess.run(['git', '-C', repo, 'diff', '-U0', '--', f], text=True, stdout=subprocess.PIPE).stdout
        gone = [l[1:] for l in p2.splitlines() if l.startswith('-') and not l.startswith('---')]
        if not gone or any(l not in orig for l in gone):
            print('NOTE', spec['id'], 'changes lines that are not in the original:', [l for l in gone if l not in orig])
    out = V + '/seeded/' + spec['id']
    new = not os.path.exists(out)
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(patch)
    open(out + '/demo.cpp', 'w').write(spec['demo'])
    open(out + '/demo.sh', 'w').write(spec.get('demo_sh') or DEMO % (spec.get('flags', ''), spec.get('libs', '')))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    def drop(why, r):
        print('REJECTED', spec['id'], why)
        print(r.stdout[-3000:])
        if new: shutil.rmtree(out)
        sys.exit(1)
    b = wt + '/b'
    r = sh('cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DSTRICT_BUILD_TESTS=ON -DSTRICT_BUILD_EXAMPLES=ON '
           '-DSTRICT_BUILD_BENCHMARKS=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C %s' % (repo, b, b))
    if r.returncode: drop('does not build', r)
    r = sh('ctest --test-dir %s -j8 --timeout 300 --output-on-failure' % b)
    if r.returncode: drop('tests fail', r)
    r = sh('bash %s/demo.sh' % out, cwd='/repo')
    if r.returncode: drop('demo fails on the unchanged tree (%d)' % r.returncode, r)
    r = sh('bash %s/demo.sh' % out, cwd=repo)
    if r.returncode in (0, 2, 124): drop('demo exits %d with the patch' % r.returncode, r)
    print('KEPT', spec['id'], 'demo:', r.stdout.strip()[-300:])
    if '--nocheck' not in sys.argv:
        r = sh('python3 %s/check.py %s --repo %s' % (V, spec['property'], repo))
        print('CAUGHT' if r.returncode == 1 else 'MISSED(%d)' % r.returncode, spec['id'])
        print('\n'.join(l[:300] for l in r.stdout.splitlines()[:6]))
finally:
    shutil.rmtree(wt)
