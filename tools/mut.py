#!/usr/bin/env python3
"""Sensitivity probe: mut.py PNN FILE OLD NEW [FILE OLD NEW ...] - applies the edit to a scratch copy of the headers and runs the check."""
import sys, shutil, subprocess, tempfile, os
pid, e = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix='mut')
shutil.copytree('/repo/strictpp', d + '/strictpp')
for i in range(0, len(e), 3):
    p = d + '/strictpp/' + e[i]
    s = open(p).read()
    assert s.count(e[i+1]) >= 1, ('not found', e[i+1])
    open(p, 'w').write(s.replace(e[i+1], e[i+2], 1))
r = subprocess.run(['python3', '/verif/check.py', pid, '--repo', d], capture_output=True, text=True)
print('CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR', pid, e[1][:50].replace('\n', ' '), '->', e[2][:50].replace('\n', ' '))
print('\n'.join('   ' + l[:300] for l in r.stdout.split('\n')[:4]))
shutil.rmtree(d)
