#!/usr/bin/env python3
"""dev/mk.py NAME DIR: copy of /repo/src with one mutant applied, for debugging (use VP_REPO=DIR)"""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
mu = [m for m in mut.load() if m['name'] == sys.argv[1]][0]
d = sys.argv[2]
if os.path.isdir(d):
    shutil.rmtree(d)
shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('*.o', '*.am', '*.in', 'test'))
for f, old, new in mu['edits']:
    p = d + '/src/' + f
    s = open(p).read()
    assert old in s
    open(p, 'w').write(s.replace(old, new, 1))
