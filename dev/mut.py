#!/usr/bin/env python3
"""Regression of the checks: textual mutants (must be reported) and rewrites (must stay quiet).
   dev/mut.py [-k SUBSTR] [-c C02]     works on a scratch copy of /repo/src, never on /repo"""
import argparse, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    spec = importlib.util.spec_from_file_location('mutants', os.path.join(HERE, 'mutants.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.M


def run(mu, par):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree(os.environ.get('VP_SRC', '/repo/src'), d + '/src', ignore=shutil.ignore_patterns('*.o', '*.am', '*.in', 'test'))
        for f, old, new in mu['edits']:
            p = d + '/src/' + f
            s = open(p).read()
            if s.count(old) < 1:
                return mu, 'STALE', f + ': ' + old[:60]
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        out = []
        ok = True
        for c in mu['checks']:
            env = dict(os.environ, VP_REPO=d, VP_EVIDENCE=d + '/ev', VP_CACHE=d + '/ir')
            r = subprocess.run([VERIF + '/check', c, '--jobs', str(par)] + mu.get('args', []), env=env, capture_output=True, text=True)
            want = 1 if mu['kind'] == 'bug' else 0
            if r.returncode != want:
                ok = False
            out.append('%s=%d %s' % (c, r.returncode, '' if r.returncode == 0 else
                                     '; '.join(l for l in (r.stdout + r.stderr).splitlines() if not l.startswith('VIOLATION'))[:300]))
        return mu, 'ok' if ok else 'WRONG', ' | '.join(out)
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-k', default='')
    ap.add_argument('-c', default='')
    ap.add_argument('-j', type=int, default=4)
    a = ap.parse_args()
    ms = []
    for mu in load():
        mu = dict(mu)
        if a.c:
            mu['checks'] = [c for c in mu['checks'] if c in a.c.split(',')]
        if a.k in mu['name'] and mu['checks']:
            ms.append(mu)
    bad = 0
    with ThreadPoolExecutor(a.j) as ex:
        for mu, v, t in ex.map(lambda x: run(x, max(1, 8 // a.j)), ms):
            bad += v != 'ok'
            print('%-6s %-4s %-34s %s' % (v, mu['kind'], mu['name'], t[:400]), flush=True)
    print('%d of %d as expected' % (len(ms) - bad, len(ms)))
    sys.exit(bad != 0)


if __name__ == '__main__':
    main()
