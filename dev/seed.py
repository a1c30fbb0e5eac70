#!/usr/bin/env python3
"""seed.py [ID…]: verify planted bugs in a scratch copy: builds, tests pass, demo 0 without and !=0 with the patch, check catches it.
   seed.py new ID PROPERTY FILE <<< 'old\n=====\nnew': write patch.diff (several files: FILE then old/new, separated by ##### FILE)"""
import json, os, re, shutil, subprocess, sys
V = '/verif/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def verify(id, wt):
    d = V + '/' + id
    meta = json.load(open(d + '/meta.json'))
    out = []
    r = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
    out.append('demo-clean=%d' % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:])
    r = sh('cd %s && git apply %s/patch.diff' % (wt, d))
    if r.returncode:
        print(id, 'PATCH FAILS', r.stdout)
        return
    try:
        e = dict(os.environ, VP_REPO=wt)
        r = sh('cd /verif && ./check %s' % meta['property'], env=e)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        out.append('check=%d%s' % (r.returncode, '' if v else ' NOVIOLATION'))
        full = sh('git -C /repo apply %s/patch.diff && cd /repo && bash /opt/vp/test.sh /tmp/seed.json; timeout 300 bash %s/demo.sh; echo RC=$?; git -C /repo checkout -- .' % (d, d))
        t = json.load(open('/tmp/seed.json'))
        out.append('tests=%d/%d' % (len(t['passed']), len(t['failed'])))
        out.append('demo-bug=' + re.findall(r'RC=(\d+)', full.stdout)[-1])
        if t['failed']:
            print('   ', t['failed'][:5])
    finally:
        sh('cd %s && git checkout -- .' % wt)
        sh('git -C /repo checkout -- .')
    print(id, meta['property'], *out, flush=True)


def main():
    if sys.argv[1:2] == ['new']:
        id, prop = sys.argv[2:4]
        txt = sys.stdin.read()
        wt = '/tmp/seedwt'
        clone(wt)
        for part in txt.split('##### ')[1:]:
            f, rest = part.split('\n', 1)
            s = open(wt + '/' + f).read()
            for pr in rest.split('-----\n'):
                a, b = pr.split('=====\n')
                assert s.count(a) == 1, (f, s.count(a), a)
                s = s.replace(a, b)
            open(wt + '/' + f, 'w').write(s)
        os.makedirs(V + '/' + id, exist_ok=True)
        p = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE).stdout
        open(V + '/' + id + '/patch.diff', 'wb').write(p)
        shutil.rmtree(wt)
        return
    ids = sys.argv[1:] or sorted(os.listdir(V))
    wt = '/tmp/seedwt'
    clone(wt)
    sh('bash /opt/vp/build.sh')
    for i in ids:
        verify(i, wt)
        sh('bash /opt/vp/build.sh')
    shutil.rmtree(wt)


def clone(wt):
    if os.path.exists(wt):
        shutil.rmtree(wt)
    sh('git clone -q /repo %s && cp -a /repo/_build /repo/config.h.in %s/' % (wt, wt))


main()
