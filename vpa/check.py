"""Running one check: jobs in parallel, known findings, evidence, verdict."""
import argparse, collections, json, multiprocessing, os, sys, time, traceback
from . import ir
from .ir import AnalysisError, VERIF

KNOWN = os.path.join(VERIF, 'known-findings.txt')
ALL = [p for p in ir.PRODUCTS if p != 'rcsys']


class Result:
    """What one job found.  Everything in it is picklable."""

    def __init__(self):
        self.violations = []
        self.n = collections.Counter()
        self.samples = []
        self.fns = set()

    def viol(self, rule, fn, msg, loc='?', trace=()):
        self.violations.append(dict(rule=rule, fn=fn, msg=msg, loc=loc, trace=list(trace)))

    def take(self, e):
        """absorb an engine"""
        for v in e.violations.values():
            self.viol(v.rule, v.fn, v.msg, v.loc, v.trace)
        for k, x in e.stats.items():
            self.n['engine_' + k] += x
        self.n['engine_steps'] += e.steps
        self.fns |= e.fns_seen


class Check:
    id = None
    title = ''
    rule = ''
    quick = ['rc']
    thorough = ALL
    minimum = {}            # counter -> number of instances confirmed by hand (sum over products of a tier)
    assumptions = []

    def jobs(self, tier):
        """list of jobs; a job is any picklable value, job[0] is the product"""
        raise NotImplementedError

    def run(self, job, res):
        raise NotImplementedError

    def products(self, tier):
        return self.quick if tier == 'quick' else self.thorough

    def selftest(self, res):
        """must raise AnalysisError if a rule no longer fires on its positive example"""

    def finish(self, total, results):
        """conclusions over all jobs; violations added here need a product"""

    def mins(self, tier):
        return self.minimum


_check = None


def _work(job):
    r = Result()
    t = time.time()
    try:
        _check.run(job, r)
        err = None
    except AnalysisError as x:
        err = '%s: %s' % (job, x)
    except RecursionError as x:
        err = '%s: recursion: %s' % (job, x)
    except Exception:
        err = '%s: %s' % (job, traceback.format_exc())
    return job, r, err, time.time() - t


def known():
    """{property: {key: text}} of unrepaired findings"""
    out = collections.defaultdict(dict)
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: '):
                f = l[len('finding: '):].split(' ', 2)
                prop = f[0].split('=', 1)[1]
                key = f[1].split('=', 1)[1]
                out[prop][key] = f[2] if len(f) > 2 else ''
    return out


def vkey(v):
    return ('%s:%s:%s' % (v['rule'], v['fn'], v['msg'])).replace(' ', '_')


def main(check, argv=None):
    global _check
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    _check = check
    t0 = time.time()
    sys.setrecursionlimit(20000)
    errs = []
    total = Result()
    per = collections.Counter()
    times = []
    jobs = []
    results = []
    try:
        check.selftest(total)
        jobs = check.jobs(a.tier)
        if a.only:
            jobs = [j for j in jobs if a.only in str(j)]
        for p in sorted({j[0] for j in jobs}):
            ir.load(p)
    except AnalysisError as x:
        errs.append(str(x))
        jobs = []
    if jobs:
        with multiprocessing.get_context('fork').Pool(min(a.jobs, len(jobs))) as pool:
            for job, r, err, dt in pool.imap_unordered(_work, jobs, 1):
                times.append((dt, job))
                if err:
                    errs.append(err)
                for v in r.violations:
                    v['product'] = job[0]
                    total.violations.append(v)
                total.n.update(r.n)
                per[job[0]] += 1
                total.samples += r.samples
                total.fns |= {(job[0], f) for f in r.fns}
                results.append(r)
        check.finish(total, results)
    uniq = {}
    for v in total.violations:
        k = vkey(v)
        if k in uniq:
            if v['product'] not in uniq[k]['products']:
                uniq[k]['products'].append(v['product'])
        else:
            v['products'] = [v['product']]
            uniq[k] = v
    kn = known().get(check.id, {})
    new = {k: v for k, v in uniq.items() if k not in kn}
    old = {k: v for k, v in uniq.items() if k in kn}
    if not a.only and not new:
        for c, m in check.mins(a.tier).items():
            if total.n[c] < m:
                errs.append('analysis broken: %s = %d, at least %d instances were confirmed' % (c, total.n[c], m))
    wall = time.time() - t0
    evd = os.environ.get('VP_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    for f in os.listdir(evd):
        if f.startswith(check.id + '-violation-'):
            os.unlink(os.path.join(evd, f))
    counts = {k: v for k, v in sorted(total.n.items())}
    ev = {
        'property': check.id, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
        'coverage': dict(
            explanation='Static analysis of the LLVM IR compiled from the current /repo source. Rule: ' + check.rule,
            products=sorted(per), units=sorted({u for p in per for u in ir.load(p).units}) if per else [],
            roots_analysed=len(jobs), functions_analysed=len(total.fns), counts=counts,
            functions=sorted({f for _, f in total.fns})[:400],
            samples=total.samples[:25], known_findings=sorted(old), errors=errs),
        'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': len(new)}
    path = os.path.join(evd, check.id + '.json')
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, path)
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s (%s at %s)' % (check.id, kn[k] or old[k]['msg'], old[k]['fn'], old[k]['loc']))
    n = 0
    for k, v in sorted(new.items()):
        n += 1
        rp = os.path.join(evd, '%s-violation-%d.txt' % (check.id, n))
        with open(rp, 'w') as f:
            f.write('property: %s %s\nrule: %s\nviolated rule: %s\nfunction: %s\nlocation: %s\nproducts: %s\nwhat: %s\nkey: %s\npath:\n' % (
                check.id, check.title, check.rule, v['rule'], v['fn'], v['loc'], ', '.join(v['products']), v['msg'], k))
            for t in v['trace']:
                f.write('  %s\n' % t)
        if n <= 20:
            print('%s: %s: [%s] %s in %s' % (check.id, v['loc'], v['rule'], v['msg'], v['fn']))
            print('VIOLATION property=%s replay=%s' % (check.id, rp))
    if a.v:
        for dt, j in sorted(times, key=lambda x: -x[0])[:12]:
            print('  %.1fs %s' % (dt, j))
        print('  counts', counts)
    if new:
        return 1
    if errs:
        for x in errs[:10]:
            print('ERROR: %s' % x)
        return 2
    print('%s: held (%s): %d roots, %d functions, %.1fs' % (check.id, a.tier, len(jobs), len({f for _, f in total.fns}), wall))
    return 0
