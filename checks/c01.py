from vpa import eng, ir, rules
from vpa.check import Check


class Locks(eng.Monitor):
    key = 'l'

    def __init__(self, res):
        self.res = res
        self.edges = {}

    def lock(self, e, st, what, mu, i):
        n = rules.mname(e.mod, mu)
        if what == 'acquire':
            self.res.n['acquisitions'] += 1
            for h in st.locks:
                if h != mu:
                    a = rules.mname(e.mod, h)
                    self.edges.setdefault((a, n), (e.insfn(i), e.mod.locstr(i)))
        elif what == 'release':
            self.res.n['releases'] += 1
        elif what == 'relock':
            e.report('relock', i, 'mutex %s is locked again by the thread which holds it' % n, st)
        elif what == 'notheld':
            e.report('unlock', i, 'mutex %s is unlocked without being held' % n, st)
        elif what == 'waitnotheld':
            e.report('wait', i, 'condition wait without holding mutex %s' % n, st)

    def exit(self, e, st, kind, v, i):
        if kind == 'noreturn':
            return
        self.res.n['exits_checked'] += 1
        if kind == 'cancel':
            self.res.n['cancellation_exits'] += 1
        for mu in st.locks:
            e.report('held', i, 'mutex %s is still held when %s' % (
                rules.mname(e.mod, mu), 'the thread is cancelled' if kind == 'cancel' else 'the function returns'), st)
        if kind == 'return' and not st.cancel:
            e.report('cancelstate', i, 'cancellation is still disabled when the function returns', st)


class C01(Check):
    id = 'C01'
    title = 'Mutexes are balanced on every path including thread cancellation, never taken twice, in one global order'
    rule = ('On every path of every exported function, component callback and thread main - including the unwinding '
            'of cleanup handlers when the thread is cancelled at a cancellation point - each acquired mutex is released exactly '
            'once, no held mutex is locked again, condition waits hold their mutex, and the order in which mutexes are nested is acyclic.')
    quick = ['rc', 'lib', 'dump1090-kit']
    minimum = {'acquisitions': 60, 'exits_checked': 150, 'cancellation_exits': 30}
    assumptions = ['cancellation is deferred and acts only at the POSIX cancellation points listed in vpa/eng.py',
                   'recursion and calls through unresolved function pointers are over-approximated by unknown results']

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            for r in rules.roots(m):
                out.append((p, r))
        # long ones first
        return sorted(out, key=lambda j: (j[1] not in ('main', 'CFG_readDirectory', 'CFG_readFile'), j))

    def run(self, job, res):
        m = ir.load(job[0])
        mon = Locks(res)
        e = eng.Engine(m, [mon])
        e.run(job[1])
        res.take(e)
        res.edges = {k: (job[0],) + v for k, v in mon.edges.items()}

    def finish(self, total, results):
        edges = {}
        for r in results:
            for k, v in getattr(r, 'edges', {}).items():
                edges.setdefault(v[0], {}).setdefault(k, v)
        for p, es in edges.items():
            g = {}
            for a, b in es:
                g.setdefault(a, set()).add(b)
            for (a, b), (pp, fn, loc) in sorted(es.items()):
                total.samples.append('%s: %s then %s (%s)' % (p, a, b, loc)) if len(total.samples) < 20 else None
                # is a reachable from b?
                seen, todo = set(), [b]
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    todo += g.get(x, ())
                if a in seen:
                    total.viol('order', fn, 'mutex %s is taken while holding %s, elsewhere the other way round' % (b, a), loc)
                    total.violations[-1]['product'] = p
            total.n['nestings'] += len(es)


CHECK = C01()
