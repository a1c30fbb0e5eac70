from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

CONDS = {'pthread_cond_wait', 'pthread_cond_timedwait'}
IO = {'connect', 'getaddrinfo', 'gethostbyname', 'accept', 'send', 'sendto', 'sendmsg', 'recv', 'recvfrom', 'read', 'write', 'poll', 'ppoll', 'select', 'tcdrain', 'sleep', 'usleep', 'nanosleep', 'fork',
      'waitpid', 'wait', 'pthread_join', 'sem_wait', 'pthread_barrier_wait', 'flock', 'fsync', 'sigwait', 'pause', 'system'}
LONG = {'main', 'CFG_readDirectory', 'CFG_readFile', 'CFG_write'}      # before and after the threads run
SINK = 'BUF_commitFrame'


class Blocking(eng.Monitor):
    """which mutexes are held while waiting, which are taken meanwhile"""
    key = 'b'

    def __init__(self, res):
        self.res = res
        self.held, self.nest, self.taken, self.waits = {}, {}, {}, {}

    def call(self, e, st, name, args, i):
        if name not in CONDS and name not in IO:
            return
        self.res.n['waits'] += 1
        where = (name, e.insfn(i), e.mod.locstr(i))
        self.waits.setdefault(name, where)
        for mu in st.locks:
            if not (name in CONDS and mu == args[1]):
                self.held.setdefault(rules.mname(e.mod, mu), where)

    def lock(self, e, st, what, mu, i):
        if what in ('acquire', 'relock'):
            n = rules.mname(e.mod, mu)
            self.res.n['acquisitions'] += 1
            self.taken.setdefault(n, (e.insfn(i), e.mod.locstr(i)))
            for h in st.locks:
                self.nest.setdefault((rules.mname(e.mod, h), n), (e.insfn(i), e.mod.locstr(i)))


class C24(Check):
    id = 'C24'
    title = 'Receiving frames never waits for the network'
    rule = ('Lock and blocking analysis of all paths of all roots: no mutex taken where frames are received and buffered is ever held, by any thread, while it waits for the network, a device, time or a condition, '
            'or for such a mutex; and frames are buffered without waiting for a condition.')
    quick = ['rc', 'lib', 'gplib', 'dump1090-kit']
    minimum = {'waits': 1000, 'acquisitions': 600, 'receivers': 4, 'mutexes_held_waiting': 8}
    assumptions = ['writing log messages is not taken as waiting']

    def jobs(self, tier):
        return [(p, r) for p in self.products(tier) if p != 'wd' for r in rules.roots(ir.load(p)) if r not in LONG]

    def run(self, job, res):
        m = ir.load(job[0])
        if not rules.reach(m, {job[1]}) & (CONDS | IO | {'pthread_mutex_lock', 'pthread_mutex_trylock'}):
            return
        b = Blocking(res)
        e = eng.Engine(m, [b], cancel=False)
        e.run(m.functions[job[1]])
        res.take(e)
        res.data = (job, b.held, b.nest, b.taken, b.waits)

    def receivers(self, m):
        """functions frames come in by: threads and functions of the interface"""
        api = {f for f in rules.roots_reaching(m, {SINK}) if not f.startswith('BUF_') and f not in LONG}
        if not api:
            raise AnalysisError('%s: nothing receives frames' % m.key)
        return api

    def finish(self, total, results):
        data = {}
        for r in results:
            if getattr(r, 'data', None):
                job, *d = r.data
                data.setdefault(job[0], {})[job[1]] = d
        for p, d in sorted(data.items()):
            m = ir.load(p)
            held, nest = {}, {}
            for h, n, t, w in d.values():
                held.update(h)
                nest.update(n)
            total.n['mutexes_held_waiting'] += len(held)
            todo = list(held)
            while todo:                     # waiting for a mutex which is held while waiting
                b = todo.pop()
                for (a, c), (fn, loc) in nest.items():
                    if c == b and a not in held:
                        held[a] = ('waiting for ' + b, fn, loc)
                        todo.append(a)
            threads = set(rules.threads(m).values())
            for r in sorted(self.receivers(m)):
                if r not in d:
                    continue
                total.n['receivers'] += 1
                h, n, taken, waits = d[r]
                for mu, (fn, loc) in sorted(taken.items()):
                    if mu in held:
                        total.viol('wait', fn, 'receiving frames takes mutex %s, which is held during %s in %s' % (mu, held[mu][0], held[mu][1]), loc, [held[mu][2]])
                        total.violations[-1]['product'] = p
                for x, (name, fn, loc) in sorted(waits.items()):
                    if x in CONDS or r not in threads:
                        total.viol('block', fn, 'receiving frames waits in %s' % x, loc)
                        total.violations[-1]['product'] = p


CHECK = C24()
