from vpa import eng, ir, rules
from vpa.check import Check

# types whose instances with static storage are shared between threads and guarded by a mutex of their file
BOTH = {'LIST_ListDC', 'BUFFER_Statistics', 'CONN_STATE', 'TRANSIT_STATE', 'GPS_Position'}
STORES = {'sock_t'}     # each socket is read only by the thread which has seen the connection it belongs to
# unlocked by design, one line of reason each
EXEMPT_LOADS = {'NET_getStatistics': 'statistics may be inconsistent'}


def guarded(m):
    """{global: 'rw' or 'w'}"""
    mfiles = {g.file for g in m.globals.values() if g.d.get('dtype') == 'pthread_mutex_t' and not g.scope}
    gps = {g.file for g in m.globals.values() if g.d.get('dtype') == 'GPS_Position'}
    ser = {f.file for f in m.defined.values() if f.dname == 'SERIAL_getSerial'}
    out = {}
    for g in m.globals.values():
        if g.constant or g.d['decl'] or g.scope or g.file not in mfiles:
            continue
        t = g.d.get('dtype')
        if t in BOTH:
            out[g.name] = 'rw'
        elif t in STORES:
            out[g.name] = 'w'
        elif g.file in gps and t == '_Bool':
            out[g.name] = 'rw'
        elif g.file in ser and t in ('_Bool', 'uint32_t'):
            out[g.name] = 'rw'
    return out


class Acc(eng.Monitor):
    key = 'a'

    def __init__(self, res, g):
        self.res = res
        self.g = g
        self.acc = {}       # (object, lock names) -> first (loc, fn, trace, kind)

    def access(self, e, st, obj, i, kind):
        if obj[0] != 'g' or obj[1] not in self.g:
            return
        if kind == 'load':
            if self.g[obj[1]] == 'w' or any(f.fn.dname in EXEMPT_LOADS for f in st.frames):
                return
        self.res.n['accesses'] += 1
        k = (obj[1], tuple(sorted({rules.mname(e.mod, l) for l in st.locks})), kind, e.mod.locstr(i))
        if k not in self.acc:
            self.acc[k] = (e.insfn(i), e.trace(st))

    def load(self, e, st, obj, off, size, i):
        self.access(e, st, obj, i, 'load')

    def store(self, e, st, obj, off, size, val, i):
        self.access(e, st, obj, i, 'store')


class C03(Check):
    id = 'C03'
    title = 'State shared between threads is only accessed with its mutex held'
    rule = ('Lockset analysis: for every static object of the shared kinds (frame lists and buffer statistics, connection and transit state, '
            'sockets (writes), GPS position and its flags, requested serial number) one mutex is held at every access on every path of '
            'every entry point which runs while threads run; component construction and destruction and the configuration parser are excluded.')
    quick = ['rc', 'lib', 'dump1090-kit']
    minimum = {'objects': 30, 'accesses': 300}
    assumptions = ['elements of lists are reached through the guarded list heads', 'NET_getStatistics may read the connection state unlocked (documented)',
                   'components are constructed, configured and destructed while no thread of theirs runs (C22)']

    def jobs(self, tier):
        return [(p,) for p in self.products(tier)]

    def run(self, job, res):
        m = ir.load(job[0])
        g = guarded(m)
        res.n['objects'] += len(g)
        single = set()
        for c in m.comps().values():
            for k in ('onConstruct', 'onDestruct', 'onRegister'):
                if rules.fnop(c[k]):
                    single.add(rules.fnop(c[k]))
        mon = Acc(res, g)
        for r in rules.roots_reaching(m, rules.users(m, set(g)), lambda f: f.name not in single and f.name != 'main'):
            e = eng.Engine(m, [mon])
            e.run(r)
            res.take(e)
            res.n['roots'] += 1
        by = {}
        for (o, locks, kind, loc), x in mon.acc.items():
            by.setdefault(o, []).append((locks, kind, loc, x))
        for o, l in sorted(by.items()):
            common = set(l[0][0])
            for locks, _, _, _ in l:
                common &= set(locks)
            name = rules.gname(m, ('g', o))
            if common:
                res.samples.append('%s: %s guarded by %s at %d access points' % (job[0], name, '/'.join(sorted(common)), len(l)))
                continue
            cnt = {}
            for locks, _, _, _ in l:
                for x in locks:
                    cnt[x] = cnt.get(x, 0) + 1
            best = max(cnt, key=lambda x: (cnt[x], x)) if cnt else None
            for locks, kind, loc, (fn, tr) in l:
                if best not in locks:
                    res.viol('lockset', fn, '%s of %s without %s' % (kind, name, best or 'any mutex'), loc, tr)


CHECK = C03()
