from vpa import eng, hist, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
NONE = ('i', -1)
CLOEXEC = 0x80000       # O_CLOEXEC and SOCK_CLOEXEC
FDS = {'open': 1, 'open64': 1, 'socket': 1, 'accept4': 3, 'accept': None}
FILES = {'fopen', 'fopen64', 'fdopen'}
MAPS = {'mmap', 'mmap64'}
CREATE = set(FDS) | FILES | MAPS | {'getaddrinfo', 'scandir', 'scandir64', 'malloc', 'calloc'}
RELEASE = {'close': 'fd', 'fclose': 'file', 'munmap': 'map', 'freeaddrinfo': 'addresses', 'free': 'memory'}
WHAT = {'fd': 'file descriptor', 'file': 'file', 'map': 'mapping', 'addresses': 'list of addresses', 'memory': 'memory'}
INPUTS = ('RC_INPUT', 'TRIMBLE_INPUT')


def flagged(v, bit):
    if v[0] == 'i':
        return bool(v[1] & bit)
    if v[0] == 't' and v[1] == 'or':
        return any(flagged(x, bit) for x in v[2:4] if isinstance(x, tuple))
    return False


class Owner(eng.Monitor):
    """mon x: (resources acquired: ((kind, value), ...), released)"""
    key = 'x'
    init = ((), ())

    def __init__(self, res):
        self.res = res

    def add(self, st, kind, v):
        self.res.n['acquired'] += 1
        a, r = st.mon['x']
        st.mon['x'] = (a + ((kind, v),), r)

    def call(self, e, st, name, args, i):
        if name in FDS:
            k = FDS[name]
            if k is None or not flagged(args[k], CLOEXEC):
                e.report('inherit', i, 'a descriptor is inherited by programs executed', st)
            s2 = st.copy()
            v = st.fresh((0, 1 << 20))
            self.add(st, 'fd', v)
            if len([x for x in st.mon['x'][0] if x[0] == 'fd']) > 4:
                e.report('leak', i, 'more and more file descriptors stay open', st)
                return 'stop'
            e.note(s2, '%s %s fails' % (e.mod.locstr(i), name))
            return [(st, v), (s2, NONE)] + self.cancel(e, s2, name, i)
        if name == 'NETC_connect':
            s2 = st.copy()
            v = st.fresh((0, 1 << 20))
            self.add(st, 'fd', v)
            if len([x for x in st.mon['x'][0] if x[0] == 'fd']) > 4:
                e.report('leak', i, 'more and more file descriptors stay open', st)
                return 'stop'
            return [(st, v), (s2, NONE)] + self.cancel(e, s2, name, i)
        if name in FILES or name in MAPS:
            s2 = st.copy()
            v = st.fresh((1, eng.PMAX))
            self.add(st, 'file' if name in FILES else 'map', v)
            e.note(s2, '%s %s fails' % (e.mod.locstr(i), name))
            return [(st, v), (s2, F if name in FILES else NONE)]
        if name == 'getaddrinfo':
            s2 = st.copy()
            e.note(s2, '%s %s fails' % (e.mod.locstr(i), name))
            out = []
            for n in (1, 2):            # length of the list
                s = st.copy()
                nodes = [('p', ('h', s.fresh()[1]), F) for k in range(n)]
                nxt = e.mod.field('addrinfo', 'ai_next')
                for k, x in enumerate(nodes):
                    s.mem[x[1]] = {}
                    s.write(x[1], nxt[0], 8, nodes[k + 1] if k + 1 < n else F)
                self.add(s, 'addresses', nodes[0])
                e.store(s, nodes[0], args[3], 8, i)
                out.append((s, F))
            return out + [(s2, s2.fresh((1, 100)))] + self.cancel(e, s2, name, i)
        if name in ('scandir', 'scandir64'):
            s2 = st.copy()
            v = st.fresh((1, eng.PMAX))
            self.add(st, 'memory', v)
            e.store(st, v, args[1], 8, i)
            e.note(s2, '%s %s fails' % (e.mod.locstr(i), name))
            return [(st, st.fresh((0, 1 << 31))), (s2, NONE)] + self.cancel(e, s2, name, i)
        if name in ('malloc', 'calloc'):
            out = eng.m_malloc(e, st, name, args, i)
            self.add(out[0][0], 'memory', out[0][1])
            return out
        if name in RELEASE:
            out = []
            if name == 'close':         # it is closed or not if cancelled meanwhile
                s2 = st.copy()
                a, r = s2.mon['x']
                s2.mon['x'] = (tuple(x for x in a if x != ('fd', args[0])), r)
                out = self.cancel(e, s2, name, i)
            self.release(e, st, RELEASE[name], args[0], i)
            return [(st, F)] + out
        if args and ('fd', args[0]) in st.mon['x'][1] and not name.startswith('LOG_'):
            e.report('use', i, 'a closed descriptor is used', st)

    def cancel(self, e, st, name, i):
        return [(x, [x]) for x in e.cancel_here(st.copy(), i, name)] if name in e.cancelpoints else []

    def release(self, e, st, kind, v, i):
        a, r = st.mon['x']
        if kind == 'memory':
            v = self.start(v)
        if (kind, v) in a:
            self.res.n['released'] += 1
            n = a.index((kind, v))
            st.mon['x'] = (a[:n] + a[n + 1:], (r + ((kind, v),))[-3:])
        elif (kind, v) in r:
            e.report('twice', i, '%s is released twice' % WHAT[kind], st)

    def start(self, v):
        return v

    def held(self, e, st, extra=()):
        """values which are still known to somebody"""
        seen, todo, vals = set(), [o for o in st.mem if o[0] in 'gd'], list(extra)
        out = set(extra)
        while todo or vals:
            while vals:
                v = vals.pop()
                out.add(v)
                if v[0] == 'p' and v[1][0] == 'h':
                    out.add(('p', v[1], F))
                    todo.append(v[1])
            while todo:
                o = todo.pop()
                if o in seen:
                    continue
                seen.add(o)
                vals += [x for k, (z, x) in st.mem.get(o, {}).items()]
        return out

    def leaks(self, e, st, i, extra=()):
        h = self.held(e, st, extra)
        for kind, v in st.mon['x'][0]:
            if v not in h:
                e.report('leak', i, '%s is never released' % WHAT[kind], st)

    def exit(self, e, st, kind, v, i):
        pass


class Single(Owner):
    keep = False

    def exit(self, e, st, kind, v, i):
        if kind == 'noreturn':
            return
        self.res.n['exits'] += 1
        self.leaks(e, st, i, [v] if v is not None and kind == 'return' else [])
        if not self.keep:
            for what, x in st.mon['x'][0]:
                if what != 'memory':
                    e.report('leak', i, '%s is not released' % WHAT[what], st)


class Device(hist.History):
    def __init__(self, res, own):
        hist.History.__init__(self, res)
        self.own = own

    def end(self, e, st, v, i):
        self.check(e, st, i, self.op(st) == 'disconnect')

    def check(self, e, st, i, closed):
        a, r = st.mon['x']
        if closed:
            for kind, x in a:
                e.report('leak', i, '%s stays open after disconnecting' % WHAT[kind], st)
        else:
            self.own.leaks(e, st, i)
        h = self.own.held(e, st)
        st.mon['x'] = (a, tuple(x for x in r if x[1] in h))

    def exit(self, e, st, kind, v, i):
        if kind == 'cancel':
            self.res.n['exits'] += 1
            self.check(e, st, i, False)
            st = st.copy()
            st.unw = False
            st.cancel = True
            self.exits.append(st)
        else:
            hist.History.exit(self, e, st, kind, v, i)


class Comp(Device):
    def end(self, e, st, v, i):
        up = self.op(st) == 'construct' and v != F
        if self.op(st) == 'construct' and v not in (T, F):
            raise AnalysisError('unknown result')
        st.mon['h'] = ('up',) if up else ()
        a, r = st.mon['x']
        if not up:
            for kind, x in a:
                e.report('leak', i, '%s is kept after %s' % (WHAT[kind], 'destructing' if self.op(st) == 'destruct' else 'constructing failed'), st)
        else:
            self.own.leaks(e, st, i)
        h = self.own.held(e, st)
        st.mon['x'] = (a, tuple(x for x in r if x[1] in h))


class C21(Check):
    id = 'C21'
    title = 'Descriptors, files, mappings and buffers are released once, on every path'
    rule = ('Ownership typestate: every resource acquired must, on every path out of a function including failures and cancellation, be released, returned or reachable from a variable; none is used or '
            'released after its release. For the inputs, all histories of connecting, transferring and disconnecting. Descriptors are opened close-on-exec.')
    quick = ['rc', 'rcnet', 'dump1090']
    minimum = {'acquired': 30, 'released': 20, 'exits': 60}
    assumptions = ['connection sockets are handled by C12, frame buffers by C04 and C05']

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            up = rules.callers(m)
            cb = set(rules.roots(m))
            roots, todo, seen = set(), [f.name for f in m.defined.values() for i in f.calls() if i.d['callee'][0] == 'f' and i.d['callee'][1] in CREATE], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in cb and not x.startswith('BUF_'):
                    roots.add(x)
                if x not in cb or m.functions[x].ret == 'ptr' and not x.startswith('BUF_'):
                    todo += [f.name for f, _ in up.get(x, ())]
            for x in INPUTS:
                if x + '_connect' in m.functions and not m.functions[x + '_connect'].decl:
                    out.append((p, 'input', x))
                    roots -= {r for r in roots if r.startswith(x)}
            for k, c in m.comps().items():
                con = c['onConstruct']
                if con and con[0] == 'f' and con[1] in roots:
                    roots.discard(con[1])
                    out.append((p, 'component', k))
            out += [(p, 'function', r) for r in sorted(roots)]
        return out

    def units(self, m):
        """functions which cannot hand over a resource: analysed on their own"""
        return {f.name for f in m.defined.values() if not f.internal and f.ret in ('void', 'i1') and rules.reach(m, [f.name]) & CREATE}

    def plain(self, m):
        """functions which cannot have to do with a resource"""
        return {f.name for f in m.defined.values() if all(a[1] != 'ptr' for a in f.args) and f.ret != 'ptr' and not rules.reach(m, [f.name]) & (CREATE | set(RELEASE)) and
                not rules.reach(m, [f.name]) & {'_exit', 'exit'} and not f.noreturn}

    def run(self, job, res):
        m = ir.load(job[0])
        if job[1] == 'input':
            return self.input(m, res, job[2])
        if job[1] == 'component':
            own = Owner(res)
            c = m.comps()[job[2]]
            f = {n: m.functions[c[x][1]] for n, x in (('construct', 'onConstruct'), ('destruct', 'onDestruct')) if c[x] and c[x][0] == 'f'}
            args = lambda up, g: lambda st: [st.fresh() for _ in g.args] if bool(st.mon['h']) == up else None
            hist.explore(m, res, Comp(res, own), (), [(n, g, args(n == 'destruct', g)) for n, g in f.items()], self.units(m) | self.plain(m) - {g.name for g in f.values()}, [own], widen=4, K=12)
            return
        own = Single(res)
        f = m.functions[job[2]]
        own.keep = f.ret not in ('void', 'i1')
        live = rules.reach(m, list(rules.threads(m).values()))
        e = eng.Engine(m, [own], shared=lambda g: False, cancel=f.name in live, noinline=self.units(m) | self.plain(m) - {f.name}, relational=True, K=12)
        e.run(f)
        res.take(e)

    def input(self, m, res, x):
        own = Owner(res)
        mon = Device(res, own)
        bufs = lambda st: [st.fresh((1, eng.PMAX)), st.fresh((1, 1 << 20))]
        none = lambda st: []

        def mk(f):
            return lambda st: f(st) if st.mon['h'] else None

        def init(st):
            if st.mon['h']:
                return None
            st.mon['h'] = ('up',)
            return []
        ops = [('init', x + '_init', init), ('connect', x + '_connect', mk(none)), ('disconnect', x + '_disconnect', mk(none)), ('read', x + '_read', mk(bufs)), ('write', x + '_write', mk(bufs))]
        hist.explore(m, res, mon, (), [(n, rules.api(m, f), a) for n, f, a in ops], {'NETC_connect'}, [own], cancel=True, widen=4)


CHECK = C21()
