from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
NONE = ('i', -1)
# functions of other components, taken as events: those which wait until there is something to do
WAITS = {'NET_waitConnected', 'BUF_getFrame'}
OPENS = {'open', 'open64', 'openat', 'openat64'}
SETTINGS = {'tcgetattr', 'tcsetattr', 'ioctl'}
READS = {'read', 'recv', 'recvfrom'}
WRITES = {'write', 'send', 'sendto'}
SLEEPS = {'sleep', 'usleep'}
CONDS = {'pthread_cond_wait', 'pthread_cond_timedwait'}
POLL = {'poll', 'ppoll'}
IN, BAD = 1, 0x10               # POLLIN, POLLHUP
STEPS = 24
STEP = OPENS | WRITES | {'NET_send', 'NETC_connect', 'LOGIN_login', 'BUF_getFrameTimeout'}
INPUTS = ('RC_INPUT_', 'TRIMBLE_INPUT_', 'INPUT_', 'TRIMBLE_PARSER_')
WAITING = WAITS | SLEEPS | CONDS | POLL | READS | {'NET_receive', 'BUF_getFrameTimeout', 'NETC_connect'}


class Pauses(eng.Monitor):
    """mon w: (connecting failed, nothing was read, polling failed, steps since something happened, descriptor)"""
    key = 'w'
    init = (F, F, F, 0, F)

    def __init__(self, res, m, forever, simple):
        self.res, self.m, self.forever, self.simple = res, m, forever, simple
        ff = m.structs.get('pollfd')
        self.revents = m.field('pollfd', 'revents') if ff else (6, 2)

    def set(self, st, failed=None, dry=None, hup=None, n=None, fd=None):
        st.mon['w'] = tuple(o if x is None else x for o, x in zip(st.mon['w'], (failed, dry, hup, n, fd)))

    def wait(self, e, st, i, what):
        self.res.n['waits'] += 1
        if not st.cancel:
            e.report('cancel', i, 'a thread cannot be cancelled while it waits', st)
        self.set(st, F, F, F, 0)

    def fail(self, e, st, i, what):
        s2 = st.copy()
        e.note(s2, '%s %s fails' % (e.mod.locstr(i), what))
        return s2

    def call(self, e, st, name, args, i):
        failed, dry, hup, n, fd = st.mon['w']
        if name.startswith(('LOG_', 'llvm.', 'pthread_setcancel', '__errno')):
            return
        if name in STEP or self.simple and len(st.frames) == 1:
            if n >= STEPS:
                e.report('busy', i, 'a thread goes on without waiting for anything', st)
                return 'stop'
            self.set(st, n=n + 1)
        if name in SLEEPS:
            if st.rng(args[0])[0] < 1:
                e.report('pause', i, 'the pause may be of no length', st)
                return 'stop'
            self.wait(e, st, i, name)
            return [(st, F)]
        if name in CONDS:
            self.wait(e, st, i, name)
            return                      # the model of the library
        if name in WAITS:
            self.wait(e, st, i, name)
            return
        if name == 'BUF_getFrameTimeout':
            s2 = st.copy()
            if st.rng(args[0])[0] < 1:
                e.report('pause', i, 'the pause may be of no length', st)
            self.wait(e, st, i, name)
            self.set(s2, F, F, F, 0)
            return [(st, F), (s2, s2.fresh((1, eng.PMAX)))]
        if name in ('NET_receive', 'NET_send', 'LOGIN_login'):
            s2 = self.fail(e, st, i, name)
            if name == 'NET_receive' and dry == T:
                e.report('spin', i, 'receiving is repeated although the connection is lost', st)
                return 'stop'
            self.set(st, F, F, F, 0)
            if name == 'NET_receive':
                hi = st.rng(args[1])[1]
                self.set(s2, dry=T)
                return [(st, st.fresh((1, hi))), (s2, s2.fresh((-1, 0)))]
            return [(st, T), (s2, F)]
        if name in OPENS or name == 'NETC_connect':
            self.res.n['attempts'] += 1
            if failed == T:
                e.report('retry', i, 'connecting is tried again without a pause', st)
                return 'stop'
            s2 = self.fail(e, st, i, name)
            self.set(s2, failed=T)
            v = st.fresh((0, 1 << 20))
            self.set(st, dry=F, hup=F, fd=v)
            if name == 'NETC_connect':
                self.set(st, n=0)
            return [(st, v), (s2, NONE)]
        if name in SETTINGS:
            s2 = self.fail(e, st, i, name)
            self.set(s2, failed=T)
            for a in args[1:]:
                e.havoc_arg(st, a)
            return [(st, F), (s2, NONE)]
        if name in WRITES:
            s2 = self.fail(e, st, i, name)
            self.set(s2, failed=T)
            return [(st, args[2]), (s2, NONE)]
        if name in READS:
            self.res.n['reads'] += 1
            if dry == T:
                e.report('spin', i, 'reading is repeated without waiting for data', st)
                return 'stop'
            hi = st.rng(args[2])[1]
            e.havoc_arg(st, args[1])
            s2 = st.copy()
            self.set(st, F, F, F, 0)
            self.set(s2, F, T, n=0)
            s3 = s2.copy()
            e.note(s2, '%s nothing to read' % e.mod.locstr(i))
            e.note(s3, '%s reading fails' % e.mod.locstr(i))
            return [(st, st.fresh((1, max(1, min(hi, 1 << 20))))), (s2, F), (s3, NONE)]
        if name in POLL:
            self.res.n['polls'] += 1
            if hup == T:
                e.report('spin', i, 'waiting for data is repeated although the device failed', st)
                return 'stop'
            if args[0][0] != 'p' or fd == F:
                raise AnalysisError('polling in an unknown way')
            v = e.rd(st, args[0][1], args[0][2], 4, 'i32')
            if not v == fd:
                e.report('device', i, 'another device than the one opened is waited for', st)
            if name == 'poll' and args[2][0] == 'i' and args[2][1] == 0:
                return [(st, st.fresh((-1, 1)))]
            s2, s3 = st.copy(), self.fail(e, st, i, name)
            out = []
            for s, r in ((st, IN), (s2, IN | BAD), (s2.copy(), BAD)):
                s.write(args[0][1], args[0][2][1] + self.revents[0], 2, ('i', r))
                if s is not st:
                    e.note(s, '%s the device failed' % e.mod.locstr(i))
                    self.set(s, dry=F, hup=T)
                else:
                    self.wait(e, s, i, name)
                out.append((s, T))
            self.set(s3, dry=F)
            return out + [(s3, NONE)]

    def exit(self, e, st, kind, v, i):
        self.res.n['exits'] += 1
        if kind == 'return' and self.forever:
            e.report('ends', i, 'a thread ends', st)


class Dial(eng.Monitor):
    """mon d: (addresses tried, sockets: ((value, state), ...), randomness)"""
    key = 'd'
    init = ((), (), ())

    def __init__(self, res, m, n, fam):
        self.res, self.m, self.n, self.fam = res, m, n, fam
        self.addrs = None

    def call(self, e, st, name, args, i):
        tried, socks, rnd = st.mon['d']
        if name == 'UTIL_randInt':
            if args[0][0] != 'i' or args[0][1] < 1:
                raise AnalysisError('unknown use of randomness')
            out = []
            for k in range(args[0][1]):
                s = st.copy()
                s.mon['d'] = (tried, socks, rnd + (k,))
                out.append((s, ('i', k)))
            return out
        if name == 'getaddrinfo':
            if args[2][0] == 'p':
                for f in ('ai_flags', 'ai_family', 'ai_socktype', 'ai_protocol', 'ai_addrlen', 'ai_addr', 'ai_canonname', 'ai_next'):
                    o, z = self.m.field('addrinfo', f)
                    v = e.rd(st, args[2][1], eng.addk(args[2][2], o), z, 'i%d' % (8 * z) if z < 8 else 'ptr')
                    if v[0] != 'i':
                        e.report('hints', i, 'what is looked for is uninitialized memory', st)
                        break
            s2 = st.copy()
            e.note(s2, '%s the name of the host is not found' % e.mod.locstr(i))
            nodes = [('p', ('h', st.fresh()[1]), F) for k in range(self.n)]
            addr = [('p', ('h', st.fresh()[1]), F) for k in range(self.n)]
            fld = {x: self.m.field('addrinfo', x) for x in ('ai_next', 'ai_family', 'ai_addr', 'ai_socktype', 'ai_protocol')}
            for k, x in enumerate(nodes):
                st.mem[x[1]] = {}
                st.mem[addr[k][1]] = {}
                st.write(addr[k][1], 2, 2, F)
                for f, v in (('ai_next', nodes[k + 1] if k + 1 < self.n else F), ('ai_family', ('i', self.fam[k])), ('ai_addr', addr[k]), ('ai_socktype', ('i', 1)), ('ai_protocol', ('i', 6))):
                    st.write(x[1], *fld[f], v)
            st.mon['d'] = (('addresses',) + tuple(addr), socks, rnd)
            e.store(st, nodes[0], args[3], 8, i)
            return [(st, F), (s2, s2.fresh((1, 100)))]
        if name == 'socket':
            s2 = st.copy()
            e.note(s2, '%s socket fails' % e.mod.locstr(i))
            v = st.fresh((0, 1 << 20))
            if args[0][0] != 'i' or args[0][1] not in (2, 10):
                e.report('family', i, 'unknown address family', st)
            st.mon['d'] = (tried, socks + ((v, 'new', args[0][1]),), rnd)
            s2.mon['d'] = (tried + (('none', args[0][1]),), socks, rnd)
            return [(st, v), (s2, NONE)]
        if name == 'connect':
            self.res.n['connects'] += 1
            k = [x for x in socks if x[0] == args[0]]
            if not k or k[0][1] != 'new':
                e.report('socket', i, 'a socket is connected twice', st)
                return 'stop'
            a = [x for x in tried if x == args[1]]
            all_ = tried[1:1 + self.n]
            if args[1] not in all_:
                e.report('address', i, 'another address than those of the host', st)
                return 'stop'
            if self.fam[all_.index(args[1])] != k[0][2]:
                e.report('address', i, 'the socket is of another address family', st)
            if ('tried', args[1]) in tried:
                e.report('address', i, 'an address is tried again', st)
            if any(x[1] == 'good' for x in socks):
                e.report('address', i, 'another address is tried although connected', st)
            p = e.rd(st, args[1][1], eng.addk(args[1][2], 2), 2, 'i16')
            if p != F and p[0] == 'i' and p[1] & 0xffff != 0x3412 or p == F or p[0] != 'i':
                e.report('port', i, 'another port than the one wanted', st)
            s2 = st.copy()
            e.note(s2, '%s connecting fails' % e.mod.locstr(i))
            rest = tuple(x for x in socks if x[0] != args[0])
            st.mon['d'] = (tried + (('tried', args[1]),), rest + ((args[0], 'good', k[0][2]),), rnd)
            s2.mon['d'] = (tried + (('tried', args[1]),), rest + ((args[0], 'bad', k[0][2]),), rnd)
            return [(st, F), (s2, NONE)]
        if name == 'close':
            if any(x[0] == args[0] and x[1] == 'good' for x in socks):
                e.report('socket', i, 'the connected socket is closed', st)
            return [(st, F)]
        if name in ('freeaddrinfo', 'gai_strerror', 'inet_ntop'):
            return [(st, None if name == 'freeaddrinfo' else st.fresh((1, eng.PMAX)))]

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        self.res.n['results'] += 1
        tried, socks, rnd = st.mon['d']
        good = [x[0] for x in socks if x[1] == 'good']
        if good:
            if v != good[0]:
                e.report('result', i, 'connected, but this is not the result', st)
            return
        if v[0] != 'i' or e.mod and v[1] & 0xffffffff != 0xffffffff:
            e.report('result', i, 'not connected, but this is not the result', st)
        if tried:
            want = [x for x in self.fam if x in (2, 10)]
            got = [x for x in tried if x[0] in ('tried', 'none')]
            if len(got) != len(want):
                e.report('address', i, 'not every address of the host is tried', st)


class C23(Check):
    id = 'C23'
    title = 'Failed connections are retried forever, after a pause, with every address'
    rule = ('Typestate on all paths of all threads: connecting is tried again only after a pause, reading only after waiting for data of a working device; every pause has a length and can be '
            'cancelled; no thread ends. Abstract interpretation of connecting to a host for all orders and outcomes.')
    quick = ['rc', 'rcnet', 'dump1090']
    minimum = {'waits': 30, 'attempts': 6, 'reads': 5, 'polls': 2, 'connects': 10, 'results': 10}
    assumptions = ['a lost connection may be connected again at once', 'waiting for data ends if there is data or the device failed']

    def jobs(self, tier):
        out = [(p, 'thread', t) for p in self.products(tier) for t in sorted(rules.threads(ir.load(p)))]
        for n in (1, 2, 3):
            for fam in {(2,) * n, (10, 2, 2)[:n], (2, 1, 10)[:n], (1, 2, 10)[:n]}:
                out.append(('rc', 'connect', fam))
        return out + [(p, 'pauses') for p in self.products(tier)]

    def minima(self, m):
        """options -> smallest number possible after the configuration was checked"""
        out = {}
        fx = m.field('CFG_Section', 'fix')
        for g in m.globals.values():
            if g.d.get('dtype') != 'CFG_Section' or g.d['decl']:
                continue
            o0, osz = m.field('CFG_Section', 'options')[0], m.structs['CFG_Option']['size']
            vs = []
            for k in range(g.read(*m.field('CFG_Section', 'n_opt'))[1]):
                b = o0 + k * osz
                v = g.read(b + m.field('CFG_Option', 'var')[0], 8)
                if g.read(b + m.field('CFG_Option', 'type')[0], 4) == self.inttype(m) and v and v[0] == 'g':
                    vs.append((('g', v[1]), v[2]))
            f = g.read(*fx)
            for v in vs:
                out[v] = 0
            if vs and f and f[0] == 'f':
                out.update(self.fixed(m, f[1], g, vs))
        return out

    def inttype(self, m):
        v = rules.option(m, 'BUFFER', 'GCInterval')
        for g in m.globals.values():
            if g.d.get('dtype') == 'CFG_Section' and not g.d['decl']:
                o0, osz = m.field('CFG_Section', 'options')[0], m.structs['CFG_Option']['size']
                for k in range(g.read(*m.field('CFG_Section', 'n_opt'))[1]):
                    b = o0 + k * osz
                    x = g.read(b + m.field('CFG_Option', 'var')[0], 8)
                    if x and x[0] == 'g' and (('g', x[1]), x[2]) == v:
                        return g.read(b + m.field('CFG_Option', 'type')[0], 4)

    def fixed(self, m, f, g, vs):
        lo = {}

        class Low(eng.Monitor):
            def exit(self, e, st, kind, v, i):
                if kind == 'return':
                    for o, k in vs:
                        x = st.peek(o, k, 4)
                        n = st.rng(x)[0] if x is not None else 0
                        lo[(o, k)] = min(lo.get((o, k), n), n)
        e = eng.Engine(m, [Low()], cancel=False, shared=lambda g: False)
        st = e.initial_state()
        for o, k in vs:
            st.write(o, k, 4, st.fresh((0, (1 << 32) - 1)))
        e.run(m.functions[f], [('p', ('g', g.name), F)], st)
        return lo

    def run(self, job, res):
        m = ir.load(job[0])
        if job[1] == 'connect':
            e = eng.Engine(m, [Dial(res, m, len(job[2]), job[2])], cancel=False, shared=lambda g: False, noinline={'UTIL_randInt'}, K=64)
            st = e.initial_state()
            e.run(rules.api(m, 'NETC_connect'), [st.fresh((1, eng.PMAX)), st.fresh((1, eng.PMAX)), ('i', 0x1234)], st)
            return res.take(e)
        if job[1] == 'pauses':
            return
        f = m.functions[rules.threads(m)[job[2]]]
        r = rules.reach(m, {f.name})
        own = {g.file for g in m.defined.values() if g.name == f.name}
        low = self.minima(m)
        comp = {c for c in m.defined if not m.defined[c].internal and c.split('_')[0].isupper() and not c.startswith(INPUTS)} - {f.name}
        plain = {c for c in r if c in m.defined and not rules.reach(m, {c}) & (WAITING | OPENS | SETTINGS | WRITES)} - {f.name}
        e = eng.Engine(m, [Pauses(res, m, bool(r & WAITING), not r & (READS | {'NET_receive'}))], cancel=False, shared=lambda g: False, noinline=(comp | plain) - WRITES)
        st = e.initial_state()
        for (o, k), n in low.items():
            st.write(o, k, 4, st.fresh((n, (1 << 32) - 1)))
        e.run(f, None, st)
        res.n['threads'] += 1
        res.take(e)


CHECK = C23()
