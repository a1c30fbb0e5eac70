from vpa import eng, hist, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
WAITS = ('pthread_cond_wait', 'pthread_cond_timedwait')
RESPONSE, TIMEOUT = 5, 110      # type of the command; ETIMEDOUT
SUCCESS, PERM = 3, 2
HWADDR, ETHER = 0x8927, 1       # SIOCGIFHWADDR, ARPHRD_ETHER


def given(m, section, name):
    """objects of an option: value and flag (None)"""
    FI = m.field
    out = []
    for g in m.globals.values():
        if g.d.get('dtype') != 'CFG_Section' or g.d['decl'] or (m.string(g.read(FI('CFG_Section', 'name')[0], 8)) or '').lower() != section.lower():
            continue
        for k in range(g.read(*FI('CFG_Section', 'n_opt'))[1]):
            b = FI('CFG_Section', 'options')[0] + k * m.structs['CFG_Option']['size']
            if (m.string(g.read(b + FI('CFG_Option', 'name')[0], 8)) or '').lower() == name.lower():
                v, h = g.read(b + FI('CFG_Option', 'var')[0], 8), g.read(b + FI('CFG_Option', 'given')[0], 8)
                if not v or v[0] != 'g' or not h or h[0] != 'g':
                    raise AnalysisError('%s: option %s.%s is stored nowhere' % (m.key, section, name))
                out.append((g.name, (('g', v[1]), ('i', v[2])), (('g', h[1]), ('i', h[2]))))
    if len(out) != 1:
        raise AnalysisError('%s: %d options %s.%s' % (m.key, len(out), section, name))
    return out[0]


def masked(v):
    return v[1:4] if v[0] == 't' and v[1] == 'and' else v


class Serial(hist.History):
    """model: how the serial number is known (none, configured, received, stored), its value, events of the call"""

    def __init__(self, res, m):
        hist.History.__init__(self, res)
        self.cfg = given(m, 'DEVICE', 'serial')

    def begin(self, st):
        how, val, ev = self.get(st)
        if how == 'config':
            val = st.fresh(eng.RANGES[32])
            (o, k), (go, gk) = self.cfg[1], self.cfg[2]
            st.write(o, k[1], 4, val)
            st.write(go, gk[1], 1, T)
            how = 'configured'
        if self.op(st) == 'get' and self.args(st)[0] != F:
            st.write(self.args(st)[0][1], 0, 4, st.fresh(eng.RANGES[32]))
        self.put(st, how, val, ())

    def same(self, e, st, x, y, how):
        if x == y or e.cmp(st, 'eq', x, y, 32) is True:
            return True
        if how == 'derived':            # another way of masking
            z = st.bytesof(y[2], 4) if y[0] == 't' and y[1] == 'and' else None
            if z:
                y = st.cat(z[:3] + [e.binop(st, 'and', z[3], ('i', 127), 8)], 32)
                if st.bytesof(x, 4) and [masked(a) for a in st.bytesof(x, 4)] == [masked(a) for a in st.bytesof(y, 4)]:
                    return True
        x, y = st.bytesof(x, 4), st.bytesof(y, 4)
        return bool(x and y) and all(a == b and a is not None or a is not None and b is not None and e.cmp(st, 'eq', a, b, 8) is True for a, b in zip(x, y))

    def done(self, e, st, v, i, fail):
        """the number was asked for"""
        how, val, ev = self.get(st)
        ok = e.cmp(st, 'eq', v, ('i', SUCCESS), 32)
        self.res.n['asked'] += 1
        if ok is None:
            e.report('result', i, 'success may be returned as well as failure', st)
        elif ok:
            self.res.n['numbers'] += 1
            a = self.args(st)[0]
            if a != F:
                x = e.rd(st, a[1], F, 4, 'i32')
                if val == () or not self.same(e, st, x, val, how):
                    e.report('value', i, 'the serial number returned is not the one %s' % how, st)
        else:
            self.res.n['failures'] += 1
            fail(e.cmp(st, 'eq', v, ('i', PERM), 32))


class Requested(Serial):
    """the serial number is assigned by the server"""

    def __init__(self, res, m, response, dirs):
        Serial.__init__(self, res, m)
        self.response = response
        self.dirs = dirs

    def received(self, st, a):
        how, val, ev = self.get(st)
        b = [st.fresh((0, 255)) for _ in range(4)]
        for k in range(4):
            st.write(a[1], k, 1, b[k])
        self.put(st, 'received', st.cat(b[::-1], 32), ev)

    def begin(self, st):
        Serial.begin(self, st)
        if self.op(st) == 'respond':
            self.received(st, self.args(st)[0])

    def ev(self, st, *x):
        how, val, ev = self.get(st)
        self.put(st, how, val, ev + tuple(y for y in x if y not in ev))

    def call(self, e, st, name, args, i):
        how, val, ev = self.get(st)
        if name in WAITS:
            self.res.n['waits'] += 1
            if how != 'none':
                e.report('wait', i, 'a serial number is waited for although it is known', st)
            if 'sent' not in ev:
                e.report('wait', i, 'a serial number is waited for which was not asked for', st)
            out = []
            for t in (F, ('i', TIMEOUT)):
                if name == WAITS[0] and t != F:
                    continue
                s = st.copy()
                out.append((s, t))
                s = st.copy()               # the answer of the server arrives meanwhile
                s.frames[-1].regs[i.id] = t
                a = ('p', ('h', s.fresh()[1]), F)
                self.received(s, a)
                self.ev(s, 'in')
                s.locks = tuple(x for x in s.locks if x != args[1])
                s.mon['o'] = s.mon['o'][:2] + (args[1],)
                e.push(s, self.response, [a], 'call')
                out.append((s, [s]))
            return out
        if name == 'NET_send':
            self.res.n['requests'] += 1
            b = [e.rd(st, args[0][1], eng.addk(args[0], k)[2], 1, 'i8') for k in range(2)] if args[0][0] == 'p' else ()
            if args[1] != ('i', 2) or len(b) < 2 or [e.cmp(st, 'eq', x, ('i', y), 8) for x, y in zip(b, (rules.SYNC, rules.TYPE['serial request']))] != [True, True]:
                e.report('request', i, 'something else than a request for a serial number is sent', st)
            if how != 'none':
                e.report('request', i, 'a serial number is requested although one is known', st)
            if 'sent' in ev:
                e.report('request', i, 'a serial number is requested twice', st)
            s = st.copy()
            self.ev(st, 'sent')
            self.ev(s, 'lost')
            return [(st, T), (s, F)]
        if name == 'NET_checkConnected':
            s = st.copy()
            self.ev(s, 'lost')
            return [(st, T), (s, F)]
        if name == 'NET_forceDisconnect':
            self.ev(st, 'lost')
            return [(st, None)]
        if name == 'CFG_writeSection':
            self.res.n['stored'] += 1
            f = args[0]
            path = e.mod.globals[f[1][1]].cstring(f[2][1]) if f[0] == 'p' and f[1][0] == 'g' and f[2][0] == 'i' else None
            if path is None:
                e.report('store', i, 'the serial number is written to an unknown file', st)
            else:
                d, _, n = path.rpartition('/')
                if d not in self.dirs or not n[:1].isdigit() or not n.endswith('.conf'):
                    e.report('store', i, 'the serial number is written to %s, which is not read when starting' % path, st)
            if args[1] != ('p', ('g', self.cfg[0]), F):
                e.report('store', i, 'something else than the serial number is written', st)
            (o, k), (go, gk) = self.cfg[1], self.cfg[2]
            x = e.rd(st, o, k, 4, 'i32')
            if how != 'received':
                e.report('store', i, 'a serial number is written which was not received', st)
            elif x != val and e.cmp(st, 'eq', x, val, 32) is not True:
                e.report('store', i, 'a number is written which was not received', st)
            if e.truth(st, e.rd(st, go, gk, 1, 'i8')) is not True:
                e.report('store', i, 'the serial number is written while not being set', st)
            s = st.copy()
            how, val, ev = self.get(st)
            self.put(st, 'stored', val, ev)
            return [(st, T), (s, F)]

    def ret(self, e, st, name, v, i):
        if name == self.response.dname and len(st.mon['o']) > 2:
            self.res.n['answers'] += 1
            mu = st.mon['o'][2]
            if mu not in st.locks:
                st.locks = st.locks + (mu,)
            st.mon['o'] = st.mon['o'][:2]

    def end(self, e, st, v, i):
        how, val, ev = self.get(st)
        if self.op(st) == 'get' and self.args(st)[0] != F:
            def fail(perm):
                if perm is not False:
                    e.report('result', i, 'asking for the serial number fails for good', st)
                if 'lost' not in ev:
                    e.report('result', i, 'asking for the serial number fails although the connection is still used', st)
            if how == 'received' and e.cmp(st, 'eq', v, ('i', SUCCESS), 32) is True:
                e.report('store', i, 'a serial number is used which was not stored', st)
            if how == 'none' and e.cmp(st, 'eq', v, ('i', SUCCESS), 32) is True:
                e.report('result', i, 'asking for the serial number succeeds although there is none', st)
            self.done(e, st, v, i, fail)
        self.put(st, how, val, ())


class Ether(Serial):
    """the serial number is derived from the address of the network device"""

    def call(self, e, st, name, args, i):
        how, val, ev = self.get(st)
        if name in ('socket', 'fopen', 'open'):
            if how != 'none':
                e.report('again', i, 'the serial number is determined again although it is known', st)
            r = st.fresh((1, 1 << 20))
            return [(st, r), (st.copy(), F if name == 'fopen' else ('i', -1))]
        if name == 'getenv':
            return [(st, F)]
        if name == 'ioctl':
            self.res.n['devices'] += 1
            if args[1] != ('i', HWADDR):
                return
            p = args[2]
            s = st.copy()
            e.havoc_arg(st, p)
            o, k = p[1], p[2][1]
            other = st.copy()
            b = [st.fresh((0, 255)) for _ in range(6)]
            st.write(o, k + 16, 2, ('i', ETHER))
            for n, x in enumerate(b):
                st.write(o, k + 18 + n, 1, x)
            self.mac(st, b)
            other.write(o, k + 16, 2, other.fresh((ETHER + 1, 65535)))
            return [(st, F), (s, ('i', -1)), (other, F)]
        if name in ('fscanf', '__isoc99_fscanf', '__isoc23_fscanf'):
            self.res.n['files'] += 1
            f = args[1]
            fmt = e.mod.globals[f[1][1]].cstring(f[2][1]) if f[0] == 'p' and f[1][0] == 'g' and f[2][0] == 'i' else ''
            if fmt.split('%')[1:] != ['hhx:'] * 5 + ['hhx'] or len(args) != 8:
                e.report('format', i, 'the address is not read as six hexadecimal numbers', st)
                return 'stop'
            out = []
            for n in range(-1, 7):
                s = st.copy()
                b = [s.fresh((0, 255)) for _ in range(max(n, 0))]
                for x, p in zip(b, args[2:]):
                    s.write(p[1], p[2][1], 1, x)
                if n == 6:
                    self.mac(s, b)
                out.append((s, ('i', n)))
            return out

    def mac(self, st, b):
        how, val, ev = self.get(st)
        self.put(st, how, val, ('mac', tuple(b)))

    def end(self, e, st, v, i):
        how, val, ev = self.get(st)

        def fail(perm):
            if how != 'none' or ev:
                e.report('result', i, 'asking for the serial number fails although it is known', st)
            if perm is not True:
                e.report('result', i, 'a device without address is not reported for good', st)
        if e.cmp(st, 'eq', v, ('i', SUCCESS), 32) is True and how == 'none':
            if not ev:
                e.report('result', i, 'a serial number is returned although the address is unknown', st)
                return
            b = ev[1]
            how, val = 'derived', e.binop(st, 'and', st.cat([b[5], b[4], b[3], b[2]], 32), ('i', 0x7fffffff), 32)
        self.put(st, how, val, ())
        self.done(e, st, v, i, fail)


class C25(Check):
    id = 'C25'
    title = 'The serial number is stored before it is used and stays the same'
    rule = ('All histories of asking for the serial number, answers of the server (also while waiting or after giving up) and failures: what is returned is the number configured, received and '
            'stored, or derived from the address; it is requested once and only if unknown.')
    quick = ['rc', 'dump1090', 'dump1090-donated', 'dump1090-kit', 'lib']
    minimum = {'asked': 40, 'numbers': 10, 'failures': 8, 'requests': 3, 'waits': 3, 'stored': 3, 'answers': 3, 'devices': 2, 'files': 2}
    assumptions = ['the operations are atomic (C03)']

    def jobs(self, tier):
        return [(p,) for p in self.products(tier) if p not in ('gplib', 'wd')]

    def registered(self, m, res):
        """the function called for answers of the server"""
        found = []

        class Reg(eng.Monitor):
            def call(self, e, st, name, args, i):
                if name == 'TB_register':
                    if args[0] == ('i', RESPONSE):
                        found.append((args[1], args[2]))
                    return [(st, None)]
        on = [c['onRegister'] for c in m.comps().values() if c.get('onRegister')]
        for f in on:
            n = rules.fnop(f)
            if n in m.functions:
                eng.Engine(m, [Reg()], cancel=False, noinline={'TB_register'}).run(m.functions[n])
        if len(set(found)) != 1:
            raise AnalysisError('%s: %d functions for serial numbers of the server' % (m.key, len(set(found))))
        n, f = found[0]
        if n != ('i', 4):
            res.viol('answer', '?', 'an answer of the server has %s instead of 4 bytes' % (n,))
        if f[0] != 'f':
            raise AnalysisError('%s: no function for serial numbers of the server' % m.key)
        return m.defined[f[1]]

    def run(self, job, res):
        m = ir.load(job[0])
        get = rules.api(m, 'SERIAL_getSerial')
        ptr = lambda st: [('p', ('h', st.fresh()[1]), F)]
        if 'NET_send' in rules.reach(m, {get.name}):
            response = self.registered(m, res)
            dirs = set()
            for f in m.functions.values():
                if not f.decl:
                    for i in f.instrs():
                        if i.op in ('call', 'invoke') and i.d['callee'] == ('f', 'CFG_readDirectory'):
                            dirs.add(m.string(i.ops[0]))
            if not dirs - {None}:
                raise AnalysisError('%s: no configuration is read' % m.key)
            mk = lambda: Requested(res, m, response, dirs)
            ops = [('get', get, ptr), ('respond', response, ptr)]
            own = {'NET_send', 'NET_checkConnected', 'NET_forceDisconnect', 'CFG_writeSection'}
        else:
            mk = lambda: Ether(res, m)
            ops = [('get', get, ptr)]
            if 'SERIAL_ETH_getSerial' in m.functions:
                ops.append(('get', m.functions['SERIAL_ETH_getSerial'], lambda st: [F]))
            own = ()
        for how in ('none', 'config'):
            mon = mk()
            hist.explore(m, res, mon, (how, (), ()), ops, own)


CHECK = C25()
