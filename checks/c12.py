from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

NEW, OLD, INV = 100, 101, -1
RECV, SEND = 'receiver', 'sender'


class Vars:
    def __init__(self, m):
        unit = m.globals['NET_comp'].d['file']
        g = [x for x in m.globals.values() if x.d.get('file') == unit]
        self.conn = one([x for x in g if x.d.get('dtype') == 'CONN_STATE'])
        self.trans = one([x for x in g if x.d.get('dtype') == 'TRANSIT_STATE'])
        s = [x for x in g if x.d.get('dtype') == 'sock_t']
        self.recv = one(of(m, s, 'recv'))
        self.send = one(of(m, s, 'send'))
        self.all = (self.conn, self.trans, self.recv, self.send)
        v = m.enumval
        self.D, self.C, self.S = v('CONN_STATE_DISCONNECTED'), v('CONN_STATE_CONNECTED'), v('CONN_STATE_SHUTDOWN')
        # the receiver resp. the sender is ahead
        self.none, self.ahead = v('TRANSIT_NONE'), {RECV: v('TRANSIT_SEND'), SEND: v('TRANSIT_RECV')}

    # states: name -> (conn, trans, recv, send, sockets ((id, shut), ...))
    def states(self):
        a = self.ahead
        return {
            'down': (self.D, self.none, INV, INV, ()),
            'up': (self.C, self.none, NEW, NEW, ((NEW, False),)),
            'down, receiver ahead': (self.D, a[RECV], INV, OLD, ((OLD, True),)),
            'down, sender ahead': (self.D, a[SEND], OLD, INV, ((OLD, True),)),
            'up, receiver ahead': (self.C, a[RECV], NEW, OLD, ((NEW, False), (OLD, True))),
            'up, sender ahead': (self.C, a[SEND], OLD, NEW, ((NEW, False), (OLD, True))),
        }

    # what follows if the receiver or the sender sees its socket fail
    AFTER = {
        ('up', RECV): 'down, receiver ahead', ('up', SEND): 'down, sender ahead',
        ('down, receiver ahead', SEND): 'down', ('down, sender ahead', RECV): 'down',
        ('down, receiver ahead', RECV): 'down, receiver ahead', ('down, sender ahead', SEND): 'down, sender ahead',
        ('up, receiver ahead', RECV): 'down, receiver ahead', ('up, sender ahead', SEND): 'down, sender ahead',
        ('up, receiver ahead', SEND): 'up', ('up, sender ahead', RECV): 'up',
    }
    CONNECT = {'down': 'up', 'down, receiver ahead': 'up, receiver ahead', 'down, sender ahead': 'up, sender ahead'}

    def put(self, st, s):
        for g, v in zip(self.all, s[:4]):
            st.write(('g', g.name), 0, 4, ('i', v))
        st.mon['c'] = (tuple((('i', i), eng.ONE if shut else eng.ZERO) for i, shut in s[4]), ())

    def get(self, st):
        out = []
        for g in self.all:
            v = st.peek(('g', g.name), 0, 4)
            out.append(v[1] if v is not None and v[0] == 'i' else None)
        return tuple(out) + (tuple(sorted((i[1], s == eng.ONE) for i, s in st.mon['c'][0])),)

    def name(self, st):
        """name of the state (up to the names of the sockets) or None"""
        c, t, r, s, socks = self.get(st)
        if c == self.S:
            return 'shutdown'
        for n, w in self.states().items():
            if w[:2] != (c, t) or len(w[4]) != len(socks):
                continue
            for m in ({NEW: NEW, OLD: OLD}, {NEW: OLD, OLD: NEW}):
                ren = tuple(sorted((m.get(i, i), x) for i, x in socks))
                # variables not referring to an open socket may have any stale value not referring to an open one
                f = [m.get(x, x) for x in (r, s)]
                open_ = {i for i, _ in ren}
                f = [x if x in open_ else INV if x == INV else x for x in f]
                if ren == tuple(sorted(w[4])) and (tuple(f) == w[2:4] or self.stale(f, w, open_)):
                    return n
        return None

    def stale(self, f, w, open_):
        return all(a == b or b == INV and a not in open_ and a is not None for a, b in zip(f, w[2:4]))


def one(x):
    if len(x) != 1:
        raise AnalysisError('connection state not found')
    return x[0]


def of(m, socks, call):
    """the socket variable used for recv/send"""
    out = [g for g in socks if g.dname == call + 'sock']
    if out:
        return out
    fns = {f.name for f in m.defined.values() for i in f.calls() if i.d['callee'] == ('f', call)}
    return [g for g in socks if rules.users(m, {g.name}) & fns]


class Conn(eng.Monitor):
    """mon c: (((socket, shut down), ...) open sockets, ((waiting state name),...))"""
    key = 'c'
    init = ((), ())

    def __init__(self, res, v, who=None):
        self.res, self.v, self.who = res, v, who
        self.ends = []
        self.waits = {}

    def sock(self, e, st, a, what, i):
        if a[0] != 'i':
            raise AnalysisError('unknown socket in %s' % what)
        for n, (k, shut) in enumerate(st.mon['c'][0]):
            if k == a:
                return n
        e.report('socket', i, '%s of a socket which is not open' % what, st)
        return None

    def setsocks(self, st, s):
        st.mon['c'] = (tuple(sorted(s, key=str)), st.mon['c'][1])

    def call(self, e, st, name, args, i):
        s = list(st.mon['c'][0])
        if name == 'shutdown':
            n = self.sock(e, st, args[0], name, i)
            if n is not None:
                self.res.n['shutdowns'] += 1
                if args[1] == ('i', 2):
                    s[n] = (s[n][0], eng.ONE)
                self.setsocks(st, s)
            return [(st, eng.ZERO)]
        if name == 'close':
            n = self.sock(e, st, args[0], name, i)
            if n is not None:
                self.res.n['closes'] += 1
                del s[n]
                self.setsocks(st, s)
            return [(st, eng.ZERO)]
        if name in ('send', 'recv'):
            want = self.v.send if name == 'send' else self.v.recv
            if args[0] != st.peek(('g', want.name), 0, 4):
                e.report('socket', i, '%s on the wrong socket' % name, st)
            return [(st, ('i', -1))]
        if name == 'NETC_connect':
            self.res.n['connects'] += 1
            s2 = st.copy()
            used = {k[1] for k, _ in s}
            k = ('i', NEW if NEW not in used else OLD)
            e.note(st, '%s: connected' % e.mod.locstr(i))
            self.setsocks(st, s + [(k, eng.ZERO)])
            return [(st, k), (s2, ('i', -1))] + [(x, [x]) for x in e.cancel_here(s2.copy(), i, name)]
        if name == 'pthread_cond_wait' and self.who == 'main':
            n = self.v.name(st)
            self.res.n['waits'] += 1
            if n is None:
                self.bad(e, st, i, 'when waiting for the connection to fail')
                return 'stop'
            self.waits.setdefault(n, 0)
            self.waits[n] += 1
            out = [(x, [x]) for x in e.cancel_here(st.copy(), i, name)]
            for k, w in self.v.states().items():
                s2 = st.copy()
                self.v.put(s2, w)
                e.note(s2, '%s: wakes up, now %s' % (e.mod.locstr(i), k))
                out.append((s2, eng.ZERO))
            return out

    def bad(self, e, st, i, when):
        c, t, r, s, socks = self.v.get(st)
        lost = {k for k, _ in socks} - {r, s}
        if lost:
            e.report('leak', i, 'a socket is not closed %s' % when, st)
        else:
            e.report('state', i, 'the state of the connection is inconsistent %s' % when, st)

    def exit(self, e, st, kind, v, i):
        self.res.n['exits'] += 1
        if kind == 'noreturn':
            e.report('assert', i, 'an assertion fails or the program is aborted', st)
            return
        self.ends.append((e, st, kind, v, i))

    def part(self, e, st):
        return self.v.get(st)


class C12(Check):
    id = 'C12'
    title = 'Sender and receiver each see every connection loss once; sockets are closed once'
    rule = ('Inductive invariant over the connection state (state, who is ahead, both sockets, set of open and shut down sockets): every operation '
            '(failure seen by sender or receiver, check, forced disconnect, (re)connection) is analysed from every state satisfying the invariant; the state it leaves must be '
            'the specified one, no socket is closed twice, lost or used after closing.')
    quick = ['rc']
    thorough = ['rc', 'rcnet', 'rcdummy', 'lib', 'gplib', 'dump1090']
    minimum = {'exits': 30, 'closes': 5, 'shutdowns': 5, 'connects': 2, 'waits': 3}
    assumptions = ['the connection state is only accessed with the mutex held (C03)', 'the sender (receiver) waits for a connection before sending (receiving) again after a failure (C06, C10)']

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            v = Vars(m)
            out += [(p, f, s) for f in ('NET_receive', 'NET_send', 'NET_forceDisconnect', 'NET_checkConnected') for s in v.states()]
            out.append((p, 'main', ''))
        return out

    def run(self, job, res):
        p, f, s = job
        m = ir.load(p)
        v = Vars(m)
        mon = Conn(res, v, f)
        e = eng.Engine(m, [mon], shared=lambda g: False, partition=mon.part, K=100, cancel=f == 'main', noinline={'NETC_connect'})
        st = e.initial_state()
        if f == 'main':
            e.run(m.functions[rules.compmain(m, 'NET_comp')['main'][1]], [], st)
            # a failed connection is established again whoever has seen the failure
            for n in v.CONNECT.values():
                if n not in mon.waits:
                    fn = m.functions[rules.compmain(m, 'NET_comp')['main'][1]]
                    res.viol('state', fn.dname, 'never waits %s' % n)
            for n in mon.waits:
                if n.startswith('down'):
                    fn = m.functions[rules.compmain(m, 'NET_comp')['main'][1]]
                    res.viol('state', fn.dname, 'waits instead of connecting while %s' % n)
            for _, st, kind, val, i in mon.ends:
                if v.get(st)[0] != v.S:
                    e.report('shutdown', i, 'the connection is not marked as shut down when the thread ends', st)
                if st.locks:
                    e.report('shutdown', i, 'a mutex stays locked when the thread ends', st)
            res.take(e)
            return
        who = RECV if f == 'NET_receive' else SEND
        if s == 'down':
            # both have seen the failure: nothing is called before they are connected again
            res.n['exits'] += 1
            return
        v.put(st, v.states()[s])
        fn = rules.api(m, f)
        args = [st.fresh((1, eng.PMAX)), st.fresh((1, 1 << 31))] if f in ('NET_send', 'NET_receive') else []
        e.run(fn, args, st)
        for _, st, kind, val, i in mon.ends:
            n = v.name(st)
            want = v.AFTER[s, who]
            ret = None
            if f == 'NET_checkConnected':
                ret = s in ('up', 'up, sender ahead')
                if ret:
                    want = s
            elif f != 'NET_forceDisconnect':
                ret = False
            if n is None:
                mon.bad(e, st, i, 'after %s noticed a failure (%s)' % (who, s))
            elif n != want:
                e.report('state', i, 'after the %s noticed a failure, the connection is "%s" instead of "%s" (before: "%s")' % (who, n, want, s), st)
            if ret is not None and val is not None:
                t = e.truth(st, val)
                if t != ret and not (f == 'NET_receive' and st.rng(val)[1] <= 0):
                    e.report('result', i, '%s returns the wrong result when "%s"' % (f, s), st)
        res.take(e)


CHECK = C12()
