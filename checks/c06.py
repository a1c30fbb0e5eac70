from vpa import eng, ir, rules
from vpa.check import Check

GET = ('BUF_getFrame', 'BUF_getFrameTimeout')
FLUSH = ('BUF_flush', 'BUF_flushUnlessHistoryEnabled')
PROTO = set(GET) | set(FLUSH) | {'NET_waitConnected', 'LOGIN_login', 'NET_send', 'BUF_releaseFrame', 'BUF_putFrame'}
# calls reserved to the thread which owns the sending side of the connection
SENDER = {'NET_send', 'NET_forceDisconnect', 'NET_checkConnected'}


def content(e, st, p, n):
    """constant bytes of a buffer, or None"""
    out = []
    for k in range(n):
        a = eng.addk(p, k)
        if a[0] != 'p' or a[2][0] != 'i':
            return None
        v = e.rd(st, a[1], a[2], 1, 'i8')
        if v[0] != 'i':
            return None
        out.append(v[1] & 255)
    return out


class Relay(eng.Monitor):
    """mon: (connection: 0 unknown, 1 connected, 2 logged in; flushed; frame; sent; owes keep-alive; frames taken)"""
    key = 'r'
    init = (0, 0, (), 0, 0, 0)

    def __init__(self, res, m):
        self.res = res
        self.raw = m.field('OPENSKY_RawFrame', 'raw')[0]
        self.len = m.field('OPENSKY_RawFrame', 'rawLen')
        self.keep = [rules.SYNC, rules.TYPE['keep-alive']]
        self.opt = rules.option(m, 'NETWORK', 'Timeout')

    def call(self, e, st, name, args, i):
        if name not in PROTO:
            return
        self.res.n['protocol_calls'] += 1
        c, fl, fr, sent, ka, taken = st.mon['r']
        canc = [(s, [s]) for s in e.cancel_here(st, i, name)] if name in e.cancelpoints else []

        def bad(rule, msg):
            e.report(rule, i, msg, st)
            return 'stop'
        if name == 'NET_waitConnected':
            st.mon['r'] = (1, 0, fr, sent, 0, 0)
            return [(st, None)] + canc
        if name == 'LOGIN_login':
            if c == 0:
                return bad('login', 'login without waiting for a connection first')
            if c == 2:
                return bad('login', 'second login on the same connection')
            s2 = st.copy()
            e.note(s2, '%s: login failed' % e.mod.locstr(i))
            s2.mon['r'] = (0, 0, fr, sent, 0, 0)
            st.mon['r'] = (2, fl, fr, sent, 0, 0)
            return [(st, eng.ONE), (s2, eng.ZERO)] + canc
        if name in FLUSH:
            if taken:
                return bad('flush', 'the queue is flushed while relaying')
            if c == 0:
                return bad('flush', 'the queue is flushed without a connection')
            st.mon['r'] = (c, 1, fr, sent, ka, taken)
            return [(st, None)]
        if name in GET:
            if c != 2:
                return bad('order', 'a frame is taken although the thread is not logged in')
            if not fl:
                return bad('flush', 'frames are relayed on a new connection without flushing stale ones first')
            if ka:
                return bad('keepalive', 'no keep-alive is sent although there was no frame in time')
            out = []
            if name == 'BUF_getFrameTimeout':
                o, off = self.opt
                v = e.rd(st, o, ('i', off), 4, 'i32')
                if args[0] not in (v, ('t', 'zext', v, 32, 64)):
                    e.report('timeout', i, 'the timeout waited for is not the configured one', st)
                s2 = st.copy()
                s2.mon['r'] = (c, fl, (), 0, 1, 1)
                e.note(s2, '%s: timeout' % e.mod.locstr(i))
                out.append((s2, eng.ZERO))
            else:
                e.report('keepalive', i, 'frames are waited for without a timeout, no keep-alives are sent', st)
            v = st.fresh((1, eng.PMAX))
            st.mon['r'] = (c, fl, (v,), 0, 0, 1)
            out.append((st, v))
            return out + canc
        if name == 'NET_send':
            if c != 2:
                return bad('order', 'something is sent %s' % ('before the login' if c else 'after a failure, before waiting for a connection'))
            if fr:
                if sent:
                    return bad('twice', 'something is sent twice')
                n = e.rd(st, ('d', fr[0][1]), ('i', fr[0][2] + self.len[0]), 8, 'i64')
                if args[0] != eng.addk(fr[0], self.raw) or args[1] != n:
                    return bad('content', 'something else than the frame is sent')
            else:
                if args[1] != ('i', 2) or content(e, st, args[0], 2) != self.keep:
                    return bad('content', 'something else than a keep-alive is sent')
                if not ka:
                    return bad('keepalive', 'a keep-alive is sent without timeout')
            self.res.n['sends'] += 1
            s2 = st.copy()
            e.note(s2, '%s: sending failed' % e.mod.locstr(i))
            s2.mon['r'] = (0, 0, fr, 0, 0, taken)
            st.mon['r'] = (c, fl, fr, 1, 0, taken)
            return [(st, eng.ONE), (s2, eng.ZERO)] + canc
        if name == 'BUF_releaseFrame':
            if not sent:
                return bad('lost', 'a frame is dropped although it was not sent')
            st.mon['r'] = (c, fl, (), 0, ka, taken)
            return [(st, None)]
        if name == 'BUF_putFrame':
            if sent:
                return bad('twice', 'a frame which was sent is put back')
            st.mon['r'] = (c, fl, (), 0, ka, taken)
            return [(st, None)]


class C06(Check):
    id = 'C06'
    title = 'The relay only sends after login, loses or repeats no frame, keeps the connection alive'
    rule = ('Typestate of the relay thread over wait, login, flush, take, send, release, put back: every path follows the protocol, a frame is released '
            'iff it was sent and put back iff not, a timeout leads to a keep-alive; no other thread reaches a function reserved for the sending thread.')
    quick = ['rc', 'lib', 'gplib', 'dump1090-kit']
    thorough = [p for p in ir.PRODUCTS if p not in ('wd', 'rcsys')]
    minimum = {'protocol_calls': 12, 'sends': 4, 'thread_roots': 12}
    assumptions = ['the functions of the buffer and the network are opaque here: C04, C05, C10, C11 cover them']

    def jobs(self, tier):
        return [(p,) for p in self.products(tier)]

    def run(self, job, res):
        m = ir.load(job[0])
        th = rules.threads(m)
        relay = [t for t, f in th.items() if {'NET_send'} & rules.reach(m, [f]) and set(GET) & rules.reach(m, [f])]
        if len(relay) != 1:
            raise ir.AnalysisError('%s: relay threads %s' % (job[0], relay))
        mon = Relay(res, m)
        e = eng.Engine(m, [mon], noinline=PROTO, extra_cancel=rules.cancels(m, PROTO))
        e.run(th[relay[0]])
        res.take(e)
        # who else sends?
        entry = {t: [f] for t, f in th.items() if t not in relay}
        cbs = sorted(rules.argrefs(m, 'TB_register', 2) | {rules.fnop(v) for v in self.procs(m)} - {None})
        entry.setdefault('TB_comp', []).extend(cbs)
        for r in rules.roots(m):
            f = m.functions[r]
            if f.file and f.file.endswith('.cc') and not f.internal and f.name.startswith('_ZN7OpenSky'):
                entry['caller of ' + f.dname] = [r]
        g = rules.callees(m)
        ex = {f.name for f in m.defined.values() if not f.internal}
        # exported function -> sender functions it reaches without passing another exported one
        direct = {}
        for x in ex:
            seen, todo = set(), list(g.get(x, ()))
            while todo:
                y = todo.pop()
                if y in SENDER:
                    direct.setdefault(x, set()).add(y)
                elif y not in seen and y not in ex:
                    seen.add(y)
                    todo += g.get(y, ())
        for t, start in sorted(entry.items()):
            res.n['thread_roots'] += 1
            if m.key in ('lib', 'gplib') and t == 'caller of enable':
                continue        # starts the threads; hands their main functions over
            rs = rules.reach(m, start, stop=set(th.values()) - set(start))
            # other threads are not entered: only started
            for x in sorted(rs & set(direct)):
                for y in sorted(direct[x]):
                    f = m.functions[x]
                    res.viol('sender', x, '%s is called by %s, not by the relay thread' % (y, t), '%s:%d' % (f.file, f.line))
            for x in start:
                if x not in ex:
                    seen, todo = set(), [x]
                    while todo:
                        z = todo.pop()
                        if z in SENDER:
                            f = m.functions[x]
                            res.viol('sender', x, '%s is called by %s, not by the relay thread' % (z, t), '%s:%d' % (f.file, f.line))
                        elif z not in seen and (z == x or z not in ex):
                            seen.add(z)
                            todo += g.get(z, ())

    def procs(self, m):
        for g in m.globals.values():
            if (g.d.get('dtype') or '').startswith('PacketProcessor'):
                for c in g.cells or ():
                    if c[2][0] == 'f':
                        yield c[2]


CHECK = C06()
