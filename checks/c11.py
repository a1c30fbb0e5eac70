from vpa import eng, ir, rules
from vpa.check import Check


class Send(eng.Monitor):
    """mon s: (message, length, number of bytes sent, failed, mutex)"""
    key = 's'
    loose = True
    init = ((), (), eng.ZERO, (), ())

    def __init__(self, res):
        self.res = res

    def call(self, e, st, name, args, i):
        if name in ('sendto', 'sendmsg', 'write', 'writev'):
            e.report('send', i, 'sends by something else than send', st)
        if name != 'send':
            return
        p, n, s, failed, mtx = st.mon['s']
        self.res.n['sends'] += 1
        if failed:
            e.report('failed', i, 'the message is continued after sending a part of it failed', st)
            return 'stop'
        if not st.locks:
            e.report('lock', i, 'a message is sent without a mutex held, it may be mixed up with another one', st)
            return 'stop'
        if mtx and mtx[0] not in st.locks:
            e.report('lock', i, 'the mutex is released in the middle of a message', st)
        q = args[1]
        want = eng.padd(p[0], s)
        if not (q == want or eng.leq(q, want) or e.cmp(st, 'eq', q, want, 64)):
            e.report('bytes', i, 'the bytes sent are not the ones following those sent before', st)
            return 'stop'
        rest = e.binop(st, 'sub', n[0], s, 64)
        if st.diff(args[2], rest)[1] > 0:
            e.report('bytes', i, 'more bytes than those left of the message are sent', st)
        if st.rng(args[2])[0] < 1:
            e.report('bytes', i, 'no bytes are sent', st)
        canc = e.cancel_here(st.copy(), i, name)
        s2 = st.copy()
        r = s2.fresh((eng.FULL[0], 0))
        s2.mon['s'] = (p, n, s, (eng.ONE,), st.locks[-1:])
        e.note(s2, '%s: send fails' % e.mod.locstr(i))
        # number of bytes sent afterwards
        w = st.fresh((1, 1 << 31))
        r1 = e.binop(st, 'sub', w, s, 64)
        out = [(s2, r)] + [(c, [c]) for c in canc]
        if st.setdiff(w, s, 1, eng.FULL[1]) and st.setdiff(w, e.binop(st, 'add', s, args[2], 64), eng.FULL[0], 0) and st.setdiff(w, n[0], eng.FULL[0], 0):
            st.mon['s'] = (p, n, w, (), st.locks[-1:])
            out.append((st, r1))
        return out

    def lock(self, e, st, what, m, i):
        p, n, s, failed, mtx = st.mon['s']
        if what == 'release' and mtx and m == mtx[0] and not st.unw and not failed and st.diff(s, n[0]) != (0, 0):
            e.report('lock', i, 'the mutex is released in the middle of a message', st)

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        self.res.n['returns'] += 1
        p, n, s, failed, mtx = st.mon['s']
        t = e.truth(st, v)
        if t is not False and (failed or st.diff(s, n[0]) != (0, 0)):
            e.report('result', i, 'success may be reported for a message which was not sent completely', st)
        if t is not True and not failed:
            e.report('result', i, 'failure may be reported for a message which was sent completely', st)


class Receive(eng.Monitor):
    """mon r: (buffer, size, result of recv)"""
    key = 'r'
    init = ((), (), ())

    def __init__(self, res):
        self.res = res

    def call(self, e, st, name, args, i):
        if name in ('recvfrom', 'recvmsg', 'read'):
            e.report('receive', i, 'receives by something else than recv', st)
        if name != 'recv':
            return
        p, n, r = st.mon['r']
        self.res.n['recvs'] += 1
        if r:
            e.report('receive', i, 'receives again', st)
            return 'stop'
        if args[1] != p[0] or args[2] != n[0]:
            e.report('receive', i, 'does not receive into the buffer', st)
        if args[3] != eng.ZERO:
            e.report('receive', i, 'receives with flags which change what is received', st)
        out = [(c, [c]) for c in e.cancel_here(st.copy(), i, name)]
        s2 = st.copy()
        v = s2.fresh((eng.FULL[0], 0))
        s2.mon['r'] = (p, n, (v,))
        v = st.fresh((1, 1 << 31))
        st.mon['r'] = (p, n, (v,))
        return out + [(st, v), (s2, v if False else s2.mon['r'][2][0])]

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        self.res.n['returns'] += 1
        r = st.mon['r'][2]
        if not r:
            if st.rng(v)[1] > 0:
                e.report('result', i, 'data may be reported though nothing was received', st)
        elif st.rng(r[0])[0] > 0:
            if v != r[0]:
                e.report('result', i, 'the number of bytes reported is not the number of bytes received', st)
        elif st.rng(v)[1] > 0:
            e.report('result', i, 'data may be reported though receiving failed', st)

    def store(self, e, st, obj, off, size, val, i):
        p = st.mon['r'][0]
        if p and obj == ('d', p[0][1]):
            e.report('receive', i, 'the received data is changed', st)


class C11(Check):
    id = 'C11'
    title = 'A message is sent completely and in one piece, or sending reports failure'
    rule = ('Relational value analysis of sending and receiving: what is passed to send, with which mutex held, and what is returned, against the number of bytes '
            'the system accepted so far (any number, or failure, at each call).')
    quick = ['rc']
    thorough = ['rc', 'rcnet', 'rcdummy', 'lib', 'gplib', 'dump1090']
    minimum = {'sends': 1, 'recvs': 1, 'returns': 4}
    assumptions = ['messages have at least one byte', 'send and recv behave as specified by POSIX']

    def jobs(self, tier):
        return [(p, f) for p in self.products(tier) for f in ('NET_send', 'NET_receive')]

    def run(self, job, res):
        p, f = job
        m = ir.load(p)
        fn = rules.api(m, f)
        mon = Send(res) if f == 'NET_send' else Receive(res)
        e = eng.Engine(m, [mon], relational=True, K=6)
        st = e.initial_state()
        a = [st.fresh((1, eng.PMAX)), st.fresh((1, 1 << 31))]
        if f == 'NET_send':
            st.mon['s'] = ((a[0],), (a[1],)) + mon.init[2:]
        else:
            st.mon['r'] = ((a[0],), (a[1],), ())
        e.run(fn, a, st)
        res.take(e)


CHECK = C11()
