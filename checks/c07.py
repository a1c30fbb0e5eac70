from vpa import eng, ir, rules, wire
from vpa.check import Check
from vpa.ir import AnalysisError

FAIL = 'fail'


class Login(wire.Msg):
    """mon p: (event, ...) of names sent, 'fail' (a message could not be sent), 'noserial';  mon n: (serial number,) once known"""

    def __init__(self, res, m, where):
        wire.Msg.__init__(self, res, m)
        self.where = where

    def call(self, e, st, name, args, i):
        if name == 'BEAST_encode':
            return self.encode(e, st, args, i)
        if name == 'SERIAL_getSerial':
            s2 = st.copy()
            v = st.fresh(eng.RANGES[32])
            st.mon['n'] = (v,)
            e.store(st, v, args[0], 4, i)
            s2.mon['p'] += ('noserial',)
            return [(st, ('i', self.m_ok))] + [(s2.copy(), ('i', x)) for x in self.m_fail]
        if name == 'NET_send':
            self.res.n['sends'] += 1
            p = st.mon['p']
            if FAIL in p:
                e.report('login', i, 'the login goes on although sending an earlier message failed', st)
                return 'stop'
            if 'noserial' in p:
                e.report('login', i, 'the login goes on without a serial number', st)
                return 'stop'
            r = self.message(e, st, args[0], args[1], i)
            if r is None or len(r[0]) != 1:
                e.report('login', i, 'a message which is not part of the login is sent', st)
                return 'stop'
            k = r[0][0]
            if k not in ('device id', 'serial', 'position', 'user'):
                e.report('login', i, 'a %s message is sent during login' % k, st)
            elif k in p:
                e.report('login', i, 'a %s message is sent twice' % k, st)
            elif k == 'device id' and p or k == 'serial' and p != ('device id',) or 'serial' not in p and k in ('position', 'user'):
                e.report('login', i, 'a %s message is sent out of order' % k, st)
            self.content(e, st, k, r[1], i)
            st.mon['p'] = p + (k,)
            st.mon['w'] = ()
            s2 = st.copy()
            s2.mon['p'] += (FAIL,)
            return [(st, eng.ONE), (s2, eng.ZERO)] + [(s, [s]) for s in e.cancel_here(st.copy(), i, name)]

    def same(self, e, st, o, off, n, want):
        v = wire.be(st, o, off, n)
        if v is None or want is None:
            self.res.n['content_unknown'] += 1
            return True
        self.res.n['content'] += 1
        if v == want or e.cmp(st, 'eq', v, want, 8 * n):
            return True
        return False

    def content(self, e, st, k, parts, i):
        o = wire.octets(st, parts)
        if k == 'device id':
            w = [st.peek(*x) for x in self.where['type']]
            if not any(self.same(e, st, o, 0, 4, x) for x in w):
                e.report('content', i, 'the device id message does not carry the device type', st)
        elif k == 'serial':
            if not self.same(e, st, o, 0, 4, st.mon['n'][0] if st.mon['n'] else None):
                e.report('content', i, 'the serial message does not carry the serial number', st)
        elif k == 'position':
            for x in range(3):
                if not any(self.same(e, st, o, 8 * x, 8, st.peek(*y)) for y in self.where['pos'][x]):
                    e.report('content', i, 'the position message does not carry latitude, longitude and altitude', st)
        elif k == 'user' and len(parts) == 1:
            a = e.addr(st, parts[0][4], i, 'load')
            if isinstance(a, tuple) and a[0][0] == 'g' and (a[0] != self.where['user'] or a[1] != eng.ZERO):
                e.report('content', i, 'the user message does not carry the user name', st)

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        p = st.mon['p']
        t = e.truth(st, v)
        bad = FAIL in p or 'noserial' in p
        self.res.n['exits'] += 1
        if t is not False and bad:
            e.report('result', i, 'the login succeeds although a message could not be sent', st)
        elif t is not True and not bad:
            e.report('result', i, 'the login fails although everything was sent', st)
        if bad or t is False:
            return
        for k in ('device id', 'serial'):
            if k not in p:
                e.report('login', i, 'the login succeeds without the %s message' % k, st)
        if 'user' not in p:
            c = st.peek(self.where['user'], 0, 1)
            if c is None or e.cmp(st, 'eq', c, eng.ZERO, 8) is not True:
                e.report('login', i, 'the login succeeds without the user message although there is a user name', st)


class P(eng.Monitor):
    key = 'p'


class N(eng.Monitor):
    key = 'n'


class C07(Check):
    id = 'C07'
    title = 'Logging in sends device id, serial number, position and user, in order, or fails'
    rule = ('On every path through the login: messages are sent in the order device id, serial number, then position and user, each at most once; the big-endian '
            'payload is what was configured resp. assigned; nothing is sent after a send failed; the result is true iff everything was sent.')
    quick = ['rc', 'lib', 'dump1090']
    minimum = {'sends': 9, 'exits': 9, 'content': 30}
    assumptions = ['when the position is sent is decided by C15', 'the program version in the device id is not checked']

    def jobs(self, tier):
        return [(p,) for p in self.products(tier) if 'LOGIN_login' in ir.load(p).functions]

    def run(self, job, res):
        m = ir.load(job[0])
        f = rules.api(m, 'LOGIN_login')
        ty = rules.stored(m, 'LOGIN_setDeviceType')[0]
        pos = rules.stored(m, 'GPS_setPositionWithFix', {'NET_send'})
        if not ty or not all(pos[:3]):
            raise AnalysisError('%s: device type or position is not kept in a variable' % job[0])
        us = [g for g in self.written(m, rules.api(m, 'LOGIN_setUsername'))]
        if len(us) != 1:
            raise AnalysisError('%s: the user name is kept in %s' % (job[0], us))
        mon = Login(res, m, dict(type=sorted(ty), pos=[sorted(x) for x in pos], user=('g', us[0])))
        mon.m_ok = m.enumval('SERIAL_RETURN_SUCCESS')
        mon.m_fail = [m.enumval('SERIAL_RETURN_FAIL_' + x) for x in ('NET', 'TEMP', 'PERM')]
        e = eng.Engine(m, [mon, P(), N()], noinline={'NET_send', 'BEAST_encode', 'SERIAL_getSerial'}, shared=lambda g: False)
        st = e.initial_state()
        for x in ty | set().union(*pos[:3]):
            st.write(x[0], x[1], x[2], st.fresh(eng.RANGES[x[2] * 8]))
        e.run(f, None, st)
        res.take(e)

    def written(self, m, f):
        """character arrays a function mentions"""
        g = rules.callees(m)
        out = set()
        for x in m.globals.values():
            if not x.constant and x.d['size'] >= 40 and rules.users(m, {x.name}) & ({f.name} | {y for y in g[f.name] if y in m.defined and m.defined[y].internal}):
                out.add(x.name)
        return out


CHECK = C07()
