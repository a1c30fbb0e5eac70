from vpa import eng, hist, ir, rules, wire
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO


class Msg(wire.Msg):
    def call(self, e, st, name, args, i):
        if name == 'BEAST_encode':
            return self.encode(e, st, args, i)


class Gps(hist.History):
    """model: position (() if unknown), fix, due (was asked for, must be sent as soon as possible), may (may be sent without being asked again),
    sent (results of sending in this call)"""

    def __init__(self, res, m):
        hist.History.__init__(self, res)
        self.msg = Msg(res, m)

    def begin(self, st):
        pos, fix, due, may, sent = self.get(st)
        op, args = st.mon['o']
        if op in ('set', 'setfix'):
            pos = args
        if op in ('setfix', 'fix', 'nofix'):
            fix = F if op == 'nofix' else T
        if op == 'reset':
            pos, fix = (), F
        if op == 'cancel':
            due = may = F
        st.mon['w'] = ()
        self.put(st, pos, fix, due, may, ())

    def call(self, e, st, name, args, i):
        if name != 'NET_send':
            return
        pos, fix, due, may, sent = self.get(st)
        op = self.op(st)
        self.res.n['sends'] += 1
        r = self.msg.message(e, st, args[0], args[1], i)
        st.mon['w'] = ()
        if r is None:
            return 'stop'
        if r[0] != ('position',):
            e.report('message', i, 'something else than a position is sent', st)
        elif not pos:
            e.report('unknown', i, 'a position is sent although none is known', st)
        elif fix == F:
            e.report('unknown', i, 'a position is sent although there is no fix', st)
        elif op != 'send' and may == F:
            e.report('unasked', i, 'a position is sent although it was not asked for', st)
        elif sent:
            e.report('twice', i, 'a position is sent twice', st)
        else:
            o = wire.octets(st, r[1])
            for k, what in enumerate(('latitude', 'longitude', 'altitude')):
                v = wire.be(st, o, 8 * k, 8)
                if v is None or v != pos[k] and e.cmp(st, 'eq', v, pos[k], 64) is not True:
                    e.report('content', i, 'the %s sent is not the last one set' % what, st)
            s2 = st.copy()
            self.put(st, pos, fix, F, may if op == 'send' else F, (T,))
            self.put(s2, pos, fix, F if op == 'send' else due, may, (F,))     # whoever asked was told
            return [(st, T), (s2, F)]
        return 'stop'

    def end(self, e, st, v, i):
        pos, fix, due, may, sent = self.get(st)
        op = self.op(st)
        if op == 'send':
            t = e.truth(st, v)
            self.res.n['asked'] += 1
            if pos and fix == T and not sent:
                e.report('asked', i, 'the position is not sent although it was asked for and is known', st)
            if t is not (not sent or sent[0] == T):
                e.report('result', i, 'success is returned although sending failed' if sent and sent[0] == F else 'failure is returned although the position was sent or deferred', st)
            if not sent:
                due = may = T
        elif due == T and pos and fix == T and not sent:
            e.report('deferred', i, 'the position asked for is not sent although it is known now', st)
        self.put(st, pos, fix, due, may, ())


class C15(Check):
    id = 'C15'
    title = 'A position is sent iff it was asked for and is known, and is the last one set'
    rule = ('All states reachable by any sequence of calls (setting the position, setting and losing the fix, asking for the position, resetting, dropping the request; sending succeeds '
            'or fails) are enumerated and compared with a model: what is sent, when, its content and the result returned.')
    quick = ['rc', 'lib', 'gplib', 'dump1090']
    minimum = {'sends': 12, 'exits': 60, 'states': 16, 'asked': 16}
    assumptions = ['the operations are atomic (C03)', 'escaping is exact (C08)']

    def jobs(self, tier):
        return [(p,) for p in self.products(tier) if 'GPS_sendPosition' in ir.load(p).functions]

    def run(self, job, res):
        m = ir.load(job[0])
        mon = Gps(res, m)
        pos = lambda st: [st.fresh(eng.RANGES[64]) for _ in range(3)]
        none = lambda st: []
        ops = [('set', 'GPS_setPosition', pos), ('setfix', 'GPS_setPositionWithFix', pos), ('fix', 'GPS_setHasFix', lambda st: [T]), ('nofix', 'GPS_setHasFix', lambda st: [F]),
               ('send', 'GPS_sendPosition', none), ('reset', 'GPS_reset', none), ('cancel', 'GPS_resetNeedFlag', none)]
        hist.explore(m, res, mon, ((), F, F, F, ()), [(n, rules.api(m, f), a) for n, f, a in ops], {'NET_send', 'BEAST_encode'}, [mon.msg])


CHECK = C15()
