from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

LOST = ('i', 2)
R2D = 57.29577951308232
LEN = 69
# position packet, as sent by the receiver
MODE, DISC, CRIT, MINOR, STATUS, LAT, LON, ALT = 2, 3, 9, 11, 13, 37, 45, 53
SURVEY, TEST = 1 << 5, 1 << 8
GOOD = {0: 0x8f, 1: 0xac, MODE: 7, DISC: 0, CRIT: 0, CRIT + 1: 0, MINOR: 0, MINOR + 1: 0, STATUS: 0}


def packets(thorough=False):
    """(length, known bytes, valid); bytes not mentioned are symbolic, length None: any other one"""
    out = []
    for n in (GOOD[0], 0x46, 0x55, 0):
        if n != GOOD[0]:
            out.append((LEN, dict(GOOD, **{0: n}) if 0 else {**GOOD, 0: n}, False))
    for k in (0xab, 0xa2, 0):
        out.append((LEN, {**GOOD, 1: k}, False))
    out += [(n, GOOD, False) for n in (1, 2, 3, LEN - 1, LEN + 1, 1000)]
    for v in range(256):
        for k in (MODE, DISC, STATUS, CRIT, CRIT + 1):
            if v != GOOD[k]:
                out.append((LEN, {**GOOD, k: v}, False))
        for w in range(256) if thorough else (0, 0xfe, 0xff, 1):
            out.append((LEN, {**GOOD, MINOR: w, MINOR + 1: v}, not ((w << 8 | v) & (SURVEY | TEST))))
        for w in (0, 0xdf, 0xff, 0x20):
            out.append((LEN, {**GOOD, MINOR: v, MINOR + 1: w}, not ((v << 8 | w) & (SURVEY | TEST))))
    return out


class Trimble(eng.Monitor):
    """mon t: (connected, (position of an earlier connection, position of this one), packet being processed: () | (valid, set, latitude, longitude, altitude))"""
    key = 't'
    init = (eng.ZERO, (eng.ZERO, eng.ZERO), ())

    def __init__(self, res, packets):
        self.res, self.packets = res, packets
        self.seen = set()

    def done(self, e, st, i):
        """the packet was processed"""
        c, f, p = st.mon['t']
        if p and p[0] == eng.ONE and p[1] == eng.ZERO:
            e.report('ignored', i, 'the position of a valid packet is not set', st)
        st.mon['t'] = (c, f, ())

    def call(self, e, st, name, args, i):
        c, f, p = st.mon['t']
        if name == 'TRIMBLE_PARSER_connect':
            self.done(e, st, i)
            self.res.n['connects'] += 1
            if c != eng.ZERO:
                e.report('reconnect', i, 'connects again without disconnecting', st)
            st.mon['t'] = (eng.ONE, (max(f), eng.ZERO), ())
            return [(st, None)]
        if name == 'TRIMBLE_PARSER_disconnect':
            self.done(e, st, i)
            self.res.n['disconnects'] += 1
            st.mon['t'] = (eng.ZERO, f, ())
            return [(st, None)]
        if name == 'GPS_reset':
            if p:
                e.report('reset', i, 'the position is forgotten because of a packet', st)
            st.mon['t'] = (c, (eng.ZERO, eng.ZERO), p)
            return [(st, None)]
        if name == 'TRIMBLE_PARSER_getFrame':
            self.done(e, st, i)
            if c != eng.ONE:
                e.report('reconnect', i, 'packets are expected although the receiver is not connected', st)
                return 'stop'
            if f[0] == eng.ONE:
                e.report('stale', i, 'the position known before the receiver was connected is kept', st)
                return 'stop'
            if args[0][0] != 'p' or args[0][2] != eng.ZERO:
                raise AnalysisError('unknown buffer for packets')
            o = args[0][1]
            hi = st.rng(args[1])[0]
            st.kill(o)
            s = st.copy()
            key = e.canon(s)
            if key in self.seen:
                return 'stop'
            self.seen.add(key)
            s = st.copy()
            s.mon['t'] = (LOST, f, ())
            out = [(s, eng.ZERO)]
            for n, b, valid in self.packets:
                if n > hi:
                    if n == LEN:
                        e.report('buffer', i, 'the buffer is too small for a position packet', st)
                        return 'stop'
                    continue
                s = st.copy()
                for k in b:
                    s.write(o, k, 1, ('i', eng.norm(b[k], 8)))
                self.res.n['packets'] += 1
                num = []
                for x in (LAT, LON, ALT) if valid else ():
                    v = [s.fresh((-128, 127)) for _ in range(8)]
                    for k in range(8):
                        s.write(o, x + k, 1, v[k])
                    num.append(s.cat(v[::-1], 64))
                s.mon['t'] = (c, f, (eng.ONE if valid else eng.ZERO, eng.ZERO) + tuple(num))
                e.note(s, '%s: packet of %d bytes beginning with %s' % (e.mod.locstr(i), n, ' '.join('%02x' % (b[k]) if k in b else 'xx' for k in range(min(n, 14)))))
                out.append((s, ('i', n)))
            return out + [(x, [x]) for x in e.cancel_here(st.copy(), i, name)]
        if name in ('GPS_setPositionWithFix', 'GPS_setPosition', 'GPS_setHasFix'):
            if name != 'GPS_setPositionWithFix':
                raise AnalysisError('%s used by the receiver' % name)
            self.res.n['sets'] += 1
            if not p or p[0] == eng.ZERO:
                e.report('invalid', i, 'a position is set although the packet has no valid one', st)
                return 'stop'
            for k, what in enumerate(('latitude', 'longitude', 'altitude')):
                v, w = args[k], p[2 + k]
                if v[0] == 't' and v[1] == 'fscale':
                    r, v = v[3][1], v[2]
                else:
                    r = 1
                if not (v == w or e.cmp(st, 'eq', v, w, 64) is True):
                    e.report('value', i, 'the %s is not the one of the packet' % what, st)
                elif abs(r / (1 if k == 2 else R2D) - 1) > 1e-12:
                    e.report('value', i, 'the %s is converted wrongly' % what, st)
            st.mon['t'] = (c, (f[0], eng.ONE), (p[0], eng.ONE) + p[2:])
            return [(st, None)]

    def exit(self, e, st, kind, v, i):
        self.res.n['exits'] += 1
        if kind == 'cancel' and st.mon['t'][0] != eng.ZERO:
            e.report('leave', i, 'the receiver is not disconnected when the thread ends', st)
        if kind == 'return':
            e.report('leave', i, 'the thread ends', st)


class C16(Check):
    id = 'C16'
    title = 'GPS positions are taken from each valid packet, and from valid packets only'
    rule = ('Value analysis of the receiver thread on packets with all values of the bytes which decide on validity (one field at a time deviating from a valid packet) and symbolic '
            'positions: the position is set iff the packet is valid, to the values of the packet converted to degrees; reset and (dis)connecting are typestates.')
    quick = ['rc']
    thorough = ['rc', 'rcnet', 'rcdummy']
    minimum = {'packets': 2000, 'sets': 500, 'connects': 1, 'disconnects': 1}
    assumptions = ['packets are delivered as received (C14)']

    def jobs(self, tier):
        return [(p, tier == 'thorough') for p in self.products(tier)]

    def run(self, job, res):
        m = ir.load(job[0])
        f = m.functions[rules.compmain(m, 'TRIMBLE_comp')['main'][1]]
        mon = Trimble(res, packets(job[1]))
        noin = {x for x in m.functions if x.startswith(('TRIMBLE_PARSER_', 'GPS_')) and not m.functions[x].internal}
        e = eng.Engine(m, [mon], cancel=True, shared=lambda g: False, noinline=noin, K=100000, max_steps=20000000)
        e.run(f)
        res.take(e)


CHECK = C16()
