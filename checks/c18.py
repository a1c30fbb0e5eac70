from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
ESC, SET = 0x1a, ord('1')
# options of the receiver: meaning of upper and lower case
GROUPS = {'C': 'binary format', 'D': 'frame filter', 'E': 'timestamps in AVR format', 'F': 'check of the CRC', 'G': 'source of timestamps', 'H': 'handshake', 'I': 'error correction', 'J': 'Mode-A/C'}


class Options(eng.Monitor):
    """mon p: (connected, ((option group, upper case), ...), failed)"""
    key = 'p'
    init = (F, (), F)

    def __init__(self, res, want, connect):
        self.res, self.want, self.connect = res, want, connect

    def call(self, e, st, name, args, i):
        c, o, bad = st.mon['p']
        if name == 'RC_INPUT_connect':
            st.mon['p'] = (T, (), F)
            self.res.n['connects'] += 1
            return [(st, None)]
        if name == 'RC_INPUT_disconnect':
            st.mon['p'] = (F, (), F)
            return [(st, None)]
        if name == 'RC_INPUT_write':
            self.res.n['writes'] += 1
            if self.connect and c == F:
                e.report('connect', i, 'an option is set although the receiver is not connected', st)
            n = args[1]
            if n[0] != 'i' or n[1] % 3 or args[0][0] != 'p':
                raise AnalysisError('options are set in an unknown way')
            new = dict(o)
            for k in range(0, n[1], 3):
                b = [e.rd(st, args[0][1], eng.addk(args[0][2], k + j), 1, 'i8') for j in range(3)]
                if any(x[0] != 'i' for x in b):
                    raise AnalysisError('unknown option is set')
                b = [x[1] & 255 for x in b]
                if b[:2] != [ESC, SET]:
                    e.report('format', i, 'what is sent is not an option', st)
                    return 'stop'
                ch = chr(b[2])
                if ch.upper() in GROUPS:
                    new[ch.upper()] = T if ch.isupper() else F
            s2 = st.copy()
            st.mon['p'] = (c, tuple(sorted(new.items())) if bad == F else (), bad)
            s2.mon['p'] = (c, (), T)
            return [(st, n), (s2, eng.ONE), (s2.copy(), eng.ZERO)]

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        self.res.n['exits'] += 1
        c, o, bad = st.mon['p']
        if self.connect and c == F:
            e.report('connect', i, 'the receiver is not connected', st)
        if bad == T:
            if self.connect:
                e.report('failed', i, 'the receiver is taken as connected although setting an option failed', st)
            return
        o = dict(o)
        for k, w in self.want.items():
            self.res.n['options'] += 1
            if k not in o:
                e.report('missing', i, 'the %s of the receiver is not configured' % GROUPS[k], st)
            elif o[k] != w:
                e.report('wrong', i, 'the %s of the receiver is not configured as the filter is' % GROUPS[k], st)
        if not self.connect and set(o) - set(self.want):
            e.report('other', i, 'other options of the receiver are changed', st)


class C18(Check):
    id = 'C18'
    title = 'The Radarcape receiver is configured as the filter demands before it is used'
    rule = ('Value analysis of connecting and reconfiguring for all combinations of the options: the options written since the receiver was connected must be those demanded on every path '
            'which returns; a failed write must lead to another connection.')
    quick = ['rc']
    minimum = {'connects': 8, 'writes': 16, 'exits': 10, 'options': 30}
    assumptions = ['the meaning of the options is that of the Radarcape documentation']

    def jobs(self, tier):
        return [('rc', s, c, f) for s in (0, 1) for c in (0, 1) for f in (0, 1)]

    def run(self, job, res):
        m = ir.load(job[0])
        p, ext, crc, fec = job
        opt = [(rules.option(m, 'FILTER', 'ModeSExtSquitterOnly'), ext), (rules.option(m, 'FILTER', 'CRC'), crc), (rules.option(m, 'INPUT', 'fec'), fec)]
        want = {'C': T, 'D': ('i', ext), 'F': ('i', 1 - crc), 'G': T, 'H': T, 'I': ('i', 1 - fec), 'J': F}
        for f, w in (('INPUT_connect', want), ('INPUT_reconfigure', {'D': ('i', ext)})):
            mon = Options(res, w, f == 'INPUT_connect')
            e = eng.Engine(m, [mon], cancel=False, shared=lambda g: False, noinline={x for x in m.functions if x.startswith('RC_INPUT_')})
            st = e.initial_state()
            for o, v in opt:
                st.write(*o, 1, ('i', v))
            e.run(rules.api(m, f), None, st)
            res.take(e)


CHECK = C18()
