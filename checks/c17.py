from vpa import eng, hist, ir, rules, wire
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
AC, SHORT, LONG, STATUS = 0x31, 0x32, 0x33, 0x34
EXT = (17, 18)


class Filter(hist.History):
    """model: () until constructed, then synchronized, synchronization filter, extended squitter filter, input told"""

    def __init__(self, res, opt):
        hist.History.__init__(self, res)
        self.opt = opt

    def begin(self, st):
        op, args = st.mon['o']
        x = list(self.get(st))
        if op[0] == 'construct':
            x = [F] + list(op[1:]) + [T]
        elif op[0] == 'reset':
            x[0] = F
        elif op[0] == 'synchronized':
            x[0] = args[0]
        elif op[0] == 'sync':
            x[1] = args[0]
        elif op[0] == 'ext':
            x[2:] = args[0], T if x[2] == args[0] else F
        self.put(st, *x)

    def call(self, e, st, name, args, i):
        if name == 'INPUT_reconfigure':
            x = self.get(st)
            o = self.opt['ext']
            v = st.peek(o[0], o[1], 1)
            self.res.n['reconfigured'] += 1
            if v != x[2]:
                e.report('input', i, 'the input is told the old filter', st)
            self.put(st, *x[:3], T)
            return [(st, None)]

    def end(self, e, st, v, i):
        sy, sf, ex, told = self.get(st)
        for o, want in ((self.opt['sync'], sf), (self.opt['ext'], ex)):
            if st.peek(o[0], o[1], 1) != want:
                e.report('config', i, 'the configuration inputs see is not the one of the filter', st)
        if told == F:
            e.report('input', i, 'the input is not told that the filter was changed', st)
        op, args = st.mon['o']
        if op[0] != 'filter':
            return
        self.res.n['filtered'] += 1
        t, b = args[0][1], args[1][1]
        p = self.passes(t, b, sy, sf, ex)
        r = e.truth(st, v)
        if r is None:
            raise AnalysisError('unknown result')
        if r != p:
            df = b >> 3 & 31
            e.report('filter', i, 'a frame of type %#x%s %s' % (t, ', downlink format %d' % df if t in (SHORT, LONG) else '', 'is filtered' if p else 'passes the filter'), st)

    def passes(self, t, b, sy, sf, ex):
        return (sy == T or sf == F) and t in (SHORT, LONG) and (ex == F or (b >> 3 & 31) in EXT)


class Recv(eng.Monitor):
    """mon r: (connection, filter to be reset, frame, decoded, synchronized, verdict)
    frame: () or (frame,); decoded: () or (type, first byte, has a timestamp); verdict: ZERO no, ONE yes, () not asked"""
    key = 'r'
    init = (F, F, (), (), F, ())

    def __init__(self, res, m):
        self.res = res
        f = lambda k: m.field('OPENSKY_DecodedFrame', k)
        self.typ, self.mlat, self.payload = f('frameType'), f('mlat'), f('payload')

    def due(self, e, st, i):
        """the frame was dealt with"""
        c, r, f, d, s, v = st.mon['r']
        if d and s == F and d[0] == ('i', STATUS) and d[2] == T:
            e.report('sync', i, 'the filter is not told that the receiver is synchronized', st)
        if d and v == ():
            e.report('unfiltered', i, 'a frame is dropped without asking the filter', st)
        if d and v == T:
            e.report('lost', i, 'a frame which passed the filter is not buffered', st)

    def call(self, e, st, name, args, i):
        c, r, f, d, s, v = st.mon['r']
        put = lambda *x: st.mon.__setitem__('r', x)
        if name == 'INPUT_connect':
            if c != F:
                e.report('connect', i, 'connects again without disconnecting', st)
            self.res.n['connects'] += 1
            out = [(x, [x]) for x in e.cancel_here(st.copy(), i, name)]
            put(T, T, f, d, s, v)
            return [(st, None)] + out
        if name == 'INPUT_disconnect':
            put(F, r, f, d, s, v)
            return [(st, None)]
        if name == 'FILTER_reset':
            if r == F:
                e.report('reset', i, 'the filter is reset although the receiver was not connected anew', st)
            put(c, F, f, d, s, v)
            return [(st, None)]
        if name == 'BUF_newFrame':
            if f:
                e.report('frame', i, 'a frame is lost', st)
            n = st.fresh((1, eng.PMAX))
            put(c, r, (n,), (), F, ())
            return [(st, n)]
        if name in ('BUF_commitFrame', 'BUF_abortFrame'):
            if f != (args[0],):
                e.report('frame', i, 'something else than the frame received is %s' % ('buffered' if name == 'BUF_commitFrame' else 'given back'), st)
            if name == 'BUF_commitFrame':
                self.res.n['commits'] += 1
                if v != T:
                    e.report('commit', i, 'a frame which did not pass the filter is buffered', st)
            elif d:
                self.due(e, st, i)
            put(c, r, (), (), F, ())
            return [(st, None)]
        if name == 'INPUT_getFrame':
            self.due(e, st, i)
            self.res.n['frames'] += 1
            if c != T:
                e.report('connect', i, 'frames are expected although the receiver is not connected', st)
                return 'stop'
            if r == T:
                e.report('reset', i, 'the filter is not reset although the receiver was connected anew', st)
                return 'stop'
            if not f or args[0] != f[0]:
                e.report('frame', i, 'received into something which is not a new frame', st)
                return 'stop'
            if args[1][0] != 'p' or args[1][2][0] != 'i':
                raise AnalysisError('unknown decoded frame')
            o, b = args[1][1], args[1][2][1]
            st.kill(o)
            lost = st.copy()
            lost.mon['r'] = (('i', 2), r, f, (), F, ())
            out = [(lost, F)]
            for t in (AC, SHORT, LONG, STATUS):
                for ts in (T, F):
                    s2 = st.copy()
                    x = s2.fresh((-128, 127))
                    y = s2.fresh((1, (1 << 48) - 1)) if ts == T else F
                    s2.write(o, b + self.typ[0], self.typ[1], ('i', t))
                    s2.write(o, b + self.mlat[0], 8, y)
                    s2.write(o, b + self.payload[0], 1, x)
                    s2.mon['r'] = (c, r, f, (('i', t), x, ts), F, ())
                    out.append((s2, T))
            return out + [(x, [x]) for x in e.cancel_here(st.copy(), i, name)]
        if name == 'FILTER_setSynchronized':
            if not d or v != () or not (d[0] == ('i', STATUS) and d[2] == T) or args[0] != T:
                e.report('sync', i, 'the receiver is taken as %s without a status frame which tells so' % ('synchronized' if args[0] == T else 'not synchronized'), st)
            put(c, r, f, d, T, v)
            return [(st, None)]
        if name == 'FILTER_filter':
            self.res.n['asked'] += 1
            if not d:
                e.report('filter', i, 'the filter is asked without a frame', st)
                return 'stop'
            if e.cmp(st, 'eq', args[0], d[0], 32) is not True or e.cmp(st, 'eq', args[1], d[1], 8) is not True:
                e.report('filter', i, 'the filter is asked about something else than type and first byte of the frame', st)
            s2 = st.copy()
            put(c, r, f, d, s, T)
            s2.mon['r'] = (c, r, f, d, s, F)
            return [(st, T), (s2, F)]

    def exit(self, e, st, kind, v, i):
        self.res.n['exits'] += 1
        c, r, f, d, s, v = st.mon['r']
        if kind == 'return':
            e.report('exit', i, 'the thread ends', st)
        if kind != 'cancel':
            return
        if c != F:
            e.report('connect', i, 'the receiver is not disconnected when the thread ends', st)
        if f:
            e.report('frame', i, 'a frame is lost when the thread ends', st)


class Msg(wire.Msg):
    def call(self, e, st, name, args, i):
        if name == 'BEAST_encode':
            return self.encode(e, st, args, i)


class Lib(eng.Monitor):
    """mon l: (verdict, type, first byte, frames), frames: ((frame, ...))"""
    key = 'l'
    init = ((), F, F, ())

    def __init__(self, res, m):
        self.res, self.m = res, m
        self.msg = Msg(res, m)
        self.raw, self.rawlen = m.field('OPENSKY_RawFrame', 'raw'), m.field('OPENSKY_RawFrame', 'rawLen')

    def call(self, e, st, name, args, i):
        v, t, b, f = st.mon['l']
        if name == 'FILTER_filter':
            self.res.n['asked'] += 1
            if v != ():
                e.report('filter', i, 'the filter is asked twice', st)
            s2 = st.copy()
            st.mon['l'] = (T, args[0], args[1], f)
            s2.mon['l'] = (F, args[0], args[1], f)
            return [(st, T), (s2, F)]
        if name == 'BUF_newFrame':
            n = st.fresh((1, eng.PMAX))
            st.mon['l'] = (v, t, b, f + (n,))
            return [(st, n)]
        if name == 'BUF_commitFrame':
            self.res.n['commits'] += 1
            if args[0] not in f:
                e.report('frame', i, 'something else than a new frame is buffered', st)
                return 'stop'
            if v != T:
                e.report('commit', i, 'a frame which did not pass the filter is buffered', st)
                return 'stop'
            o = ('d', args[0][1])
            r = self.msg.message(e, st, eng.addk(args[0], self.raw[0]), e.rd(st, o, ('i', self.rawlen[0]), 8, 'i64'), i)
            if r is None:
                return 'stop'
            x = e.rd(st, o, ('i', self.raw[0] + 1), 1, 'i8')
            if e.cmp(st, 'eq', x, st.byte(t, 0), 8) is not True:
                e.report('filter', i, 'the type the filter was asked about is not that of the frame', st)
            first = [y for off, size, y in wire.payload(r[1]) or () if off == 7] if wire.payload(r[1]) is not None else [p[3] for p in r[1]]
            if wire.payload(r[1]) is None:
                # length depends on the type: a single part
                first = [y for p in r[1] for off, size, y in p[3] if off == 7 and size == 1]
            if not any(y == b or e.cmp(st, 'eq', y, b, 8) is True for y in first):
                e.report('filter', i, 'the byte the filter was asked about is not the first one of the payload', st)
            st.mon['l'] = ((), F, F, tuple(y for y in f if y != args[0]))
            return [(st, None)]
        if name == 'BUF_abortFrame':
            st.mon['l'] = (v, t, b, tuple(y for y in f if y != args[0]))
            return [(st, None)]

    def exit(self, e, st, kind, val, i):
        self.res.n['exits'] += 1
        v, t, b, f = st.mon['l']
        if kind != 'return':
            return
        if v == T:
            e.report('lost', i, 'a frame which passed the filter is not buffered', st)
        if f:
            e.report('frame', i, 'a frame is lost', st)


class C17(Check):
    id = 'C17'
    title = 'A frame received is buffered exactly if it passes the filters'
    rule = ('The filter: all states reachable by configuring, resetting and synchronizing, against a model, for all frame types and first bytes. The receiver thread and the functions of the libraries: '
            'typestate of frame and connection; every frame is judged once, with its own type and first byte, after telling the filter of synchronization, and buffered iff it passes.')
    quick = ['rc', 'lib', 'gplib', 'dump1090']
    minimum = {'filtered': 4000, 'frames': 2, 'asked': 6, 'commits': 3, 'connects': 2}
    assumptions = ['frames are decoded as received (C13)']

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            if 'FILTER_filter' not in m.functions or m.functions['FILTER_filter'].decl:
                continue
            out.append((p, 'filter', tier == 'thorough'))
            g = rules.callers(m).get('BUF_commitFrame', ())
            if not g:
                raise AnalysisError('%s: nothing is buffered' % p)
            main = rules.threads(m).get('RECV_comp')
            use = {r for r in rules.roots_reaching(m, ['BUF_commitFrame']) if r != 'BUF_commitFrame'}
            live = rules.callers(m).get('INPUT_getFrame') and m.functions.get('INPUT_getFrame') and not m.functions['INPUT_getFrame'].decl
            if main in use and live:
                out.append((p, 'recv', main))
            out += [(p, 'lib', r) for r in sorted(use - {main}) if not m.functions[r].internal and 'FILTER_filter' in rules.reach(m, [r])]
        return out

    def run(self, job, res):
        m = ir.load(job[0])
        if job[1] == 'filter':
            return self.filter(m, res, job[2])
        f = m.functions[job[2]]
        mon = Recv(res, m) if job[1] == 'recv' else Lib(res, m)
        noin = {x for x in m.functions if x.startswith(('BUF_', 'FILTER_', 'INPUT_', 'BEAST_')) and not m.functions[x].internal and x != f.name}
        e = eng.Engine(m, [mon] + ([mon.msg] if job[1] == 'lib' else []), cancel=job[1] == 'recv', shared=lambda g: False, noinline=noin, K=1000)
        e.run(f)
        res.take(e)

    def filter(self, m, res, thorough):
        opt = {'sync': rules.option(m, 'FILTER', 'SyncFilter'), 'ext': rules.option(m, 'FILTER', 'ModeSExtSquitterOnly')}
        mon = Filter(res, opt)
        con = [m.functions[c['onConstruct'][1]] for k, c in m.comps().items() if m.globals[k].dname == 'FILTER_comp']
        if not con:
            raise AnalysisError('no filter component')

        def construct(s, x):
            def mk(st):
                if st.mon['h']:
                    return None
                st.write(*opt['sync'], 1, s)
                st.write(*opt['ext'], 1, x)
                return [st.fresh() for _ in con[0].args]
            return mk

        def later(*args):
            return lambda st: list(args) if st.mon['h'] else None
        ops = [(('construct', s, x), con[0], construct(s, x)) for s in (T, F) for x in (T, F)]
        ops.append((('reset',), rules.api(m, 'FILTER_reset'), later()))
        for v in (T, F):
            for op, fn in (('synchronized', 'FILTER_setSynchronized'), ('sync', 'FILTER_setSynchronizedFilter'), ('ext', 'FILTER_setModeSExtSquitter')):
                ops.append(((op,), rules.api(m, fn), later(v)))
        for t in (AC, SHORT, LONG, STATUS):
            for b in range(256) if thorough else (x << 3 | y for x in range(32) for y in (0, 2, 5, 7)):
                ops.append((('filter',), rules.api(m, 'FILTER_filter'), later(('i', t), ('i', b))))
        hist.explore(m, res, mon, (), ops, {'INPUT_reconfigure'})


CHECK = C17()
