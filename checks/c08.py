from vpa import eng, ir, rules, wire
from vpa.check import Check

GET = {'BUF_getFrame', 'BUF_getFrameTimeout'}


class Frames(eng.Monitor):
    key = 'w2'      # frames held by the producer

    def call(self, e, st, name, args, i):
        if name == 'BUF_newFrame':
            v = st.fresh((1, eng.PMAX))
            st.mon['w2'] = (v,)
            st.mon['w'] = ()
            return [(st, v)]


class Input(eng.Monitor):
    """frames filled by the input, frames taken from the queue"""
    key = 'w3'

    def call(self, e, st, name, args, i):
        if name == 'INPUT_getFrame':
            s2 = st.copy()
            st.mon['w3'] = (args[0],)
            return [(st, eng.ONE), (s2, eng.ZERO)] + [(s, [s]) for s in e.cancel_here(s2.copy(), i, name)]
        if name in GET:
            v = st.fresh((1, eng.PMAX))
            st.mon['w3'] = (v,)
            return [(st, v), (st.copy(), eng.ZERO)]


class Out(wire.Msg):
    def __init__(self, res, m, root):
        wire.Msg.__init__(self, res, m)
        self.root = root

    def call(self, e, st, name, args, i):
        if name == 'BEAST_encode':
            return self.encode(e, st, args, i)
        if name == 'NET_send':
            f = st.mon['w3']
            if not (f and args[0] == eng.addk(f[0], self.raw[0])):
                if self.message(e, st, args[0], args[1], i) is None:
                    return 'stop'
            else:
                self.res.n['relayed'] += 1
                self.res.n['messages'] += 1
            st.mon['w'] = ()
            return [(st, st.fresh((0, 1)))] + [(s, [s]) for s in e.cancel_here(st, i, name)]
        if name == 'BUF_commitFrame':
            self.res.n['commits'] += 1
            if st.mon['w3'] and st.mon['w3'][0] == args[0]:
                st.mon['w3'] = ()
                return [(st, None)]
            a = e.addr(st, args[0], i, 'load')
            if not isinstance(a, tuple) or a[1][0] != 'i':
                return
            n = e.rd(st, a[0], ('i', a[1][1] + self.len[0]), self.len[1], 'i64')
            r = self.message(e, st, eng.addk(args[0], self.raw[0]), n, i)
            if r and e.insfn is not None and r[1]:
                # what the caller handed over is what is sent
                f = st.frames[0].fn
                last = r[1][-1]
                if not self.handed(e, st, last[4], r):
                    e.report('content', i, 'the frame committed does not end with the message submitted', st)
            st.mon['w'] = st.mon['w2'] = ()
            return [(st, None)]

    def handed(self, e, st, inp, r):
        """inp is an argument of the interface function (only those have a submitted message)"""
        return inp in st.mon['w4']


class Args(eng.Monitor):
    key = 'w4'


class C08(Check):
    id = 'C08'
    title = 'Everything sent is a well-formed frame of the protocol'
    rule = ('Loop-invariant proof that the encoder doubles each SYNC and copies everything else once; at each send and commit, on every path, the message is '
            'SYNC, a known type, and consecutively encoded data of the size this type has, its length is exactly that, '
            'and each buffer can hold twice the data encoded into it.')
    quick = ['rc', 'lib', 'gplib', 'dump1090-kit', 'rcdummy']
    minimum = {'messages': 12, 'encodings': 12, 'capacities': 12, 'commits': 2, 'writes': 4, 'encoder_exits': 2}
    assumptions = ['frames from the input are well-formed as they are taken over unchanged (C13)', 'rssi and timestamp of a submitted frame are not checked']

    def jobs(self, tier):
        return [(p,) for p in self.products(tier)]

    def run(self, job, res):
        m = ir.load(job[0])
        wire.check_encoder(m, res)
        g = rules.callees(m)
        opaque = {f.name for f in m.defined.values() if f.name.startswith(('COMP_', 'CFG_', 'SERIAL_', 'INPUT_', 'FILTER_')) and not f.internal}
        opaque |= {'LOGIN_login', 'NET_waitConnected', 'BUF_flush', 'BUF_flushUnlessHistoryEnabled', 'BUF_releaseFrame', 'BUF_putFrame', 'BUF_abortFrame',
                   'NET_receive'}
        tgt = {'NET_send', 'BUF_commitFrame', 'BEAST_encode'}
        direct = {a for a, s in g.items() if s & (tgt - {'BEAST_encode'})}
        # encoding for other purposes: the exported functions closest to it
        ext = {f.name for f in m.defined.values() if not f.internal}
        enc = {a for a in ext if 'BEAST_encode' in rules.reach(m, g[a], stop=ext - {'BEAST_encode'})}
        for r in sorted(enc | set(rules.roots_reaching(m, direct))):
            if m.functions[r].name == 'main' or r.startswith(('NET_', 'COMP_')) or r == 'BEAST_encode':
                continue
            self.root(m, r, opaque, tgt, res)

    def root(self, m, r, opaque, tgt, res):
        mon = Out(res, m, r)
        fa = Args()
        e = eng.Engine(m, [mon, Frames(), Input(), fa], noinline=(opaque | tgt | GET | {'BUF_newFrame'}) - {r})
        st = e.initial_state()
        f = m.functions[r]
        args = [st.fresh(eng.tyrange(a[1])) for a in f.args]
        st.mon['w4'] = tuple(args)
        e.run(f, args, st)
        res.take(e)
        res.n['roots'] += 1


CHECK = C08()
