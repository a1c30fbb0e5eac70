from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

HEAD, MAXLEN = 4, 128



class Stream(eng.Monitor):
    """mon b: (receive buffer,); v: (length of valid data,) once connected; p: what happened to the first command in the buffer:
    ('run',) or ('fn', handler, ) / ('len', expected) as loaded from the table"""
    key = 'v'
    loose = True
    init = ((), (), (), (), ())      # buffer, valid length, handler loaded, expected length loaded, executed

    def __init__(self, res, m, table):
        self.res = res
        self.table = ('g', table.name)
        f, n = m.field('PacketProcessor', 'fn'), m.field('PacketProcessor', 'payloadLen')
        self.fn, self.pl = f[0], n[0]
        self.esize = m.structs['PacketProcessor']['size']
        self.n = table.d['size'] // self.esize

    def header(self, e, st):
        """type and length of the first command"""
        b = st.mon['v'][0][0]
        x = [e.rd(st, b, ('i', k), 1, 'i8') for k in range(4)]
        return st.cat([x[1], x[0]], 64), st.cat([x[3], x[2]], 64)

    def full(self, e, st, ln):
        v = st.mon['v'][1][0]
        return st.diff(v, ln)[0] >= 0

    def ignorable(self, e, st):
        """the first command needs not be executed: 'type', 'fn', 'len' or None"""
        b, v, fn, pl, ex = st.mon['v']
        if not v or not b:
            return None
        t, l = self.header(e, st)
        if t is None or l is None:
            return None
        if st.rng(t)[0] >= self.n:
            return 'type'
        if fn and st.rng(fn[0]) == (0, 0):
            return 'fn'
        if pl:
            d = e.binop(st, 'add', pl[0], ('i', HEAD), 64)
            if e.cmp(st, 'ne', d, l, 64) or e.cmp(st, 'ne', pl[0], e.binop(st, 'sub', l, ('i', HEAD), 64), 64):
                return 'len'
        return None

    def malformed(self, st, l):
        lo, hi = st.rng(l)
        return hi < HEAD or lo > MAXLEN

    def loaded(self, e, st, obj, off, size, val, i):
        if obj != self.table:
            return
        b, v, fn, pl, ex = st.mon['v']
        if not v or not b:
            return
        t = self.header(e, st)[0]
        for k, what in ((self.fn, 'fn'), (self.pl, 'pl')):
            o = e.binop(st, 'add', e.binop(st, 'mul', t, ('i', self.esize), 64), ('i', k), 64)
            if eng.leq(o, off):
                self.res.n['lookups'] += 1
                old = fn if what == 'fn' else pl
                if old:
                    return old[0]
                st.mon['v'] = (b, v, (val,), pl, ex) if what == 'fn' else (b, v, fn, (val,), ex)
                return
        e.report('table', i, 'the table of commands is not accessed at the type of the received command', st)

    def icall(self, e, st, val, args, i):
        b, v, fn, pl, ex = st.mon['v']
        self.res.n['executions'] += 1
        if not v:
            e.report('connection', i, 'a command is executed although the connection was lost', st)
            return 'stop'
        if ex:
            e.report('twice', i, 'a command is executed twice', st)
            return 'stop'
        t, l = self.header(e, st)
        if not fn or fn[0] != val:
            e.report('handler', i, 'something which is not the handler of the received command is executed', st)
            return 'stop'
        if st.rng(t)[1] >= self.n:
            e.report('handler', i, 'a command of unknown type is executed', st)
        if st.rng(val)[0] < 1 and 0 not in st.excl(val):
            e.report('handler', i, 'a command without handler is executed', st)
        if len(args) != 1 or args[0] != ('p', b[0], ('i', HEAD)):
            e.report('payload', i, 'the handler does not get the payload of the received command', st)
        want = e.binop(st, 'sub', l, ('i', HEAD), 64)
        if not pl or st.diff(pl[0], want) != (0, 0):
            e.report('length', i, 'a command is executed though its length is not the one expected for its type', st)
        elif st.rng(l)[0] < HEAD:
            e.report('length', i, 'a command is executed though its length is not the one expected for its type', st)
        if not self.full(e, st, l):
            e.report('incomplete', i, 'a command may be executed before it was received completely', st)
        if st.rng(l)[1] > MAXLEN:
            e.report('length', i, 'a command of excessive length is executed', st)
        st.mon['v'] = (b, v, fn, pl, (eng.ONE,))
        return [(st, None)]

    def consumed(self, e, st, i, l):
        b, v, fn, pl, ex = st.mon['v']
        if not ex and not self.ignorable(e, st) and not self.malformed(st, l):
            e.report('lost', i, 'a command which was received may be dropped without being executed', st)

    def call(self, e, st, name, args, i):
        b, v, fn, pl, ex = st.mon['v']
        if name == 'NET_waitConnected':
            self.res.n['connects'] += 1
            st.mon['v'] = (b, (eng.ZERO,), (), (), ())
            return [(st, None)] + [(s, [s]) for s in e.cancel_here(st.copy(), i, name)]
        if name == 'NET_receive':
            self.res.n['receives'] += 1
            if not v:
                e.report('connection', i, 'receives after a failure without waiting for a new connection', st)
                return 'stop'
            p, n = args[0], args[1]
            if p[0] != 'p' or p[1][0] not in 'ag':
                raise AnalysisError('unknown receive buffer')
            if not b:
                b = (p[1],)
            elif b[0] != p[1]:
                e.report('buffer', i, 'receives into a different buffer', st)
                return 'stop'
            off, v = p[2], v[0]
            st.mon['v'] = (b, (v,), fn, pl, ex)
            t, l = self.header(e, st)
            if st.diff(off, v) == (0, 0):
                # everything there is is kept
                if ex:
                    e.report('twice', i, 'the command executed stays in the buffer', st)
                elif v != eng.ZERO and st.rng(v)[1] >= HEAD and not (e.cmp(st, 'slt', v, l, 64) and st.rng(l)[0] >= HEAD and st.rng(l)[1] <= MAXLEN):
                    e.report('late', i, 'more data is awaited while there may be a complete or malformed command in the buffer', st)
            elif st.rng(off) == (0, 0):
                if st.rng(v)[0] < HEAD:
                    e.report('drop', i, 'the beginning of a command may be dropped', st)
                elif not self.malformed(st, l):
                    if st.diff(v, l) != (0, 0):
                        e.report('drop', i, 'data received is dropped though the command is well-formed', st)
                    self.consumed(e, st, i, l)
            else:
                e.report('append', i, 'data is not received right behind the data received before', st)
                return 'stop'
            out = []
            s2 = st.copy()
            r = s2.fresh((eng.FULL[0], 0))
            s2.mon['v'] = (b, (), (), (), ())
            e.note(s2, '%s: connection lost' % e.mod.locstr(i))
            out.append((s2, r))
            # what is in the buffer afterwards; number of bytes received
            lo = max(st.rng(off)[0], 0) + 1
            w = st.fresh((lo, eng.FULL[1]))
            r = e.binop(st, 'sub', w, off, 64)
            if not st.setdiff(w, off, 1, eng.FULL[1]) or not st.setdiff(w, e.binop(st, 'add', off, n, 64), eng.FULL[0], 0) or not st.setcon(w, lo, st.rng(e.binop(st, 'add', off, n, 64))[1]):
                return out
            st.kill(b[0], max(st.rng(off)[0], 0), 1 << 30)
            st.mon['v'] = (b, (w,), (), (), ())
            return out + [(st, r)] + [(s, [s]) for s in e.cancel_here(st.copy(), i, name)]
        if name.replace('llvm.', '').startswith(('memmove', 'memcpy')) and b and args[0] == ('p', b[0], eng.ZERO):
            self.res.n['moves'] += 1
            if not v:
                return
            t, l = self.header(e, st)
            s, n = args[1], args[2]
            if s[0] != 'p' or s[1] != b[0]:
                e.report('move', i, 'something else is copied to the receive buffer', st)
                return 'stop'
            if st.rng(l)[0] < HEAD or st.rng(l)[1] > MAXLEN:
                e.report('move', i, 'a malformed command is skipped instead of dropping everything received', st)
            if st.diff(s[2], l) != (0, 0):
                e.report('move', i, 'the remaining data does not begin behind the command just handled', st)
            if st.diff(e.binop(st, 'add', n, l, 64), v[0]) != (0, 0):
                e.report('move', i, 'the remaining data is not exactly what follows the command just handled', st)
            self.consumed(e, st, i, l)
            st.kill(b[0])
            if n[0] == 't':
                r = st.fresh(st.rng(n))
                st.point(n, r)
                n = r
            st.mon['v'] = (b, (n,), (), (), ())
            return [(st, args[0] if i.ty != 'void' else None)]

    def part(self, e, st):
        b, v, fn, pl, ex = st.mon['v']
        c = ''
        if v and b:
            l = self.header(e, st)[1]
            lo, hi = st.rng(l)
            c = 'short' if hi < HEAD else 'long' if lo > MAXLEN else 'incomplete' if st.diff(v[0], l)[1] < 0 else 'complete' if st.diff(v[0], l)[0] >= 0 else ''
        return self.ignorable(e, st) or '', bool(ex), c


class C10(Check):
    id = 'C10'
    title = 'Commands of the server are executed exactly if complete and well-formed'
    rule = ('Relational value analysis of the thread receiving commands with a model of the byte stream: what is in the buffer, where data is appended, '
            'which handler is called with which payload and when, and what is removed from the buffer; bit-precise evaluation of the filter command.')
    quick = ['rc']
    thorough = ['rc', 'rcnet', 'rcdummy', 'lib', 'gplib']
    minimum = {'executions': 1, 'receives': 1, 'connects': 1, 'lookups': 2, 'filter': 256}
    assumptions = ['receiving yields the bytes of the connection in order (C11)', 'the table of commands does not change while a command is handled']

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            out.append((p, 'stream', rules.compmain(m, 'TB_comp')['main'][1]))
            out += [(p, 'filter', k) for k in range(0, 256, 32)]
        return out

    def run(self, job, res):
        p, what, arg = job
        m = ir.load(p)
        t = table(m)
        if what == 'stream':
            mon = Stream(res, m, t)
            e = eng.Engine(m, [mon], relational=True, K=8, cancel=False, partition=mon.part, unequal=True)
            e.run(m.functions[arg])
            res.take(e)
        else:
            f = handler(m, t, m.enumval('TB_PACKET_TYPE_FILTER'))
            for k in range(arg, arg + 32):
                check_filter(m, f, k, res)


def table(m):
    reg = rules.reach(m, [rules.api(m, 'TB_register').name])
    g = [g for g in m.globals.values() if g.cells and rules.users(m, {g.name}) & reg and any(c[2][0] == 'f' for c in g.cells)]
    if len(g) != 1:
        raise AnalysisError('table of commands not found')
    return g[0]


def handler(m, t, k):
    f = m.field('PacketProcessor', 'fn')[0] + k * m.structs['PacketProcessor']['size']
    n = m.field('PacketProcessor', 'payloadLen')[0] + k * m.structs['PacketProcessor']['size']
    fn = [v[1] for o, s, v in t.cells if o == f and v[0] == 'f']
    ln = [v[1] for o, s, v in t.cells if o == n and v[0] == 'i']
    if not fn or ln != [2]:
        raise AnalysisError('filter command not found')
    return m.functions[fn[0]]


SETS = {'FILTER_setSynchronizedFilter': 0, 'FILTER_setModeSExtSquitter': 1, 'FILTER_reset': 7}


class Filter(eng.Monitor):
    """mon f: ((function, argument), ...)"""
    key = 'f'
    init = ()

    def __init__(self, res, mask, cfg):
        self.res, self.mask, self.cfg = res, mask, cfg

    def call(self, e, st, name, args, i):
        if name in SETS:
            st.mon['f'] += ((('i', SETS[name]), args[0] if args else eng.ONE),)
            return [(st, None)]
        if name.startswith('FILTER_'):
            e.report('filter', i, 'the filter command does something else', st)

    def exit(self, e, st, kind, v, i):
        self.res.n['filter'] += 1
        done = {}
        for (_, k), a in st.mon['f']:
            if k in done:
                e.report('filter', i, 'a filter is set twice', st)
            done[k] = a
        for k in SETS.values():
            want = self.mask >> k & 1
            if want and k not in done:
                e.report('filter', i, 'a filter selected by the command is not changed', st)
            if not want and k in done:
                e.report('filter', i, 'a filter not selected by the command is changed', st)
            if want and k in done and k != 7:
                for c in range(256):
                    s = st.copy()
                    s.mon['f'] = (done[k],)
                    s.mon['c'] = (self.cfg,)
                    if s.setcon(self.cfg, c, c):
                        r = e.truth(s, s.mon['f'][0]) if s.mon['f'][0][0] in 'ic' else None
                        if r is None:
                            r = fold(e, s, s.mon['f'][0])
                        if r is None or bool(r) != bool(c >> k & 1):
                            e.report('filter', i, 'a filter is not set to what the command says', st)
                            break


def fold(e, s, v):
    """value of a term all atoms of which are constants"""
    if v[0] == 'i':
        return v[1]
    if v[0] == 'c':
        a, b = fold(e, s, v[2]), fold(e, s, v[3])
        return None if a is None or b is None else int(e.cmp(s, v[1], ('i', a), ('i', b), v[4]))
    if v[0] == 't':
        if v[1] in ('zext', 'trunc', 'sext'):
            a = fold(e, s, v[2])
            if a is None:
                return None
            return eng.uns(a, v[3]) if v[1] == 'zext' else eng.norm(a, v[-1])
        if len(v) == 5:
            a, b = fold(e, s, v[2]), fold(e, s, v[3])
            if a is None or b is None:
                return None
            r = e.binop(s, v[1], ('i', a), ('i', b), v[-1])
            return r[1] if r[0] == 'i' else None
    return None


def check_filter(m, f, mask, res):
    s0 = eng.Engine(m, [], cancel=False).initial_state()
    cfg = s0.fresh((0, 255))
    p = s0.fresh((1, eng.PMAX))
    s0.write(('d', p[1]), 0, 1, ('i', mask))
    s0.write(('d', p[1]), 1, 1, cfg)
    mon = Filter(res, mask, cfg)
    e = eng.Engine(m, [mon], cancel=False)
    s0.mon['f'] = ()
    e.run(f, [p], s0)
    res.take(e)


CHECK = C10()
