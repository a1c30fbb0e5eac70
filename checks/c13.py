from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

HEADER = 7
LEN = {0x31: 2, 0x32: 7, 0x33: 14, 0x34: 14}
ZERO, ONE = eng.ZERO, eng.ONE
SYNC = ('i', rules.SYNC)
# what is explored: type of the frames escapes, losses of synchronisation and so on are explored in, sizes of the pieces received
QUICK = ((0x31, (40,)), (0x32, (1, 2)), (0x33, (1, 2)), (0x33, (3,)), (0x31, (5,)), (0x31, (1, 2)), (0x33, (19,)), (0x34, (1,)), (0x32, (23,)))
THOROUGH = QUICK + tuple((t, s) for t in (0x31, 0x32, 0x33, 0x34) for s in ((1, 2, 3), (4,), (1, 40), (64,)))


class S:
    """the stream, processing the bytes one after the other
    ph: hunt (for a frame), found (a SYNC), frame
    typ: type of the frame; raw: its bytes after the type, data: the same without escaping; half: the last one was a SYNC
    queue: complete frames not delivered yet; esc: number of SYNC in the frame
    closed: the connection was lost; big: a large piece was received"""
    F = ('ph', 'typ', 'raw', 'data', 'half', 'queue', 'esc', 'closed', 'big', 'args')

    def __init__(self, t):
        for k, v in zip(self.F, t):
            setattr(self, k, v)

    def tup(self):
        return tuple(getattr(self, k) for k in self.F)

    def copy(self):
        return S(self.tup())

    def leave(self, ph):
        self.ph, self.typ, self.raw, self.data, self.half, self.esc = ph, 0, (), (), False, 0

    def eat(self, b, typ=None):
        """next byte: a term, of the given type"""
        if self.ph == 'hunt':
            self.ph = 'found' if b == SYNC else 'hunt'
        elif self.ph == 'found' or self.half and b != SYNC:
            # SYNC which is not doubled: a frame begins
            if b == SYNC:
                self.leave('hunt')
            elif typ:
                self.leave('frame')
                self.typ = typ
            else:
                self.leave('hunt')
        elif self.half:
            self.raw += (b,)
            self.data += (b,)
            self.half = False
            self.esc += 1
        else:
            self.raw += (b,)
            if b == SYNC:
                self.half = True
            else:
                self.data += (b,)
        if self.ph == 'frame' and len(self.data) == HEADER + LEN[self.typ]:
            self.queue += ((self.typ, self.raw, self.data),)
            self.leave('hunt')


class Stream(eng.Monitor):
    key = 's'
    READ = 'RC_INPUT_read'

    def __init__(self, res, m, typ, sizes):
        self.res, self.typ, self.sizes = res, typ, sizes
        self.raw = m.field('OPENSKY_RawFrame', 'raw')
        self.rawlen = m.field('OPENSKY_RawFrame', 'rawLen')
        self.f = {k: m.field('OPENSKY_DecodedFrame', k) for k in ('frameType', 'mlat', 'siglevel', 'payloadLen', 'payload')}
        self.m = m
        self.exits = []
        self.count = ()
        self.bufs = {}

    def start(self, st, args, mon=None):
        x = S(mon or ('hunt', 0, (), (), False, (), 0, False, 0, ()))
        x.args, x.big = args, 0
        self.put(st, x)

    def get(self, st):
        return S(st.mon['s'])

    def put(self, st, x):
        st.mon['s'] = x.tup()

    # --- bytes received
    def choices(self, st, x, left, big):
        """next bytes: (kind, unexpected?) with kind: sync, data, unknown (type), or a type"""
        if x.ph == 'hunt':
            return [('sync', 0), ('data', 1)]
        if x.ph == 'found':
            t = [self.typ] if not big or not x.queue else [0x31]
            return [(k, 0) for k in t] + [('unknown', 1), ('sync', 1)]
        if x.half:
            return [('sync', 0), (self.typ, 1), ('unknown', 1)]
        k = len(x.data) - (HEADER if len(x.data) >= HEADER else 0)
        n = LEN[x.typ] if len(x.data) >= HEADER else HEADER
        out = [('data', 0)]
        if x.esc == 0 and (not big or k in (0, 1, n - 1)) or x.esc == 1 and (x.data[-1] == SYNC or len(x.data) == HEADER + n - 1) and not big:
            out.append(('sync', 1))
        return out

    def pieces(self, st, x, n):
        """[(state, model, values)] for n bytes"""
        big = n > 8
        out = []
        todo = [(st.copy(), x.copy(), (), 0)]
        while todo:
            s, y, vals, cost = todo.pop()
            if len(vals) == n:
                if big:
                    y.big += 1
                out.append((s, y, vals))
                continue
            c = [k for k, u in self.choices(s, y, n - len(vals), big) if cost + u <= (1 if big else 2)]
            for j, k in enumerate(c):
                s2 = s if j == len(c) - 1 else s.copy()
                y2 = y.copy()
                if k == 'sync':
                    v = SYNC
                elif isinstance(k, int):
                    v = ('i', k)
                else:
                    v = s2.fresh((-128, 127))
                    for b in (rules.SYNC,) + (tuple(LEN) if k == 'unknown' else ()):
                        s2.setcon(v, *eng.FULL, b)
                unexpected = (y.ph, k) in (('hunt', 'data'), ('found', 'unknown'), ('found', 'sync')) or y.ph == 'frame' and (k == 'sync') == (not y.half)
                y2.eat(v, k if isinstance(k, int) else None)
                todo.append((s2, y2, vals + (v,), cost + unexpected))
        return out

    def refill(self, e, st, args, i):
        x = self.get(st)
        self.res.n['refills'] += 1
        p = args[0]
        if p[0] != 'p' or p[2][0] != 'i' or p[1][0] not in 'ga':
            raise AnalysisError('unknown receive buffer')
        size = self.m.globals[p[1][1]].d['size'] if p[1][0] == 'g' else None
        lo, hi = st.rng(args[1])
        if lo < 1 or size is not None and hi > size - p[2][1]:
            e.report('buffer', i, 'more than the buffer has is received', st)
            return 'stop'
        if x.queue:
            e.report('late', i, 'more data is awaited although a frame is complete', st)
            return 'stop'
        if x.closed:
            e.report('closed', i, 'receives again although the connection was lost', st)
            return 'stop'
        off = p[2][1]
        self.bufs[p[1]] = True
        s2 = st.copy()
        y = x.copy()
        y.leave('hunt')
        y.closed = True
        self.put(s2, y)
        e.note(s2, '%s: connection lost' % e.mod.locstr(i))
        out = [(s2, ZERO)]
        st.kill(p[1], off, 1 << 30)
        self.forget(st, x)
        for n in self.sizes:
            if n > hi or n > 8 and len(self.sizes) > 1 and (x.big or x.esc):
                continue
            for s2, y, vals in self.pieces(st, x, n):
                for k, v in enumerate(vals):
                    s2.write(p[1], off + k, 1, v)
                self.put(s2, y)
                e.note(s2, '%s: received %s' % (e.mod.locstr(i), ' '.join(map(self.show, vals))))
                out.append((s2, ('i', n)))
        return out

    def show(self, v):
        return 'SYNC' if v == SYNC else hex(v[1]) if v[0] == 'i' else 'x'

    def known(self, st, val):
        return not (st.rng(val) == (-128, 127) and rules.SYNC not in st.excl(val))

    def forget(self, st, x):
        """remains of frames which were dropped, counters"""
        for g in self.count:
            st.kill(('g', g))
        R, D = [('d', a[1]) for a in x.args]
        st.kill(R, self.raw[0] + 2 + len(x.raw), self.raw[0] + self.raw[1])
        st.kill(D, self.f['payload'][0] + max(len(x.data) - HEADER, 0), self.f['payload'][0] + self.f['payload'][1])
        for o in [o for o in st.mem if o[0] == 'a' and any(z == 1 and k for k, (z, v) in st.mem[o].items())]:
            st.mem[o] = {k: (z, v) for k, (z, v) in st.mem[o].items() if z != 1 or v in x.data}
        for k in range(len(x.raw)):
            if st.peek(R, self.raw[0] + 2 + k, 1) != x.raw[k]:
                st.kill(R, self.raw[0] + 2 + k, self.raw[0] + 3 + k)
        for k, v in enumerate(x.data[HEADER:]):
            if st.peek(D, self.f['payload'][0] + k, 1) != v:
                st.kill(D, self.f['payload'][0] + k, self.f['payload'][0] + k + 1)
        if len(x.data) < HEADER:
            for k in ('mlat', 'siglevel'):
                st.kill(D, self.f[k][0], sum(self.f[k][:2]))
        if x.ph != 'frame':
            for k in ('frameType', 'payloadLen'):
                st.kill(D, self.f[k][0], sum(self.f[k][:2]))
            st.kill(R, self.raw[0] + 1, self.raw[0] + 2)
            st.kill(R, self.rawlen[0], sum(self.rawlen[:2]))

    def call(self, e, st, name, args, i):
        if name == self.READ:
            return self.refill(e, st, args, i)
        if name == 'memchr' and args[0][0] == 'p' and args[0][1] in self.bufs:
            n, off, c = args[2], args[0][2], args[1]
            if n[0] != 'i' or off[0] != 'i' or c[0] != 'i':
                raise AnalysisError('unknown position of search')
            self.res.n['searches'] += 1
            for k in range(off[1], off[1] + n[1]):
                v = st.peek(args[0][1], k, 1)
                if v is None:
                    e.report('beyond', i, 'bytes are searched which were not received', st)
                    return 'stop'
                t = e.cmp(st, 'eq', v, ('i', eng.norm(c[1], 8)), 8)
                if t is None:
                    raise AnalysisError('unknown byte searched')
                if t:
                    return [(st, ('p', args[0][1], ('i', k)))]
            return [(st, ZERO)]

    def loaded(self, e, st, obj, off, size, val, i):
        if obj not in self.bufs:
            return
        self.res.n['bytes'] += 1
        if size == 1 and off[0] == 'i' and not self.known(st, val) or off[0] != 'i':
            e.report('beyond', i, 'a byte is used which was not received', st)

    # --- results
    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        x = self.get(st)
        t = e.truth(st, v)
        self.res.n['exits'] += 1
        if t is None:
            raise AnalysisError('result unknown')
        if not t:
            if not x.closed:
                e.report('failure', i, 'failure is returned although the connection was not lost', st)
            return
        if not x.queue:
            e.report('early', i, 'success is returned without a complete frame', st)
            return
        self.res.n['frames'] += 1
        self.result(e, st, x, v, i)
        x.queue = x.queue[1:]
        st = st.copy()
        self.put(st, x)
        self.exits.append(st)

    def result(self, e, st, x, v, i):
        typ, raw, data = x.queue[0]
        R, D = [a[1] for a in x.args]
        R, D = ('d', R), ('d', D)

        def same(o, off, want):
            v = st.peek(o, off, 1)
            return v is not None and (v == want or e.cmp(st, 'eq', v, want, 8) is True)
        if not all(same(R, self.raw[0] + k, v) for k, v in enumerate((SYNC, ('i', typ)) + raw)):
            e.report('raw', i, 'the bytes of the raw frame are not those received', st)
        ln = st.peek(R, self.rawlen[0], 8)
        if ln is None or st.rng(ln) != (2 + len(raw),) * 2:
            e.report('rawlen', i, 'the length of the raw frame is not the number of its bytes', st)
        ft = st.peek(D, *self.f['frameType'][:2])
        if ft is None or st.rng(ft) != (typ, typ):
            e.report('type', i, 'the frame does not have the type received', st)
        pl = st.peek(D, *self.f['payloadLen'][:2])
        if pl is None or st.rng(pl) != (LEN[typ],) * 2:
            e.report('length', i, 'the length of the payload is not that of the type received', st)
        ml = st.peek(D, *self.f['mlat'][:2])
        b = st.bytesof(ml, 8) if ml is not None else None
        if not b or any(p is None or not (p == q or e.cmp(st, 'eq', p, q, 8) is True) for p, q in zip(b, data[5::-1] + (ZERO, ZERO))):
            e.report('timestamp', i, 'the timestamp is not the first six bytes of the header', st)
        if not same(D, self.f['siglevel'][0], data[6]):
            e.report('level', i, 'the signal level is not the last byte of the header', st)
        if not all(same(D, self.f['payload'][0] + k, v) for k, v in enumerate(data[HEADER:])):
            e.report('payload', i, 'the payload is not the one received', st)


class Connect(eng.Monitor):
    """mon c: connected"""
    key = 'c'
    init = (False,)
    PFX = 'RC_INPUT'

    def __init__(self, res):
        self.res = res
        self.exits = []

    def call(self, e, st, name, args, i):
        if name == self.PFX + '_connect':
            self.res.n['connects'] += 1
            st.mon['c'] = (True,)
            return [(st, None)]
        if name == self.PFX + '_write':
            r = st.fresh((0, eng.PMAX))
            return [(st, r)]
        if name == self.PFX + '_read':
            e.report('connect', i, 'received data is consumed while connecting', st)
            return 'stop'

    def exit(self, e, st, kind, v, i):
        if kind == 'return':
            if not st.mon['c'][0]:
                e.report('connect', i, 'not connected', st)
            self.exits.append(st.copy())


def explore(m, res, mon, c, f, connect, newargs):
    """getting frames by f from all states reachable after connecting"""
    fns = rules.reach(m, [f.name])
    if not any(x.split('@')[0] == mon.READ for x in fns):
        raise AnalysisError('%s does not receive' % f.dname)
    local = lambda g: False
    e = eng.Engine(m, [c], cancel=False, shared=local)
    e.run(connect)
    res.take(e)
    if not c.exits:
        raise AnalysisError('%s never returns' % connect.dname)
    count = mon.count = rules.counters(m, [m.functions[x] for x in fns if x in m.functions])
    e = eng.Engine(m, [mon], K=100000, cancel=False, shared=local, max_steps=20000000)
    e.stop_first = True
    used = {g for g in m.globals if rules.users(m, {g}) & fns}
    todo = c.exits
    done = set()
    while todo and not e.violations:
        s = todo.pop()
        st = e.initial_state()
        st.con = dict(s.con)
        st.next = s.next
        for o, cells in s.mem.items():
            if o[0] == 'g' and o[1] in used - count and not m.globals[o[1]].constant:
                st.mem[o] = dict(cells)
        args = newargs(st)
        mon.start(st, tuple(args), s.mon.get('s'))
        t = st.copy()
        k = e.canon(t)
        if k in done:
            continue
        done.add(k)
        mon.exits = []
        e.run(f, args, st, more=True)
        todo += mon.exits
    res.n['starts'] += len(done)
    res.take(e)


class C13(Check):
    id = 'C13'
    title = 'Frames delivered by the Radarcape parser are exactly those received'
    rule = ('Value analysis of connecting and extracting frames against a stream automaton: the bytes received are symbolic, split into the classes the format distinguishes '
            '(SYNC, types, others) and followed through buffer, raw and decoded frame; each frame delivered must consist of the bytes of the next frame of the automaton. All '
            'states reachable over any number of frames are enumerated, for pieces of the sizes of the job; at most two escapes per frame.')
    quick = ['rc']
    thorough = ['rc', 'rcnet', 'rcdummy']
    minimum = {'refills': 3, 'frames': 4, 'connects': 1, 'starts': 4}
    assumptions = ['reading yields the next bytes of the stream, or 0 if and only if the connection was lost',
                   'frames are fetched by a single thread']

    def jobs(self, tier):
        return [(p,) + x for p in self.products(tier) for x in (THOROUGH if tier == 'thorough' else QUICK)]

    def run(self, job, res):
        m = ir.load(job[0])
        explore(m, res, Stream(res, m, *job[1:]), Connect(res), rules.api(m, 'INPUT_getFrame'), rules.api(m, 'INPUT_connect'),
                lambda st: [st.fresh((1, eng.PMAX)), st.fresh((1, eng.PMAX))])


CHECK = C13()
