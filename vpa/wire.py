"""Building blocks of the wire format: the encoder, and messages assembled with it."""
from . import eng, rules
from .ir import AnalysisError

OBJSIZE = {}


class Encoder(eng.Monitor):
    """BEAST_encode(out, in, len): what is written is exactly the input with each SYNC doubled.
    mon: (written, cursor, half, (a, b, found), loaded)
      written: number of bytes in the output; cursor: number of input bytes they stand for
      half: the last byte of them is a SYNC (or the value given may be) which was written once only
      (a, b, found): no SYNC in input[a..b); input[b] is SYNC if found, else unknown or the end
      loaded: (offset, value) of single input bytes"""
    key = 'e'
    loose = True
    init = (eng.ZERO, eng.ZERO, (), (), ())

    def __init__(self, res, out, inp, n):
        self.res = res
        self.out, self.inp, self.n = out, inp, n

    # arguments are kept in the monitor state, they are renamed along with everything else
    def start(self, st, args):
        st.mon['e'] = self.init + (args,)

    def src(self, st, p):
        return self.offin(st, p, 1)

    def dst(self, st, p):
        return self.offin(st, p, 0)

    def offin(self, st, p, k):
        base = st.mon['e'][5][k]
        o = ('d', base[1])
        if p[0] == 's' and p[1] == base[1]:
            return ('i', p[2])
        if p[0] == 'p' and p[1] == o:
            return p[2]
        return None

    def settle(self, e, st, i):
        """is a byte which was written once a SYNC?"""
        w, c, h, f, l, a = st.mon['e']
        if h and h[0] == 'maybe':
            t = e.cmp(st, 'eq', h[1], ('i', rules.SYNC), 8)
            if t is None:
                e.report('escape', i, 'a byte is copied without looking whether it is to be escaped', st)
                h = ()
            else:
                h = ('yes',) if t else ()
            st.mon['e'] = (w, c, h, f, l, a)
        return st.mon['e']

    def call(self, e, st, name, args, i):
        if name == 'memchr':
            s = self.src(st, args[0])
            if s is None or args[1] != ('i', rules.SYNC):
                return
            self.res.n['searches'] += 1
            w, c, h, f, l, a = st.mon['e']
            s2 = st.copy()
            st.mon['e'] = (w, c, h, (s, e.binop(st, 'add', s, args[2], 64), 'end'), l, a)
            k = s2.fresh((0, eng.PMAX))
            s2.mon['e'] = (w, c, h, (s, k, 'found'), l, a)
            return [(st, eng.ZERO), (s2, eng.padd(a[1], k))]
        if name in ('memcpy', 'memmove') or name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d = self.dst(st, args[0])
            if d is None:
                return
            self.copy(e, st, d, self.src(st, args[1]), args[2], i)
            return [(st, args[0] if i.ty != 'void' else None)]

    def eq(self, e, st, a, b):
        return eng.leq(a, b) or e.cmp(st, 'eq', a, b, 64) is True

    def copy(self, e, st, d, s, n, i):
        self.res.n['writes'] += 1
        w, c, h, f, l, a = self.settle(e, st, i)
        if not self.eq(e, st, d, w):
            return e.report('output', i, 'the output is not contiguous', st)
        if s is None:
            return e.report('output', i, 'something else than the input is copied', st)
        end = e.binop(st, 'add', s, n, 64)
        first = eng.addk(c, -1) if h else c
        if not self.eq(e, st, s, first):
            return e.report('escape', i, 'a SYNC is not doubled' if h and self.eq(e, st, s, c) else 'input is skipped or repeated', st)
        if not f or not self.eq(e, st, f[0], c):
            return e.report('escape', i, 'input which was not searched for SYNC is copied', st)
        if self.eq(e, st, end, f[1]):
            nh = ()
        elif f[2] == 'found' and self.eq(e, st, end, eng.addk(f[1], 1)):
            nh = ('yes',)
        else:
            return e.report('escape', i, 'input which may contain a SYNC is copied', st)
        st.mon['e'] = (e.binop(st, 'add', w, n, 64), end, nh, f, l, a)

    def loaded(self, e, st, obj, off, size, val, i):
        a = st.mon['e'][5]
        if obj == ('d', a[1][1]) and size == 1:
            w, c, h, f, l, a = st.mon['e']
            if h and h[0] == 'maybe' and e.cmp(st, 'eq', h[1], ('i', rules.SYNC), 8) is not None:
                w, c, h, f, l, a = self.settle(e, st, i)
            for o, v in l:      # the input does not change
                if eng.leq(o, off):
                    return v
            st.mon['e'] = (w, c, h, f, ((off, val),) + l[:1], a)

    def store(self, e, st, obj, off, size, val, i):
        a = st.mon['e'][5]
        if obj != ('d', a[0][1]):
            return
        self.res.n['writes'] += 1
        w, c, h, f, l, a = self.settle(e, st, i)
        if size != 1 or not self.eq(e, st, off, w):
            return e.report('output', i, 'the output is not contiguous', st)
        w = eng.addk(w, 1)
        if h:
            if val is not None and e.cmp(st, 'eq', val, ('i', rules.SYNC), 8):
                st.mon['e'] = (w, c, (), f, l, a)
            else:
                e.report('escape', i, 'a SYNC is not doubled', st)
            return
        for o, v in l:
            if v == val and self.eq(e, st, o, c):
                st.mon['e'] = (w, eng.addk(c, 1), ('maybe', val), f, l, a)
                return
        e.report('output', i, 'something else than the next input byte is written', st)

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        w, c, h, f, l, a = self.settle(e, st, i)
        self.res.n['encoder_exits'] += 1
        if h:
            e.report('escape', i, 'the last SYNC is not doubled', st)
        if not self.eq(e, st, c, a[2]):
            e.report('output', i, 'not all of the input is encoded', st)
        if not self.eq(e, st, v, w):
            e.report('output', i, 'the length returned is not the number of bytes written', st)


def check_encoder(m, res):
    f = rules.api(m, 'BEAST_encode')
    mon = Encoder(res, 0, 1, 2)
    e = eng.Engine(m, [mon], K=2, relational=True)
    st = e.initial_state()
    args = [st.fresh((1, eng.PMAX)), st.fresh((1, eng.PMAX)), st.fresh((0, eng.PMAX))]
    mon.start(st, tuple(args))
    e.run(f, args, st)
    res.take(e)


# number of payload bytes before escaping
PAYLOAD = {'mode-ac': 9, 'mode-s short': 14, 'mode-s long': 21, 'status': 21, 'serial': 4, 'keep-alive': 0, 'position': 24, 'device id': 16,
           'serial request': 0, 'user': 40}
NAMES = {v: k for k, v in rules.TYPE.items()}


class Msg(eng.Monitor):
    """messages put together with BEAST_encode; mon: ((out, length, encoded length, (cell of the input, ...)), ...)"""
    key = 'w'

    def __init__(self, res, m):
        self.res = res
        self.size = m.structs['OPENSKY_RawFrame']['size']
        self.raw = m.field('OPENSKY_RawFrame', 'raw')
        self.len = m.field('OPENSKY_RawFrame', 'rawLen')
        self.frames = None

    def objsize(self, e, st, obj):
        """(size, what) of the memory an address points into"""
        if obj[0] == 'g':
            return e.mod.globals[obj[1]].d['size']
        if obj[0] == 'a':
            f = st.frames[obj[1]].fn
            for i in f.instrs():
                if i.op == 'alloca' and i.id == obj[2]:
                    return i.d['size']
        if obj[0] in 'dh' and ('s', obj[1], 0) in self.framesof(st):
            return self.raw[0] + self.raw[1]
        return None

    def framesof(self, st):
        return st.mon.get('w2', ())

    def encode(self, e, st, args, i):
        """BEAST_encode(out, in, len)"""
        self.res.n['encodings'] += 1
        out, inp, n = args
        lo, hi = st.rng(n)
        s = e.addr(st, inp, i, 'load')
        cells = ()
        if isinstance(s, tuple):
            sz = self.objsize(e, st, s[0])
            if sz is not None and (st.rng(s[1])[1] + hi > sz or st.rng(s[1])[0] < 0):
                e.report('capacity', i, 'more is encoded than there is', st)
            if s[1][0] == 'i':
                cells = tuple((k - s[1][1], z, v) for k, (z, v) in sorted(st.mem.get(s[0], {}).items(), key=str)
                              if isinstance(k, int) and s[1][1] <= k < s[1][1] + hi)
                cells = tuple(sorted(cells, key=lambda c: c[0]))
        mx = 2 * hi - sum(1 for k, z, v in cells if z == 1 and k < lo and e.cmp(st, 'eq', v, ('i', rules.SYNC), 8) is False)
        mx -= sum(min(z, lo - k) for k, z, v in cells if v == ('z',) and k < lo)
        o = e.addr(st, out, i, 'store')
        if isinstance(o, tuple):
            sz = self.objsize(e, st, o[0])
            end = st.rng(o[1])[1] + mx
            if sz is not None:
                self.res.n['capacities'] += 1
                if end > sz or st.rng(o[1])[0] < 0:
                    e.report('capacity', i, 'the encoded data may not fit: up to %s bytes in a buffer of %d' % (end if end < 1 << 32 else 'unbounded', sz), st)
            if o[1][0] == 'i' and hi < 4096:
                st.kill(o[0], o[1][1], o[1][1] + mx)
            else:
                st.kill(o[0], max(st.rng(o[1])[0], 0), 1 << 60)
        r = st.fresh((lo if lo > 0 else 0, 2 * hi if 2 * hi < eng.PMAX else eng.PMAX))
        st.mon['w'] = (st.mon['w'] + ((out, n, r, cells, inp),))[-6:]
        return [(st, r)]

    def byte(self, e, st, p, k):
        a = eng.addk(p, k)
        if a[0] == 'p' and a[2][0] == 'i':
            return e.rd(st, a[1], a[2], 1, 'i8')
        if a[0] == 's':
            return e.rd(st, ('d', a[1]), ('i', a[2]), 1, 'i8')
        return None

    def message(self, e, st, p, n, i):
        """check the n bytes at p; returns (type name, parts) or None"""
        b0, b1 = self.byte(e, st, p, 0), self.byte(e, st, p, 1)
        if b0 is None or e.cmp(st, 'eq', b0, ('i', rules.SYNC), 8) is not True:
            e.report('framing', i, 'a message does not start with a SYNC', st)
            return None
        lo, hi = st.rng(b1)
        ts = [t for t in NAMES if lo <= t <= hi and t not in st.excl(b1)]
        if not ts or hi - lo + 1 - len([x for x in st.excl(b1) if lo < x < hi]) > len(ts):
            e.report('framing', i, 'the message type is none of the protocol', st)
            return None
        parts, pos, total = [], eng.addk(p, 2), eng.ZERO
        have = list(st.mon['w'])
        sz = 2
        lp = 0
        while True:
            nx = [x for x in have if eng.leq(x[0], pos)]
            if not nx:
                break
            # the latest one at this place counts
            x = nx[-1]
            have = [y for y in have if y is not x and not eng.leq(y[0], x[0])]
            parts.append(x)
            pos = eng.padd(pos, x[2])
            total = e.binop(st, 'add', total, x[2], 64)
            lp += 1
        want = eng.addk(total, 2)
        if not eng.leq(want, n) and e.cmp(st, 'eq', want, n, 64) is not True:
            e.report('framing', i, 'the length of a message is not that of its header and its encoded parts', st)
            return None
        pl = [st.rng(x[1]) for x in parts]
        pl = (sum(x[0] for x in pl), sum(x[1] for x in pl))
        for t in ts:
            w = PAYLOAD[NAMES[t]]
            if not pl[0] <= w <= pl[1] or pl[0] != pl[1] and len(ts) == 1:
                e.report('payload', i, 'a %s message has %d bytes of payload instead of %d' % (NAMES[t], pl[1], w), st)
                return None
        self.res.n['messages'] += 1
        return tuple(NAMES[t] for t in ts), parts


def payload(parts):
    """cells of the payload before escaping, if the lengths are constant"""
    out, pos = [], 0
    for o, n, r, cells, inp in parts:
        if n[0] != 'i':
            return None
        out += [(pos + c[0], c[1], c[2]) for c in cells]
        pos += n[1]
    return out


def octets(st, parts):
    """payload before escaping as bytes (None: unknown)"""
    cells = payload(parts)
    if cells is None:
        return None
    out = [None] * sum(p[1][1] for p in parts)
    for off, size, v in cells:
        for k in range(size):
            if 0 <= off + k < len(out):
                out[off + k] = ('i', 0) if v == ('z',) else st.byte(v, k)
    return out


def be(st, o, off, n):
    """big-endian number of n bytes in the payload, None if unknown"""
    b = o[off:off + n] if o else []
    if len(b) < n or None in b:
        return None
    return st.cat(b[::-1], 8 * n)
