"""Every access stays inside the object it is made in."""
import os
from . import eng, rules

# external functions: (pointer argument, size argument, access)
ARGS = {
    'memchr': [(0, 2, 'load')], 'strncpy': [(0, 2, 'store')], 'snprintf': [(0, 1, 'store')], 'vsnprintf': [(0, 1, 'store')],
    'send': [(1, 2, 'load')], 'write': [(1, 2, 'load')], '__xpg_strerror_r': [(1, 2, 'store')], 'strerror_r': [(1, 2, 'store')],
    'inet_ntop': [(2, 3, 'store')], 'ctime_r': [(1, 26, 'store')], 'getpwnam_r': [(2, 3, 'store')], 'getgrnam_r': [(2, 3, 'store')],
    'memcmp': [(0, 2, 'load'), (1, 2, 'load')],
}


DEBUG = os.environ.get('VP_DEBUG')


def eng_syms(v):
    s = set()
    eng.syms(v, s)
    return s


class Bounds(eng.Monitor):
    key = 'b'

    def __init__(self, res, sizes=None, before=True, m=None):
        self.res = res
        self.before = before
        self.opt = None
        if m is not None:
            self.opt = m.field('CFG_Option', 'var')[0], m.field('CFG_Option', 'maxlen')[0], m.field('CFG_Option', 'type')[0], \
                m.enumval('CFG_VALUE_TYPE_STRING')
        self.asize = {}
        self.sizes = sizes or {}

    def size(self, e, st, obj):
        k = obj[0]
        if k == 'g':
            g = e.mod.globals.get(obj[1])
            return None if g is None or g.decl and not g.d['size'] else ('i', g.d['size'])
        if k == 'a':
            if obj[1] >= len(st.frames):
                return None
            f = st.frames[obj[1]].fn
            t = self.asize.get(f.name)
            if t is None:
                t = self.asize[f.name] = {i.id: i.d['size'] for i in f.instrs() if i.op == 'alloca'}
            n = t.get(obj[2])
            return ('i', n) if n else None
        if k == 'h':
            c = st.mem.get(obj, {}).get(eng.HSIZE)
            return c[1] if c else None
        if k == 'd' and self.opt:
            # variable of a string option: its size is part of the option
            var, mx, ty, string = self.opt
            for o, c in list(st.mem.items()):
                if o[0] not in 'dg':
                    continue
                for a, (z, v) in c.items():
                    if v == ('s', obj[1], 0) and isinstance(a, int):
                        t = st.peek(o, a - var + ty, 4)
                        if t is not None and st.rng(t) == (string, string):
                            n = e.rd(st, o, ('i', a - var + mx), 8, 'i64')
                            self.res.n['options'] += 1
                            if n[0] == 's' and not st.setcon(n, 1, 1 << 20):
                                return None
                            return n
        return None

    def check(self, e, st, obj, off, n, what, i):
        if n == 0 or n == eng.ZERO:
            return
        s = self.size(e, st, obj)
        if s is None:
            self.res.n['unknown_object'] += 1
            return
        n = ('i', n) if isinstance(n, int) else n
        self.res.n['accesses'] += 1
        lo = st.rng(off)[0]
        end = e.binop(st, 'add', off, n, 64)
        if (lo >= 0 or not self.before) and st.diff(end, s)[1] <= 0:
            return
        # nothing is accessed if the size is 0
        if st.rng(n) == (0, 0):
            return
        if DEBUG:
            print('DBG', e.mod.locstr(i), eng.shape(off) if 0 else off, st.rng(off), 'n', n, st.rng(n), 'end', end, 'size', s, st.diff(end, s), {k: v for k, v in st.con.items() if any(x in eng_syms(k) for x in eng_syms(end))})
        w = {'load': 'read', 'store': 'written'}[what]
        if lo < 0 and st.diff(end, s)[1] <= 0:
            e.report('bounds', i, 'memory before %s may be %s' % (self.name(e, st, obj), w), st)
        else:
            e.report('bounds', i, 'memory behind %s may be %s' % (self.name(e, st, obj), w), st)

    def name(self, e, st, obj):
        if obj[0] == 'g':
            return rules.gname(e.mod, obj)
        if obj[0] == 'a':
            for i in st.frames[obj[1]].fn.instrs():
                if i.op == 'alloca' and i.id == obj[2]:
                    return i.d.get('name') or 'a local object'
        return 'an allocated object' if obj[0] == 'h' else 'an object'

    def loaded(self, e, st, obj, off, size, val, i):
        # string variables have at least one octet (consistency of the tables)
        if self.opt and size == 8 and off[0] == 'i' and val[0] in 's':
            var, mx, ty, string = self.opt
            t = st.peek(obj, off[1] - mx + ty, 4)
            if t is not None and st.rng(t) == (string, string):
                st.setcon(val, 1, 1 << 20)

    def load(self, e, st, obj, off, size, i):
        self.check(e, st, obj, off, size, 'load', i)

    def store(self, e, st, obj, off, size, val, i):
        self.res.n['stores'] += 1
        self.check(e, st, obj, off, size, 'store', i)

    def call(self, e, st, name, args, i):
        if name == 'recv':
            self.res.n['receives'] += 1
        for p, n, what in ARGS.get(name, ()):
            if p >= len(args):
                continue
            n = args[n] if n < len(args) else ('i', n)
            a = args[p]
            if a[0] == 'p':
                self.check(e, st, a[1], a[2], n, what, i)
            elif a[0] == 's':
                self.check(e, st, ('d', a[1]), ('i', a[2]), n, what, i)


def exact(limit):
    """partition: small numbers known exactly, offsets of pointers into known objects, sign of results"""
    def f(e, st):
        out = []
        for n, f in enumerate(st.frames):
            for r, v in f.regs.items():
                if v[0] == 'i' and 0 <= v[1] <= limit:
                    out.append((n, r, v[1]))
                elif v[0] == 'p' and v[2][0] == 'i' and 0 <= v[2][1] <= limit and v[1][0] != 'g':
                    out.append((n, r, v[2][1]))
                elif v[0] == 's' and 0 < v[2] <= limit and n:
                    out.append((n, r, v[2]))
        return tuple(out) + (signs(e, st),)
    return f


def signs(e, st):
    """partition: sign of a number just about to be returned (0, > 0, < 0 or unknown)"""
    f = st.frames[-1]
    t = f.fn.blocks[f.blk][-1]
    if t.op == 'ret' and t.ops:
        v = e.opval(st, f.regs, t.ops[0]) if t.ops[0][0] != 'i' else None
        if v and v[0] in 'ist':
            lo, hi = st.rng(v)
            return '0' if lo == hi == 0 else '+' if lo > 0 else '-' if hi < 0 else '*'
    return ''



def m_mmap(e, st, dn, args, i):
    """a mapped file: an object of the size mapped, or failure"""
    s2 = st.copy()
    e.note(st, '%s %s fails' % (e.mod.locstr(i), dn))
    n = s2.next
    s2.next += 1
    s2.con[('s', n, 0)] = (1, eng.PMAX, ())
    s2.mem[('h', n)] = {eng.HSIZE: (0, args[1])}
    if args[1][0] in 'st':
        s2.setcon(args[1], 1, 1 << 47)
    return [(st, ('i', -1)), (s2, ('p', ('h', n), eng.ZERO))]
