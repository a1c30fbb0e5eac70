"""Disjunctive abstract interpreter over the LLVM IR of one product.

Property simulation in the style of ESP: every path of a root function is
followed through the whole program (callees are analysed in the calling context,
so extracting or inlining a helper changes nothing), with an abstract store,
intervals, equalities and null-ness kept per monitor state.  At a join point, at
most K states per monitor state are kept apart; beyond that they are merged by
anti-unification with interval widening, so every loop reaches a fixpoint and
every path is covered, not a bounded number of them.

Values
  ('i', c)            integer constant (also null); i1/i8/i16 unsigned, i32/i64 signed
  ('s', n, k)         unknown number n of this state, plus k
  ('p', obj, off)     address: obj plus off (a value)
  ('f', name)         function
  ('c', pred, a, b, w) unevaluated comparison
  ('t', op, ...)      unevaluated operation
Objects
  ('g', name)  ('a', depth, id)  ('h', n) heap  ('d', n) what unknown pointer n points to
"""
import functools
from .ir import AnalysisError, TERM

PMAX = 1 << 47
HSIZE = -(1 << 60)     # pseudo cell of a heap object: its size
I63 = 1 << 63
FULL = (-I63, I63 - 1)
RANGES = {1: (0, 1), 8: (0, 255), 16: (0, 65535), 32: (-(1 << 31), (1 << 31) - 1), 64: FULL}
INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
ZERO = ('i', 0)
ONE = ('i', 1)


def tyrange(ty):
    if ty.startswith('i') and ty[1:].isdigit():
        return RANGES.get(int(ty[1:]), FULL)
    return FULL


def norm(c, w):
    if w >= 64:
        w = 64
    c &= (1 << w) - 1
    if w >= 32 and c >> (w - 1):
        c -= 1 << w
    return c


def sgn(c, w):
    if w < 32 and c >= 1 << (w - 1):
        return c - (1 << w)
    return c


def uns(c, w):
    return c & ((1 << min(w, 64)) - 1)


def syms(v, out):
    k = v[0]
    if k == 's':
        out.add(v[1])
    elif k == 'p':
        if v[1][0] in 'hd':
            out.add(v[1][1])
        if v[2][0] != 'i':
            syms(v[2], out)
    elif k == 'c':
        syms(v[2], out)
        syms(v[3], out)
    elif k == 't':
        for x in v[2:]:
            if isinstance(x, tuple):
                syms(x, out)
    elif k not in 'if':
        for x in v:
            if isinstance(x, tuple) and x:
                syms(x, out)


def vdepth(v):
    if v[0] == 't':
        return 1 + max([vdepth(x) for x in v[2:] if isinstance(x, tuple)] or [0])
    if v[0] == 'c':
        return 1 + max(vdepth(v[2]), vdepth(v[3]))
    if v[0] == 'p':
        return vdepth(v[2])
    return 0


def rename(v, m):
    """m: dict or callable sym -> sym (int) or value tuple"""
    k = v[0] if v else None
    if k == 'i' or k == 'f':
        return v
    if k == 's':
        n = m(v[1])
        if isinstance(n, tuple):
            return addk(n, v[2])
        return ('s', n, v[2])
    if k == 'p':
        o = v[1]
        off = v[2] if v[2][0] == 'i' else rename(v[2], m)
        if o[0] in 'hd':
            n = m(o[1])
            if isinstance(n, tuple):
                return addk(n, off[1]) if off[0] == 'i' else padd(n, off)
            o = (o[0], n)
        return mkp(o, off)
    if k == 'c':
        return ('c', v[1], rename(v[2], m), rename(v[3], m), v[4])
    if k == 't':
        r = ('t', v[1]) + tuple(rename(x, m) if isinstance(x, tuple) else x for x in v[2:])
        if r[-1] == 64 and (v[1] == 'add' or v[1] == 'sub'):
            return mkadd(*lin(r))
        return r
    if v is None:
        return v
    # generic structure of a monitor
    return tuple(rename(x, m) if isinstance(x, tuple) and x else x for x in v)


def mkp(o, off):
    if o[0] == 'd' and off[0] == 'i':
        return ('s', o[1], off[1])
    return ('p', o, off)


def addk(v, k):
    """value plus constant (64 bit)"""
    if k == 0:
        return v
    if v[0] == 'i':
        return ('i', norm(v[1] + k, 64))
    if v[0] == 's':
        return ('s', v[1], v[2] + k)
    if v[0] == 'p':
        return mkp(v[1], addk(v[2], k))
    if v[0] == 't' and v[1] == 'add' and v[-1] == 64 and v[3][0] == 'i':
        k = norm(k + v[3][1], 64)
        return ('t', 'add', v[2], ('i', k), 64) if k else v[2]
    return ('t', 'add', v, ('i', k), 64)


def padd(v, off):
    """pointer plus offset value"""
    if off[0] == 'i':
        return addk(v, off[1])
    if v[0] == 'p':
        return mkp(v[1], vadd(v[2], off))
    if v[0] == 's':
        return mkp(('d', v[1]), vadd(('i', v[2]), off))
    return ('t', 'add', v, off, 64)


def vadd(a, b):
    if a[0] == 'i':
        return addk(b, a[1])
    if b[0] == 'i':
        return addk(a, b[1])
    return mkadd(*lin(('t', 'add', a, b, 64)))


def lin(v):
    """linear normal form: ({atom: coefficient}, constant)"""
    k = v[0]
    if k == 'i':
        return {}, v[1]
    if k == 's':
        return {('s', v[1], 0): 1}, v[2]
    if k == 't' and v[1] in ('add', 'sub') and len(v) == 5:
        a, ca = lin(v[2])
        b, cb = lin(v[3])
        f = 1 if v[1] == 'add' else -1
        a = dict(a)
        for x, c in b.items():
            a[x] = a.get(x, 0) + f * c
            if not a[x]:
                del a[x]
        return a, ca + f * cb
    if k == 't' and v[1] == 'mul' and v[3][0] == 'i':
        a, c = lin(v[2])
        return {x: y * v[3][1] for x, y in a.items()}, c * v[3][1]
    if k == 'p':
        a, c = lin(v[2])
        a = dict(a)
        a[('p', v[1], ZERO)] = 1
        return a, c
    return {v: 1}, 0


def mkadd(atoms, k):
    """canonical term of a linear form"""
    r = None
    for x in sorted((x for x, c in atoms.items() if c > 0), key=str) + sorted((x for x, c in atoms.items() if c < 0), key=str):
        c = atoms[x]
        y = x if abs(c) == 1 else ('t', 'mul', x, ('i', abs(c)), 64)
        if c > 0:
            r = y if r is None else ('t', 'add', r, y, 64)
        else:
            r = ('t', 'sub', r if r is not None else ('i', norm(k, 64)), y, 64)
            if r[2][0] == 'i':
                k = 0
    if r is None:
        return ('i', norm(k, 64))
    return addk(r, k) if k else r


@functools.lru_cache(1 << 16)
def negated(v):
    atoms, k = lin(v)
    return mkadd({x: -c for x, c in atoms.items()}, -k)


def leq(a, b):
    """equal as linear terms"""
    return a == b or lin(a) == lin(b)


def shifted(v):
    """the least significant byte is zero"""
    return v[0] == 't' and (v[1] == 'mul' and v[3][0] == 'i' and v[3][1] > 0 and v[3][1] & 255 == 0 or v[1] == 'cat' and v[2] == ZERO)


def UNEQ(a, b):
    """fact: two numbers differ"""
    if str(b) < str(a):
        a, b = b, a
    return ('t', 'ne', a, b, 64)


def bytejoin(x, y):
    out = []
    for a, b in zip(x, y):
        if a == ZERO:
            out.append(b)
        elif b == ZERO:
            out.append(a)
        elif a[0] == 'i' == b[0]:
            return None
        else:
            return None
    return out


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'idx', 'kind')

    def __init__(self, fn, regs, blk=0, idx=0, kind='call'):
        self.fn = fn
        self.regs = regs
        self.blk = blk
        self.idx = idx
        self.kind = kind    # 'call', 'root', 'pop' (cleanup run by pop), 'unwind'

    def copy(self):
        return Frame(self.fn, dict(self.regs), self.blk, self.idx, self.kind)


class State:
    __slots__ = ('frames', 'mem', 'con', 'locks', 'cancel', 'cstack', 'mon', 'unw', 'trace', 'next')
    relational = False

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.con = dict(self.con)
        s.locks = self.locks
        s.cancel = self.cancel
        s.cstack = self.cstack
        s.mon = dict(self.mon)
        s.unw = self.unw
        s.trace = self.trace
        s.next = self.next
        return s

    # --- symbols
    def fresh(self, rng=None, excl=None):
        n = self.next
        self.next += 1
        if rng and rng != FULL:
            self.con[('s', n, 0)] = (rng[0], rng[1], excl or ())
        elif excl:
            self.con[('s', n, 0)] = (FULL[0], FULL[1], excl)
        return ('s', n, 0)

    def rng(self, v):
        k = v[0]
        if k == 'i':
            return v[1], v[1]
        if k == 's':
            c = self.con.get(('s', v[1], 0))
            if c is None:
                return FULL
            if v[2] == 0:
                return c[0], c[1]
            lo = c[0] + v[2] if c[0] > FULL[0] else c[0]
            hi = c[1] + v[2] if c[1] < FULL[1] else c[1]
            return lo, hi
        if k == 'p' or k == 'f':
            return 1, PMAX
        if k == 'c':
            return 0, 1
        if k == 't':
            lo, hi = self.trng(v)
            c = self.con.get(v)
            if c:
                lo, hi = max(lo, c[0]), min(hi, c[1])
            if v[1] == 'sub' and v[-1] == 64:
                c = self.con.get(('t', 'sub', v[3], v[2], 64))
                if c is None and self.relational and (v[2][0] == 't' or v[3][0] == 't'):
                    c = self.con.get(negated(v))
                if c:
                    lo, hi = max(lo, -c[1]), min(hi, -c[0])
            return lo, hi
        return FULL

    # --- numbers as sequences of bytes
    def byte(self, v, k):
        """byte k (from the least significant) of a number; None if that cannot be told"""
        c = v[0]
        if c == 'i':
            return ('i', (v[1] >> (8 * k)) & 255)
        if c == 't':
            b = self.bytesof(v, k + 1)
            return b[k] if b else None
        return self.byteatom(v, k)

    def byteatom(self, v, k):
        if v[0] in 'pfc':
            return None
        lo, hi = self.rng(v)
        if lo >= 0 and hi < 1 << (8 * k):
            return ZERO
        if k == 0 and 0 <= lo and hi <= 255:
            return v
        return ('t', 'byte', v, k, 8)

    def bytesof(self, v, n):
        """the n least significant bytes of a number, or None"""
        c = v[0]
        if c == 'i':
            return [('i', (v[1] >> (8 * k)) & 255) for k in range(n)]
        if c in 'pfc':
            return None
        r = None
        if c == 't':
            o, w = v[1], v[-1]
            m = w // 8
            if o == 'cat':
                r = list(v[2:-1])
            elif o == 'byte':
                r = [v]
            elif o == 'zext':
                r = self.bytesof(v[2], max(v[3] // 8, 1))
                if r:
                    r += [ZERO] * n
            elif o == 'trunc' and w % 8 == 0:
                r = self.bytesof(v[2], m)
            elif w % 8 == 0 and len(v) == 5 and isinstance(v[3], tuple):
                k = v[3][1] if v[3][0] == 'i' else None
                if o == 'or' or o == 'xor' or o == 'add':
                    x = self.bytesof(v[2], m)
                    y = self.bytesof(v[3], m) if x else None
                    r = bytejoin(x, y) if y else None
                elif k is None:
                    pass
                elif o == 'and':
                    x = self.bytesof(v[2], m)
                    ms = [(k >> (8 * j)) & 255 for j in range(m)]
                    if x and all(b in (0, 255) or y == ZERO for b, y in zip(ms, x)):
                        r = [y if b else ZERO for b, y in zip(ms, x)]
                elif o == 'mul' and k > 1 and k & (k - 1) == 0 and (k.bit_length() - 1) % 8 == 0 or o == 'shl' and 0 < k < w and k % 8 == 0:
                    sh = (k.bit_length() - 1 if o == 'mul' else k) // 8
                    x = self.bytesof(v[2], m)
                    if x:
                        r = ([ZERO] * sh + x)[:m]
                elif (o == 'lshr' or o == 'ashr' and self.rng(v[2])[0] >= 0) and 0 < k < w and k % 8 == 0:
                    x = self.bytesof(v[2], m)
                    if x:
                        r = x[k // 8:] + [ZERO] * (k // 8)
            if r is not None and len(r) < n:
                if self.rng(v)[0] < 0:
                    r = None
                else:
                    r = r + [ZERO] * (n - len(r))
        if r is None:
            r = [self.byteatom(v, k) for k in range(n)]
            if None in r:
                return None
        return r[:n]

    def cat(self, b, w):
        """number of w bits with these bytes"""
        n = w // 8
        b = (b + [ZERO] * n)[:n]
        if all(x[0] == 'i' for x in b):
            return ('i', norm(sum(x[1] << (8 * k) for k, x in enumerate(b)), w))
        if all(x == ZERO for x in b[1:]):
            return b[0]
        x = b[0]
        if x[0] == 't' and x[1] == 'byte' and x[3] == 0:
            x = x[2]
            lo, hi = self.rng(x)
            f = RANGES.get(w, FULL)
            if f[0] <= lo and hi <= f[1] and all(y == self.byteatom(x, k) for k, y in enumerate(b)):
                return x
        # same number, same term
        k = max(j for j, y in enumerate(b) if y != ZERO) + 1
        if k == 2 or k == 3:
            n, w = 2 * (k - 1), 16 * (k - 1)
        elif k == 4 and w == 64 and self.rng(b[3])[1] < 128:
            n, w = 4, 32
        return ('t', 'cat') + tuple(b[:n]) + (w,)

    def trng(self, t):
        o = t[1]
        w = t[-1]
        if o == 'cat':
            n = max(k for k, x in enumerate(t[2:-1]) if x != ZERO)
            return RANGES.get(w, FULL) if n == w // 8 - 1 else (0, (1 << (8 * n + 8)) - 1)
        if o == 'byte':
            return 0, 255
        if o == 'at' or o == 'ne':
            return 0, 1
        full = RANGES.get(w, FULL)
        a = self.rng(t[2])
        b = self.rng(t[3]) if len(t) > 4 and isinstance(t[3], tuple) else None
        if o == 'add':
            r = (a[0] + b[0], a[1] + b[1])
        elif o == 'sub':
            r = (a[0] - b[1], a[1] - b[0])
        elif o == 'mul':
            p = [x * y for x in a for y in b]
            r = (min(p), max(p))
        elif o == 'and':
            if b[0] == b[1] and b[0] >= 0:
                r = (0, min(b[0], a[1]) if a[0] >= 0 else b[0])
            elif a[0] >= 0 and b[0] >= 0:
                r = (0, min(a[1], b[1]))
            else:
                r = full
        elif o == 'or' or o == 'xor':
            if a[0] >= 0 and b[0] >= 0:
                m = (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
                r = (max(a[0], b[0]) if o == 'or' else 0, m)
            else:
                r = full
        elif o == 'lshr':
            if b[0] == b[1] and 0 <= b[0] < w:
                if a[0] >= 0:
                    r = (a[0] >> b[0], a[1] >> b[0])
                else:
                    r = (0, ((1 << w) - 1) >> b[0])
            elif a[0] >= 0:
                r = (0, a[1])
            else:
                r = full
        elif o == 'ashr':
            if b[0] == b[1]:
                r = (a[0] >> b[0], a[1] >> b[0])
            else:
                r = full
        elif o == 'shl':
            if b[0] == b[1] and 0 <= b[0] < w and a[0] >= 0:
                r = (a[0] << b[0], a[1] << b[0])
            else:
                r = full
        elif o == 'udiv' or o == 'sdiv':
            if a[0] >= 0 and b[0] > 0:
                r = (a[0] // b[1], a[1] // b[0])
            else:
                r = (0, a[1]) if a[0] >= 0 and b[0] >= 0 else full
        elif o == 'urem':
            if b[0] > 0:
                r = (0, min(b[1] - 1, a[1]) if a[0] >= 0 else b[1] - 1)
            else:
                r = (0, a[1]) if a[0] >= 0 else full
        elif o == 'srem':
            if b[0] > 0 and a[0] >= 0:
                r = (0, min(b[1] - 1, a[1]))
            else:
                r = full
        elif o == 'zext':
            fw = t[3]
            a = self.rng(t[2])
            r = a if a[0] >= 0 else (0, (1 << fw) - 1)
            return r
        elif o == 'sext':
            fw = t[3]
            r = (-(1 << (fw - 1)), (1 << (fw - 1)) - 1)
            return r
        elif o == 'trunc':
            r = full
        else:
            r = full
        if r[0] < full[0] or r[1] > full[1]:
            return full
        return r

    def diff(self, a, b, deep=True):
        """bounds of a - b"""
        atoms, k = lin(('t', 'sub', a, b, 64))
        if not atoms:
            return k, k
        x = y = None
        lo = hi = k
        for t, c in atoms.items():
            if c == 1 and x is None:
                x = t
            elif c == -1 and y is None:
                y = t
            r = self.rng(t) if t[0] != 'p' else FULL
            lo += c * (r[0] if c > 0 else r[1])
            hi += c * (r[1] if c > 0 else r[0])
        if len(atoms) == 1 and deep and self.relational:
            (x, c), = atoms.items()
            if c in (1, -1):
                a, b = self.drng(x)
                lo, hi = (a + k, b + k) if c == 1 else (k - b, k - a)
                return max(lo, FULL[0]), min(hi, FULL[1])
        if self.relational and (len(atoms) > 2 or len(atoms) == 2 and (x is None or y is None)):
            c = self.con.get(mkadd(atoms, 0))
            if c:
                lo, hi = max(lo, c[0] + k), min(hi, c[1] + k)
            c = self.con.get(mkadd({t: -c for t, c in atoms.items()}, 0))
            if c:
                lo, hi = max(lo, k - c[1]), min(hi, k - c[0])
        if len(atoms) == 2 and (x is None or y is None):
            (x, c), (y, c2) = atoms.items()
            if c < 0:
                (x, c), (y, c2) = (y, c2), (x, c)
            if c + c2 == 0:
                l, h = self.diff(x, y, deep)
                if l > FULL[0]:
                    lo = max(lo, c * l + k)
                if h < FULL[1]:
                    hi = min(hi, c * h + k)
            return max(lo, FULL[0]), min(hi, FULL[1])
        if len(atoms) == 2 and x is not None and y is not None:
            for p, q, f in ((x, y, 1), (y, x, -1)):
                c = self.con.get(('t', 'sub', p, q, 64))
                if c:
                    l, h = (c[0], c[1]) if f == 1 else (-c[1], -c[0])
                    lo, hi = max(lo, l + k), min(hi, h + k)
            if deep:
                for t in list(self.con):
                    if t[0] == 't' and t[1] == 'sub' and t[-1] == 64 and (t[2] == x or t[3] == x):
                        z = t[3] if t[2] == x else t[2]
                        if z == y:
                            continue
                        l1, h1 = self.diff(x, z, False)
                        l2, h2 = self.diff(z, y, False)
                        lo, hi = max(lo, l1 + l2 + k), min(hi, h1 + h2 + k)
        return max(lo, FULL[0]), min(hi, FULL[1])

    def drng(self, x):
        """range of a term by its own bounds and its relations"""
        lo, hi = self.rng(x)
        for t, c in self.con.items():
            if t[0] == 't' and t[1] == 'sub' and t[-1] == 64 and (t[2] == x or t[3] == x):
                l, h = c[0], c[1]
                if t[2] == x:
                    r = self.rng(t[3])
                else:
                    r = self.rng(t[2])
                    l, h = -h, -l
                if l > FULL[0] and r[0] > FULL[0]:
                    lo = max(lo, r[0] + l)
                if h < FULL[1] and r[1] < FULL[1]:
                    hi = min(hi, r[1] + h)
        return lo, hi

    def setdiff(self, a, b, lo, hi):
        """a - b in [lo, hi]; False if impossible"""
        atoms, k = lin(('t', 'sub', a, b, 64))
        x = [t for t, c in atoms.items() if c == 1 and t[0] in 'st']
        y = [t for t, c in atoms.items() if c == -1 and t[0] in 'st']
        if 3 <= len(atoms) <= 6 and self.relational and all(t[0] in 'st' for t in atoms):
            key = mkadd(atoms, 0)
            if key[0] != 't':
                return True
            l, h = self.rng(key)
            l, h = max(l, lo - k if lo > FULL[0] else lo), min(h, hi - k if hi < FULL[1] else hi)
            if l > h:
                return False
            if (l, h) != FULL:
                c = self.con.get(key)
                self.con[key] = (l, h, c[2] if c else ())
            return True
        if len(atoms) != 2 or len(x) != 1 or len(y) != 1:
            return True
        key = ('t', 'sub', x[0], y[0], 64)
        rev = ('t', 'sub', y[0], x[0], 64)
        l, h = lo - k if lo > FULL[0] else FULL[0], hi - k if hi < FULL[1] else FULL[1]
        c = self.con.get(key)
        if c:
            l, h = max(l, c[0]), min(h, c[1])
        c = self.con.pop(rev, None)
        if c:
            l, h = max(l, -c[1]), min(h, -c[0])
        if l > h:
            return False
        if (l, h) != FULL:
            self.con[key] = (l, h, ())
        return True

    def nonnull(self, n):
        v = ('s', n, 0)
        return self.rng(v)[0] >= 1 or 0 in self.excl(v)

    def excl(self, v):
        if v[0] == 's':
            c = self.con.get(('s', v[1], 0))
            return tuple(x + v[2] for x in c[2]) if c else ()
        if v[0] == 't':
            c = self.con.get(v)
            return c[2] if c else ()
        return ()

    def setcon(self, v, lo, hi, excl=None):
        """restrict v; False if empty"""
        if v[0] == 's':
            key, k = ('s', v[1], 0), v[2]
        else:
            key, k = v, 0
        c = self.con.get(key)
        base = (c[0], c[1]) if c else (FULL if key[0] == 's' else self.trng(key))
        ex = set(c[2]) if c else set()
        if excl is not None:
            ex.add(excl - k)
        nlo = max(base[0], lo - k) if lo > FULL[0] else base[0]
        nhi = min(base[1], hi - k) if hi < FULL[1] else base[1]
        while nlo in ex and nlo <= nhi:
            nlo += 1
        while nhi in ex and nlo <= nhi:
            nhi -= 1
        if nlo > nhi:
            return False
        ex = tuple(sorted(x for x in ex if nlo < x < nhi))[:12]
        if (nlo, nhi) == FULL and not ex:
            self.con.pop(key, None)
        else:
            self.con[key] = (nlo, nhi, ex)
        if nlo == nhi and key[0] == 's':
            self.subst(key[1], ('i', nlo))
            return True
        if nlo == nhi and self.relational and key[0] == 't' and key[1] in ('sub', 'add'):
            self.point(key, ('i', nlo))
        if key[0] == 't' and key[1] in ('zext', 'sext') and key[2][0] in 'st':
            w = key[3]
            if key[1] == 'zext' and nlo >= 0 and (w < 32 or nhi < 1 << (w - 1)):
                return self.setcon(key[2], nlo, nhi)
        elif key[0] == 't' and key[1] == 'add' and key[3][0] == 'i' and key[2][0] in 'st':
            return self.setcon(key[2], nlo - key[3][1], nhi - key[3][1])
        elif self.relational and key[0] == 't' and key[1] == 'sub' and key[-1] == 64 and (nlo > FULL[0] or nhi < FULL[1]):
            at, c = lin(key)
            at = list(at.items())
            if any(x[0] == 'p' for x, _ in at) or len(at) > 2:
                return True
            if len(at) == 1 and at[0][1] in (1, -1) and at[0][0] != key:
                x, f = at[0]
                l, h = nlo - c if nlo > FULL[0] else FULL[0], nhi - c if nhi < FULL[1] else FULL[1]
                return self.setcon(x, l, h) if f == 1 else self.setcon(x, -h, -l)
            if len(at) == 2 and at[0][1] * at[1][1] == -1:
                # x - y in [l, h]: bounds of one give bounds of the other
                if at[0][1] < 0:
                    at.reverse()
                x, y = at[0][0], at[1][0]
                l, h = nlo - c if nlo > FULL[0] else FULL[0], nhi - c if nhi < FULL[1] else FULL[1]
                if not self.setdiff(x, y, l, h):
                    return False
                rx, ry = self.rng(x), self.rng(y)
                a = ry[0] + l if ry[0] > FULL[0] and l > FULL[0] else FULL[0]
                b = ry[1] + h if ry[1] < FULL[1] and h < FULL[1] else FULL[1]
                if (a > rx[0] or b < rx[1]) and x[0] == 's' and not self.setcon(x, a, b):
                    return False
                a = rx[0] - h if rx[0] > FULL[0] and h < FULL[1] else FULL[0]
                b = rx[1] - l if rx[1] < FULL[1] and l > FULL[0] else FULL[1]
                if (a > ry[0] or b < ry[1]) and y[0] == 's':
                    return self.setcon(y, a, b)
        return True

    def equate(self, v, k):
        """restrict v to the value k; False if impossible"""
        atoms, c = lin(v)
        if not atoms:
            return c == k
        k -= c
        at = list(atoms.items())
        if len(at) == 1 and abs(at[0][1]) == 1:
            return self.setcon(at[0][0], k * at[0][1], k * at[0][1])
        if len(at) == 2 and at[0][1] * at[1][1] == -1 and at[0][0][0] == at[1][0][0] == 's':
            if at[0][1] < 0:
                at.reverse()
            x, y = at[0][0], at[1][0]
            lo, hi = self.diff(x, y)
            if not lo <= k <= hi:
                return False
            # x = y + k
            rx = self.rng(x)
            if not self.setcon(y, rx[0] - k if rx[0] > FULL[0] else rx[0], rx[1] - k if rx[1] < FULL[1] else rx[1]):
                return False
            self.con.pop(('t', 'sub', x, y, 64), None)
            self.con.pop(('t', 'sub', y, x, 64), None)
            self.subst(x[1], addk(y, k))
            return True
        t = mkadd(atoms, 0)
        if t[0] in 'st':
            return self.setcon(t, k, k)
        return True

    def split(self, v, limit):
        """a state per possible value: [(state, value)] or None if there are too many"""
        if v[0] == 'i':
            return [(self, v[1])]
        lo, hi = self.diff(v, ZERO)
        if hi - lo >= limit:
            return None
        out = []
        for k in range(lo, hi + 1):
            s = self.copy()
            if s.equate(v, k):
                out.append((s, k))
        return out

    def subst(self, n, val):
        """symbol n is val"""
        def m(x):
            return val if x == n else x
        for f in self.frames:
            for r, v in f.regs.items():
                nv = rename(v, m)
                if nv is not v and nv != v:
                    f.regs[r] = nv
        nm = {}
        for o, cells in self.mem.items():
            no = o
            if o[0] in 'dh' and o[1] == n:
                if o[0] == 'd' and val[0] == 's' and val[2] == 0:
                    no = ('d', val[1])
                elif o[0] == 'd' and val[0] == 'p' and val[2][0] == 'i':
                    # same memory under two names: keep what the known one has
                    base = val[2][1]
                    tgt = nm.get(val[1]) or self.mem.get(val[1], {})
                    add = {k + base: (s, rename(v, m)) for k, (s, v) in cells.items()}
                    add.update(tgt)
                    nm[val[1]] = add
                    continue
                else:
                    continue
            nc = {}
            for k, (s, v) in cells.items():
                nc[k] = (s, rename(v, m))
            if no in nm:
                nc.update(nm[no])
            nm[no] = nc
        self.mem = nm
        nc = {}
        for k, c in self.con.items():
            if k == ('s', n, 0):
                continue
            nk = rename(k, m)
            if val[0] == 's' and nk[0] in 'st':
                # move constants into the bounds
                d = 0
                if nk[0] == 's' and nk[2]:
                    d, nk = nk[2], ('s', nk[1], 0)
                elif nk[0] == 't' and nk[1] == 'add' and nk[-1] == 64 and nk[3][0] == 'i':
                    d, nk = nk[3][1], nk[2]
                if d:
                    c = (c[0] - d if c[0] > FULL[0] else c[0], c[1] - d if c[1] < FULL[1] else c[1], tuple(x - d for x in c[2]))
                if nk in nc:
                    o = nc[nk]
                    c = (max(c[0], o[0]), min(c[1], o[1]), tuple(sorted(set(c[2]) | set(o[2]))))
            if nk[0] in 'st' and (nk[0] != 's' or nk[2] == 0):
                nc[nk] = c
        self.con = nc
        self.locks = rename(self.locks, m) if self.locks else self.locks
        self.cstack = rename(self.cstack, m) if self.cstack else self.cstack
        for k, v in self.mon.items():
            if isinstance(v, tuple) and v:
                self.mon[k] = rename(v, m)

    def point(self, t, c):
        """the term t is known to be the constant c"""
        def rep(x):
            if x == t:
                return c
            return tuple(rep(y) if isinstance(y, tuple) and y else y for y in x)
        for f in self.frames:
            for r, v in f.regs.items():
                if v == t:
                    f.regs[r] = c
        for o, cells in self.mem.items():
            if any(v == t for _, v in cells.values()):
                self.mem[o] = {k: (s, c if v == t else v) for k, (s, v) in cells.items()}
        for k, v in self.mon.items():
            if isinstance(v, tuple) and v:
                self.mon[k] = rep(v)

    # --- memory
    def kill(self, obj, lo=None, hi=None):
        if self.relational and obj[0] in 'dh':
            for t in [t for t in self.con if t[0] == 't' and t[1] == 'at' and t[2][1] == obj]:
                del self.con[t]
        cells = self.mem.get(obj)
        if not cells:
            return
        if lo is None:
            if HSIZE in cells:
                self.mem[obj] = {HSIZE: cells[HSIZE]}
            else:
                self.mem.pop(obj)
            return
        nc = {}
        for k, (s, v) in cells.items():
            if k + s <= lo or k >= hi:
                nc[k] = (s, v)
            elif v == ('z',):
                if k < lo:
                    nc[k] = (lo - k, v)
                if k + s > hi:
                    nc[hi] = (k + s - hi, v)
        self.mem[obj] = nc

    def write(self, obj, off, size, v):
        self.kill(obj, off, off + size)
        c = self.mem.get(obj)
        c = dict(c) if c else {}
        c[off] = (size, v)
        self.mem[obj] = c

    def peek(self, obj, off, size):
        c = self.mem.get(obj)
        if not c:
            return None
        e = c.get(off)
        if e:
            if e[1] == ('z',):
                return ZERO if size <= e[0] else None
            if e[0] == size:
                return e[1]
        for k, (s, v) in c.items():
            if k <= off and off + size <= k + s:
                if v == ('z',):
                    return ZERO
                if v[0] == 'i':
                    x = (v[1] >> (8 * (off - k))) & ((1 << (8 * size)) - 1)
                    return ('i', norm(x, 8 * size))
                if size in (1, 2, 4) and s in (2, 4, 8):
                    b = self.bytesof(v, s)
                    if b:
                        return self.cat(b[off - k:off - k + size], 8 * size)
        return None


def shape(v):
    """structure of a monitor state without the values in it"""
    if isinstance(v, tuple) and v:
        if v[0] in ('i', 's', 'p', 'f', 'c', 't') and len(v) > 1:
            return '#'
        return tuple(shape(x) for x in v)
    return v


class Monitor:
    """Subclass per rule.  Monitor state lives in st.mon[self.key]."""
    key = 'm'
    init = ()
    loose = False       # values in the monitor state may be merged at joins (flags must not be values then)

    def call(self, eng, st, name, args, ins):
        """None: default handling; 'stop'; or list of (state, retval)"""
        return None

    def ret(self, eng, st, name, val, ins):
        pass

    def load(self, eng, st, obj, off, size, ins):
        pass

    def loaded(self, eng, st, obj, off, size, val, ins):
        """after a load instruction; may return another name of the value"""

    def store(self, eng, st, obj, off, size, val, ins):
        pass

    def icall(self, eng, st, val, args, ins):
        return None

    def lock(self, eng, st, what, m, ins):
        """what: acquire, release, relock, notheld, waitnotheld"""

    def nullderef(self, eng, st, ins, definite):
        pass

    def exit(self, eng, st, kind, val, ins):
        """kind: return, cancel, noreturn"""


class Viol:
    def __init__(self, rule, loc, msg, trace, fn='?'):
        self.fn = fn
        self.rule = rule
        self.loc = loc
        self.msg = msg
        self.trace = trace


NOHAVOC = {
    'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'strchr', 'strrchr', 'memchr',
    'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fflush', 'fclose', 'close', 'shutdown',
    'send', 'write', 'sleep', 'usleep', 'free', 'exit', '_exit', 'abort', 'time', 'vfprintf', 'vprintf',
    'pthread_cond_broadcast', 'pthread_cond_signal', 'perror', 'open', 'fopen', 'socket', 'bind', 'listen',
    'connect', 'setsockopt', 'freeaddrinfo', 'alarm', 'kill', 'getpid', 'getuid', 'execv', 'execve', 'execvp',
    'pthread_testcancel', 'pthread_cancel', 'pthread_setname_np', 'munmap', 'msync', 'tcsetattr', 'tcflush',
    'srand', 'rand', 'unlink', 'chmod', 'setuid', 'setgid', 'dup2', 'isspace', 'tolower', '__ctype_b_loc',
    '__errno_location', 'strerror', 'gai_strerror', 'htons', 'htonl', 'ntohs', 'ntohl', 'fopen64', 'access', 'isatty',
    'LOG_log', 'LOG_logf', 'LOG_errno', 'LOG_errno2', 'LOG_errnet', 'LOG_flush', 'cfsetospeed',
    'llvm.va_end', 'llvm.va_start', 'setlinebuf', 'setenv', 'getenv', 'fileno',
}
CANCELPOINTS = {
    'read', 'write', 'open', 'close', 'poll', 'select', 'connect', 'accept', 'accept4', 'send', 'recv', 'recvfrom', 'sendto',
    'sleep', 'usleep', 'nanosleep', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_join',
    'pthread_testcancel', 'sigwait', 'waitpid', 'wait', 'system', 'pause', 'fsync', 'msync', 'tcdrain',
    'pthread_timedjoin_np', 'getaddrinfo',
}
LOGS = {'LOG_log': 0, 'LOG_logf': 0, 'LOG_errno': 0, 'LOG_errno2': 0, 'LOG_errnet': 0}


class Engine:
    def __init__(self, mod, monitors=(), K=10, cancel=True, shared=None, atomic=(), max_steps=3000000,
                 depth=24, noinline=(), models=None, emerg=4, unknown_globals=True, initial=False,
                 unroll_join=True, cancelpoints=CANCELPOINTS, extra_cancel=(), log_inline=False, partition=None,
                 join_all=False, relational=False, split=0, ulen=False, unequal=False):
        self.mod = mod
        self.monitors = list(monitors)
        self.loose = {m.key for m in self.monitors if m.loose}
        self.K = K
        self.use_cancel = cancel
        self.shared = shared if shared is not None else (lambda g: not g.constant)
        self.atomic = set(atomic)
        self.noinline = set(noinline)
        self.max_steps = max_steps
        self.depth = depth
        self.models = dict(DEFAULT_MODELS)
        if models:
            self.models.update(models)
        self.violations = {}
        self.steps = 0
        self.emerg = emerg
        self.cancelpoints = set(cancelpoints) | set(extra_cancel)
        self.log_inline = log_inline
        self.partition = partition
        self.relational = relational
        self.split = split
        self.ulen = ulen
        self.unequal = unequal
        self.stop_first = False      # stop at the first violation
        self.visited = {}
        self.stats = dict(roots=0, states=0, joins=0, merged=0, calls=0, cancel_edges=0, exits=0, branches=0)
        self.fns_seen = set()
        self.sites_seen = set()
        self.thresholds = None
        self._preds = {}
        self._heads = {}

    # --- reporting
    def report(self, rule, ins, msg, st=None):
        loc = self.mod.locstr(ins) if ins is not None and ins.loc else '?'
        fn = '?'
        if ins is not None:
            fn = self.insfn(ins)
        key = (rule, loc, msg)
        if key not in self.violations:
            self.violations[key] = Viol(rule, loc, msg, self.trace(st) if st else [], fn)

    def insfn(self, ins):
        if not hasattr(self.mod, '_insfn'):
            self.mod._insfn = {id(i): f for f in self.mod.defined.values() for i in f.instrs()}
        f = self.mod._insfn.get(id(ins))
        return f.dname if f is not None else '?'

    def inssym(self, ins):
        self.insfn(ins)
        return self.mod._insfn[id(ins)].name

    def trace(self, st):
        out = []
        t = st.trace
        while t is not None and len(out) < 60:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def note(self, st, text):
        st.trace = (st.trace, text)

    # --- running
    def initial_state(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.con = {}
        st.locks = ()
        st.cancel = True
        st.cstack = ()
        st.mon = {m.key: m.init for m in self.monitors}
        st.unw = False
        st.trace = None
        st.next = 0
        return st

    def set_globals_initial(self, st, pred=lambda g: True):
        for g in self.mod.globals.values():
            if g.constant or g.d['decl'] or not pred(g):
                continue
            size = g.d['size']
            if g.cells is None:
                st.mem[('g', g.name)] = {0: (size, ('z',))}
                continue
            st.mem[('g', g.name)] = {0: (size, ('z',))}
            for o, s, v in g.cells:
                if v[0] == 'zero':
                    continue
                if v[0] == 'bytes':
                    for n, b in enumerate(v[1]):
                        st.write(('g', g.name), o + n, 1, ('i', b))
                else:
                    st.write(('g', g.name), o, s, self.opval(st, None, v))

    def run(self, fn, args=None, st=None, more=False):
        State.relational = self.relational
        """analyse fn from state st; collects exits through monitors"""
        if isinstance(fn, str):
            fn = self.mod.fn(fn)
        if fn.decl:
            raise AnalysisError('root %s has no body' % fn.name)
        self.stats['roots'] += 1
        st = st.copy() if st else self.initial_state()
        if args is None:
            args = []
            for a in fn.args:
                args.append(st.fresh(tyrange(a[1])))
        st.frames.append(Frame(fn, {a[0]: v for a, v in zip(fn.args, args)}, 0, 0, 'root'))
        self.fns_seen.add(fn.name)
        if not more:
            self.visited = {}
        work = [st]
        while work:
            s = work.pop()
            while s is not None:
                self.steps += 1
                if self.stop_first and self.violations:
                    return
                if self.steps > self.max_steps:
                    raise AnalysisError('step limit exceeded at %s' % self.where(s))
                nxt = self.step(s)
                if not nxt:
                    break
                if len(nxt) > 1:
                    work.extend(nxt[1:])
                s = nxt[0]

    def where(self, st):
        return ' > '.join('%s:%d' % (f.fn.name, (f.fn.blocks[f.blk][min(f.idx, len(f.fn.blocks[f.blk]) - 1)].loc or (0, 0))[1])
                          for f in st.frames)

    # --- operands
    def opval(self, st, regs, o):
        k = o[0]
        if k == 'r':
            v = regs.get(o[1])
            if v is None:
                v = st.fresh()
                regs[o[1]] = v
            return v
        if k == 'i':
            return ('i', norm(o[1], o[2]))
        if k == 'null':
            return ZERO
        if k == 'g':
            return ('p', ('g', o[1]), ('i', o[2]))
        if k == 'f':
            return ('f', o[1])
        if k == 'iptr':
            return ('i', o[1])
        return st.fresh()

    def heads(self, fn):
        """heads of loops: targets of retreating edges"""
        h = self._heads.get(fn.name)
        if h is None:
            h = self._heads[fn.name] = set()
            state = {}
            stack = [(0, iter(fn.succs(fn.blocks[0][-1])))]
            state[0] = 1
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in state:
                        state[x] = 1
                        stack.append((x, iter(fn.succs(fn.blocks[x][-1]))))
                        break
                    if state[x] == 1:
                        h.add(x)
                else:
                    state[b] = 2
                    stack.pop()
        return h

    def preds(self, fn):
        p = self._preds.get(fn.name)
        if p is None:
            p = [0] * len(fn.blocks)
            for b in fn.blocks:
                if b:
                    for s in fn.succs(b[-1]):
                        p[s] += 1
            self._preds[fn.name] = p
        return p

    def goto(self, st, blk):
        fr = st.frames[-1]
        prev = fr.blk
        b = fr.fn.blocks[blk]
        i = 0
        vals = []
        while i < len(b) and b[i].op == 'phi':
            for pb, o in b[i].ops:
                if pb == prev:
                    vals.append((b[i].id, self.opval(st, fr.regs, o)))
                    break
            i += 1
        for r, v in vals:
            fr.regs[r] = v
        fr.blk = blk
        fr.idx = i
        if self.preds(fr.fn)[blk] > 1:
            return self.join(st)
        return st

    # --- joins
    def prune(self, st):
        top = len(st.frames) - 1
        for n, f in enumerate(st.frames):
            if n == top:
                if f.idx and f.fn.blocks[f.blk][f.idx - 1].op != 'phi':
                    live = f.fn.live_after(f.blk, f.idx - 1)
                else:
                    live = f.fn.liveness()[0][f.blk] | {x.id for x in f.fn.blocks[f.blk] if x.op == 'phi'}
            else:
                live = f.fn.live_after(f.blk, f.idx)
            f.regs = {r: v for r, v in f.regs.items() if r in live}

    def canon(self, st):
        """prune dead parts, rename symbols canonically; returns the key"""
        self.prune(st)
        depth = len(st.frames)
        m = {}
        queue = []

        def mm(n):
            x = m.get(n)
            if x is None:
                x = m[n] = len(m)
                queue.append(n)
            return x
        for f in st.frames:
            f.regs = {r: rename(f.regs[r], mm) for r in sorted(f.regs)}
        st.locks = rename(st.locks, mm) if st.locks else st.locks
        st.cstack = rename(st.cstack, mm) if st.cstack else st.cstack
        for k in sorted(st.mon):
            v = st.mon[k]
            if isinstance(v, tuple) and v:
                st.mon[k] = rename(v, mm)
        old = st.mem
        new = {}
        roots = sorted(o for o in old if o[0] == 'g') + sorted(o for o in old if o[0] == 'a' and o[1] < depth)
        for o in roots:
            c = old[o]
            if c:
                new[o] = {k: (c[k][0], rename(c[k][1], mm)) for k in sorted(c)}
        qi = 0
        while qi < len(queue):
            n = queue[qi]
            qi += 1
            for kind in 'dh':
                c = old.get((kind, n))
                if c:
                    new[(kind, m[n])] = {k: (c[k][0], rename(c[k][1], mm)) for k in sorted(c, key=str)}
        st.mem = new
        nc = {}
        for k, c in st.con.items():
            s = set()
            syms(k, s)
            if all(x in m for x in s):
                nc[rename(k, lambda n: m[n])] = c
        st.con = nc
        st.next = len(m)
        return self.key(st)

    def key(self, st):
        return (self.lockey(st),
                tuple(tuple(f.regs.items()) for f in st.frames),
                frozenset((o, tuple(sorted(c.items(), key=str))) for o, c in st.mem.items()),
                frozenset(st.con.items()),
                self.pkey(st))

    def lockey(self, st):
        return tuple((f.fn.name, f.blk, f.idx, f.kind) for f in st.frames) + (st.unw,)

    def pkey(self, st):
        p = (st.locks, st.cancel, st.cstack, tuple((k, shape(v) if k in self.loose else v) for k, v in sorted(st.mon.items())))
        if self.partition:
            p += (self.partition(self, st),)
        return p

    def join(self, st):
        self.stats['joins'] += 1
        k = self.canon(st)
        bucket = self.visited.setdefault((k[0], k[4]), [dict(), None])
        seen, merged = bucket
        if merged is None:
            if k in seen:
                return None
            if len(seen) < self.K:
                seen[k] = st.copy()
                self.stats['states'] += 1
                return st
            acc = None
            for s in seen.values():
                acc = s if acc is None else self.merge(acc, s, False)
            ka = self.canon(acc)
            bucket[1] = [ka, acc, 0]
            merged = bucket[1]
            bucket[0] = {}
        ka, acc, n = merged
        if k == ka:
            return None
        w = n if self.relational else n >= 1
        f = st.frames[-1]
        if self.relational and n < 100 and f.blk not in self.heads(f.fn):
            w = 0       # widening is done at the heads of loops
        res = self.merge(acc, st, w)
        res.trace = st.trace
        kr = self.canon(res)
        self.stats['merged'] += 1
        if kr == ka:
            return None
        if n > 400:
            raise AnalysisError('join does not stabilise at ' + self.where(st))
        bucket[1] = [kr, res.copy(), n + 1]
        return res

    def getthresholds(self):
        if self.thresholds is None:
            t = {0, 1, -1, 2, 255, 256, 65535, PMAX, (1 << 31) - 1, -(1 << 31), (1 << 32) - 1}
            for f in self.mod.defined.values():
                for i in f.instrs():
                    for o in i.ops:
                        if o and o[0] == 'i':
                            t |= {o[1], o[1] - 1, o[1] + 1}
                    if i.op == 'alloca':
                        t |= {i.d['size'], i.d['size'] - 1}
            for g in self.mod.globals.values():
                t |= {g.d['size'], g.d['size'] - 1}
            self.thresholds = sorted(t)
        return self.thresholds

    def merge(self, A, B, widen):
        R = State()
        R.locks, R.cancel, R.cstack, R.mon, R.unw = A.locks, A.cancel, A.cstack, dict(A.mon), A.unw
        R.trace = B.trace
        R.con = {}
        R.mem = {}
        R.next = 0
        pairs = {}
        objq = []
        tpairs = {}
        base = {}

        def off(va, vb):
            """(normalised pair, constant): pairs which differ by the same constant on both sides share a symbol"""
            if va[0] == 'i':
                return (ZERO, addk(vb, -va[1])), va[1]
            if va[0] == 's':
                return (('s', va[1], 0), addk(vb, -va[2])), va[2]
            return (va, vb), 0

        def pairval(va, vb):
            if not self.relational or va[0] not in 'is' or vb[0] not in 'is':
                return ('s', pairsym(va, vb), 0)
            b, k = off(va, vb)
            x = base.get(b)
            if x is None:
                x = base[b] = pairsym(va, vb), k
            return ('s', x[0], k - x[1])

        def pairsym(va, vb):
            key = (va, vb)
            r = pairs.get(key)
            if r is not None:
                return r
            ra, rb = A.rng(va), B.rng(vb)
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            if widen:
                if lo < ra[0]:
                    lo = (max([t for t in self.getthresholds() if t <= lo] or [FULL[0]]) if widen < 40 else FULL[0])
                if hi > ra[1]:
                    hi = (min([t for t in self.getthresholds() if t >= hi] or [FULL[1]]) if widen < 40 else FULL[1])
            ea, eb = set(A.excl(va)), set(B.excl(vb))

            def out(e, r):
                return {x for x in e if x < r[0] or x > r[1]}
            ex = (ea & eb) | {x for x in ea if x < rb[0] or x > rb[1]} | {x for x in eb if x < ra[0] or x > ra[1]}
            for v, e, other in ((va, ea, eb), (vb, eb, ea)):
                if v[0] == 'i':
                    ex |= {x for x in other if x != v[1]}
            # anything excluded on one side must be excluded (or impossible) on the other
            ok = set()
            for x in ex:
                ina = x in ea or x < ra[0] or x > ra[1]
                inb = x in eb or x < rb[0] or x > rb[1]
                if ina and inb and lo < x < hi:
                    ok.add(x)
            n = R.next
            R.next += 1
            r = pairs[key] = n
            if (lo, hi) != FULL or ok:
                R.con[('s', n, 0)] = (lo, hi, tuple(sorted(ok))[:12])
            objq.append((va, vb, n))
            return r

        def mv(a, b, ptr=True):
            if a == b:
                s = set()
                syms(a, s)
                if not s:
                    return a
            ka, kb = a[0], b[0]
            if ka == 's' and kb == 's' and a[2] == b[2]:
                return ('s', pairsym(('s', a[1], 0), ('s', b[1], 0)), a[2])
            if ptr and self.relational and ka in 'sp' and kb in 'sp' and ka + kb != 'pp':
                # addresses in the same memory at different offsets
                x, y = [(v[1], ('i', v[2])) if v[0] == 's' else (v[1][1], v[2]) if v[1][0] == 'd' else (None, None) for v in (a, b)]
                if x[0] is not None and y[0] is not None and ('p' in ka + kb or (('s', x[0], 0), ('s', y[0], 0)) in pairs) and \
                        A.nonnull(x[0]) and B.nonnull(y[0]):
                    return mkp(('d', pairsym(('s', x[0], 0), ('s', y[0], 0))), mv(x[1], y[1], False))
            if ka == 'p' and kb == 'p':
                oa, ob = a[1], b[1]
                if oa == ob and oa[0] in 'ga':
                    return mkp(oa, mv(a[2], b[2], False))
                if oa[0] == ob[0] and oa[0] in 'hd':
                    n = pairsym(('s', oa[1], 0), ('s', ob[1], 0))
                    return mkp((oa[0], n), mv(a[2], b[2], False))
            if ka == 'c' and kb == 'c' and a[1] == b[1] and a[4] == b[4]:
                return ('c', a[1], mv(a[2], b[2]), mv(a[3], b[3]), a[4])
            if ka == 't' and kb == 't' and a[1] == b[1] and len(a) == len(b) and a[-1] == b[-1] and \
                    all(isinstance(x, tuple) == isinstance(y, tuple) and (isinstance(x, tuple) or x == y) for x, y in zip(a[2:], b[2:])):
                r = ('t', a[1]) + tuple(mv(x, y) if isinstance(x, tuple) else x for x, y in zip(a[2:], b[2:]))
                ca, cb = A.con.get(a), B.con.get(b)
                if ca and cb:
                    R.con[r] = (min(ca[0], cb[0]), max(ca[1], cb[1]), tuple(sorted(set(ca[2]) & set(cb[2]))))
                elif self.relational and r[1] in ('add', 'sub') and r not in R.con:
                    ra, rb = A.rng(a), B.rng(b)
                    lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
                    if widen:
                        if lo < ra[0]:
                            lo = (max([t for t in self.getthresholds() if t <= lo] or [FULL[0]]) if widen < 40 else FULL[0])
                        if hi > ra[1]:
                            hi = (min([t for t in self.getthresholds() if t >= hi] or [FULL[1]]) if widen < 40 else FULL[1])
                    t = R.trng(r)
                    if lo > t[0] or hi < t[1]:
                        R.con[r] = (lo, hi, ())
                if self.relational and (a, b) not in tpairs:
                    tpairs[a, b] = r
                return r
            return pairval(a, b)

        def mg(a, b):
            """monitor / lock structures: equal up to symbols (same partition key)"""
            if isinstance(a, tuple) and a:
                if a[0] in ('i', 's', 'p', 'f', 'c', 't') and len(a) > 1:
                    return mv(a, b)
                return tuple(mg(x, y) for x, y in zip(a, b))
            return a
        R.frames = []
        for fa, fb in zip(A.frames, B.frames):
            regs = {}
            for r, v in fa.regs.items():
                if r in fb.regs:
                    regs[r] = mv(v, fb.regs[r])
            R.frames.append(Frame(fa.fn, regs, fa.blk, fa.idx, fa.kind))
        R.locks = mg(A.locks, B.locks)
        R.cstack = mg(A.cstack, B.cstack)
        for k in R.mon:
            R.mon[k] = mg(A.mon[k], B.mon[k])

        def mcells(ca, cb):
            out = {}
            for k, (s, v) in ca.items():
                e = cb.get(k)
                if e and e[0] == s:
                    if v == ('z',) or e[1] == ('z',):
                        if v == e[1]:
                            out[k] = (s, v)
                        elif s in (1, 2, 4, 8):
                            out[k] = (s, mv(ZERO if v == ('z',) else v, ZERO if e[1] == ('z',) else e[1]))
                    else:
                        out[k] = (s, mv(v, e[1]))
                elif isinstance(k, int) and v != ('z',):
                    for k2, (s2, v2) in cb.items():
                        if isinstance(k2, int) and k2 <= k and k + s <= k2 + s2 and v2 == ('z',):
                            out[k] = (s, mv(v, ZERO))
                            break
            for k, (s, v) in cb.items():
                if k not in out and isinstance(k, int) and v != ('z',):
                    for k2, (s2, v2) in ca.items():
                        if isinstance(k2, int) and k2 <= k and k + s <= k2 + s2 and v2 == ('z',):
                            out[k] = (s, mv(ZERO, v))
                            break
            return out
        for o in A.mem:
            if o[0] in 'ga' and o in B.mem:
                c = mcells(A.mem[o], B.mem[o])
                if c:
                    R.mem[o] = c
        qi = 0
        while qi < len(objq):
            va, vb, n = objq[qi]
            qi += 1
            if va[0] == 's' and vb[0] == 's':
                for kind in 'dh':
                    ca, cb = A.mem.get((kind, va[1])), B.mem.get((kind, vb[1]))
                    if ca and cb:
                        c = mcells(ca, cb)
                        if c:
                            R.mem[(kind, n)] = c
        if self.relational and widen < 80:
            def related(S):
                out = set()
                for t in S.con:
                    if t[0] == 't' and t[1] == 'sub' and t[-1] == 64:
                        out |= {t[2], t[3]}
                return out
            def deep(S):
                out = set()
                for t in S.con:
                    if t[0] == 't' and t[1] == 'sub' and t[-1] == 64 and t[2][0] == 't' and t[2][1] in ('add', 'sub'):
                        out |= {x for x in lin(t)[0] if x[0] == 't'}
                return out
            ra, rb = related(A), related(B)
            da, db = deep(A), deep(B)
            lbase = lambda v: set(lin(v)[0])
            rel = [(va, vb, n, ('s', n, 0)) for (va, vb), n in pairs.items() if va[0] in 'ist' and vb[0] in 'ist']
            rel += [(a, b, R.next + n, r) for n, ((a, b), r) in enumerate(tpairs.items())
                    if a in ra or b in rb or a in da or b in db or r[1] in ('add', 'sub') and (lbase(a) & ra or lbase(b) & rb)]
            act = [x for x in rel if lbase(x[0]) & ra or lbase(x[1]) & rb or x[0][0] == 'i' == x[1][0] or x[0] in da or x[1] in db]
            for x in act:
                for y in rel:
                    if y is x or (y in act and y[2] < x[2]):
                        continue
                    da, db = A.diff(x[0], y[0]), B.diff(x[1], y[1])
                    lo, hi = min(da[0], db[0]), max(da[1], db[1])
                    if widen:
                        if lo < da[0]:
                            lo = (max([t for t in (-16, -1, 0, 1) if t <= lo] or [FULL[0]]) if widen < 30 else FULL[0])
                        if hi > da[1]:
                            hi = (min([t for t in (-1, 0, 1, 16) if t >= hi] or [FULL[1]]) if widen < 30 else FULL[1])
                    lo = FULL[0] if lo < -(1 << 20) else lo
                    hi = FULL[1] if hi > 1 << 20 else hi
                    # only what the ranges do not say anyway
                    sx, sy = x[3], y[3]
                    r1, r2 = R.rng(sx), R.rng(sy)
                    if lo <= r1[0] - r2[1]:
                        lo = FULL[0]
                    if hi >= r1[1] - r2[0]:
                        hi = FULL[1]
                    if (lo, hi) != FULL:
                        R.setdiff(sx, sy, lo, hi)
                    # sums, if something cancels out
                    if sx[0] != 's' or sy[0] != 's' or 'i' in (x[0][0] + x[1][0], y[0][0] + y[1][0]) or not (
                            x[0][0] == 't' or x[1][0] == 't' or y[0][0] == 't' or y[1][0] == 't'):
                        continue
                    fa, fb = lin(('t', 'add', x[0], y[0], 64)), lin(('t', 'add', x[1], y[1], 64))
                    if len(fa[0]) >= len(lin(x[0])[0]) + len(lin(y[0])[0]) and len(fb[0]) >= len(lin(x[1])[0]) + len(lin(y[1])[0]):
                        continue
                    if fa[1] == fb[1] and list(fa[0].values()) == list(fb[0].values()) == [1]:
                        # both are the same third number
                        z = pairs.get((list(fa[0])[0], list(fb[0])[0]))
                        if z is not None:
                            R.setdiff(('t', 'add', sx, sy, 64), ('s', z, 0), fa[1], fa[1])
                            continue
                    ca, cb = A.diff(mkadd(*fa), ZERO), B.diff(mkadd(*fb), ZERO)
                    lo, hi = min(ca[0], cb[0]), max(ca[1], cb[1])
                    if widen:
                        lo = FULL[0] if lo < ca[0] else lo
                        hi = FULL[1] if hi > ca[1] else hi
                    r1, r2 = R.rng(sx), R.rng(sy)
                    if lo > r1[0] + r2[0] or hi < r1[1] + r2[1]:
                        t = mkadd(*lin(('t', 'add', sx, sy, 64)))
                        if t[0] == 't':
                            c = R.rng(t)
                            R.con[t] = (max(lo, c[0]), min(hi, c[1]), ())
        return R

    # --- conditions
    def truth(self, st, v):
        """True/False/None"""
        if v[0] == 'i':
            return v[1] != 0
        if v[0] == 'c':
            return self.cmp(st, v[1], v[2], v[3], v[4])
        if v[0] in 'pf':
            return True
        lo, hi = st.rng(v)
        if lo > 0 or hi < 0:
            return True
        if lo == hi == 0:
            return False
        if 0 in st.excl(v):
            return True
        return None

    def cmp(self, st, pred, a, b, w):
        if a == b and pred in ('eq', 'ne', 'sle', 'sge', 'ule', 'uge', 'slt', 'sgt', 'ult', 'ugt'):
            return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
        if pred not in INV:
            return None
        if a[0] == 'i' and b[0] == 'i':
            if pred[0] == 's':
                x, y = sgn(a[1], w), sgn(b[1], w)
            elif pred[0] == 'u' and pred != 'une':
                x, y = uns(a[1], w), uns(b[1], w)
            else:
                x, y = a[1], b[1]
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[
                pred if pred in ('eq', 'ne') else pred[1:]]
        # same base
        d = None
        if a[0] == 's' and b[0] == 's' and a[1] == b[1]:
            d = a[2] - b[2]
        elif a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                return self.cmp(st, pred if pred in ('eq', 'ne') else 's' + pred[1:], a[2], b[2], 64)
            if a[1][0] in 'gah' and b[1][0] in 'gah':
                if pred in ('eq', 'ne'):
                    return pred == 'ne'
                return None
        elif {a[0], b[0]} == {'p', 's'}:
            p, s = (a, b) if a[0] == 'p' else (b, a)
            if p[1][0] == 'd' and p[1][1] == s[1]:
                o = ('i', s[2])
                x, y = (p[2], o) if a[0] == 'p' else (o, p[2])
                return self.cmp(st, pred if pred in ('eq', 'ne') else 's' + pred[1:], x, y, 64)
        elif a[0] == 'f' and b[0] == 'f':
            if pred in ('eq', 'ne'):
                return (a == b) == (pred == 'eq')
        if d is not None:
            return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[
                pred if pred in ('eq', 'ne') else pred[1:]]
        ra, rb = st.rng(a), st.rng(b)
        if pred in ('eq', 'ne'):
            if ra[1] < rb[0] or rb[1] < ra[0]:
                return pred == 'ne'
            if b[0] == 'i' and b[1] in st.excl(a):
                return pred == 'ne'
            if a[0] == 'i' and a[1] in st.excl(b):
                return pred == 'ne'
            if self.relational and a[0] in 'st' and b[0] in 'st':
                lo, hi = st.diff(a, b)
                if lo > 0 or hi < 0:
                    return pred == 'ne'
                if lo == hi == 0:
                    return pred == 'eq'
                if self.unequal and UNEQ(a, b) in st.con:
                    return pred == 'ne'
            return None
        if pred[0] == 'u':
            if ra[0] < 0 or rb[0] < 0:
                # a possibly negative number is huge when read unsigned
                if ra[0] < 0 and ra[1] < 0 and rb[0] >= 0:
                    return pred in ('ugt', 'uge')
                if rb[0] < 0 and rb[1] < 0 and ra[0] >= 0:
                    return pred in ('ult', 'ule')
                if pred == 'uge' and b == ZERO:
                    return True
                if pred == 'ult' and b == ZERO:
                    return False
                return None
        elif w < 32 and w > 1 and (ra[1] >= 1 << (w - 1) or rb[1] >= 1 << (w - 1)):
            return None
        p = pred[1:]
        r = None
        if p == 'lt':
            r = True if ra[1] < rb[0] else False if ra[0] >= rb[1] else None
        elif p == 'le':
            r = True if ra[1] <= rb[0] else False if ra[0] > rb[1] else None
        elif p == 'gt':
            r = True if ra[0] > rb[1] else False if ra[1] <= rb[0] else None
        elif p == 'ge':
            r = True if ra[0] >= rb[1] else False if ra[1] < rb[0] else None
        if r is None and self.relational and a[0] in 'st' and b[0] in 'st':
            lo, hi = st.diff(a, b)
            if p == 'lt':
                r = True if hi < 0 else False if lo >= 0 else None
            elif p == 'le':
                r = True if hi <= 0 else False if lo > 0 else None
            elif p == 'gt':
                r = True if lo > 0 else False if hi <= 0 else None
            elif p == 'ge':
                r = True if lo >= 0 else False if hi < 0 else None
        return r

    def assume(self, st, v, truth):
        """refine st by v being true/false; False if infeasible"""
        t = self.truth(st, v)
        if t is not None:
            return t == truth
        if v[0] == 'c':
            pred = v[1] if truth else INV.get(v[1])
            if pred is None:
                return True
            return self.refine(st, pred, v[2], v[3], v[4])
        if v[0] in 'st':
            if truth:
                return st.setcon(v, FULL[0], FULL[1], 0)
            return st.setcon(v, 0, 0)
        return True

    def refine(self, st, pred, a, b, w):
        if a[0] in 'ipf' and b[0] not in 'ipf':
            a, b, pred = b, a, SWAP[pred]
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            return self.refine(st, pred if pred in ('eq', 'ne') else 's' + pred[1:], a[2], b[2], 64)
        if a[0] == 's' and b[0] == 'p' and b[1] == ('d', a[1]):
            return self.refine(st, pred if pred in ('eq', 'ne') else 's' + pred[1:], ('i', a[2]), b[2], 64)
        if a[0] == 'c' and b[0] == 'i':
            # comparison of a truth value
            for t in (True, False):
                if self.cmp(st, pred, ('i', int(t)), b, w) and not self.cmp(st, pred, ('i', int(not t)), b, w):
                    return self.assume(st, a, t)
            return True
        if a[0] not in 'st':
            return True
        if pred == 'eq':
            if b[0] == 'i':
                return st.setcon(a, b[1], b[1])
            if a[0] == 's' and b[0] in 'pf':
                st.subst(a[1], addk(b, -a[2]) if b[0] == 'p' else b)
                return True
            if a[0] == 's' and b[0] == 's':
                ra, rb = st.rng(a), st.rng(b)
                lo, hi = max(ra[0], rb[0]), min(ra[1], rb[1])
                if lo > hi:
                    return False
                st.subst(a[1], ('s', b[1], b[2] - a[2]))
                return st.setcon(b, lo, hi)
            rb = st.rng(b)
            if not st.setcon(a, rb[0], rb[1]):
                return False
            if self.relational and b[0] in 'st':
                return st.setdiff(a, b, 0, 0)
            return True
        if pred == 'ne':
            if b[0] == 'i':
                return st.setcon(a, FULL[0], FULL[1], b[1])
            if self.relational and b[0] in 'st':
                lo, hi = st.diff(a, b)
                if lo == 0:
                    return st.setdiff(a, b, 1, FULL[1])
                if hi == 0:
                    return st.setdiff(a, b, FULL[0], -1)
                if self.unequal and lo < 0 < hi:
                    st.con[UNEQ(a, b)] = (0, 1, ())
            return True
        if self.ulen and pred[0] == 'u' and w == 64:
            # assumption: lengths are not negative
            for x in (a, b):
                if x[0] in 'st' and st.rng(x)[0] < 0 and not st.setcon(x, 0, FULL[1]):
                    return False
        ra, rb = st.rng(a), st.rng(b)
        if self.relational and b[0] in 'st' and (pred[0] == 's' or ra[0] >= 0 and rb[0] >= 0):
            lo, hi = {'lt': (FULL[0], -1), 'le': (FULL[0], 0), 'gt': (1, FULL[1]), 'ge': (0, FULL[1])}[pred[1:]]
            if not st.setdiff(a, b, lo, hi):
                return False
        if pred[0] == 'u':
            if rb[0] < 0:
                if ra[0] >= 0 or b[0] == 'i':
                    return True
                return True
            if ra[0] < 0:
                if pred == 'ult':
                    return st.setcon(a, 0, rb[1] - 1)
                if pred == 'ule':
                    return st.setcon(a, 0, rb[1])
                return True
        p = pred[1:]
        if p == 'lt':
            ok = st.setcon(a, FULL[0], rb[1] - 1)
            if ok and b[0] in 'st':
                ok = st.setcon(b, ra[0] + 1, FULL[1])
        elif p == 'le':
            ok = st.setcon(a, FULL[0], rb[1])
            if ok and b[0] in 'st':
                ok = st.setcon(b, ra[0], FULL[1])
        elif p == 'gt':
            ok = st.setcon(a, rb[0] + 1, FULL[1])
            if ok and b[0] in 'st':
                ok = st.setcon(b, FULL[0], ra[1] - 1)
        else:
            ok = st.setcon(a, rb[0], FULL[1])
            if ok and b[0] in 'st':
                ok = st.setcon(b, FULL[0], ra[1])
        return ok

    # --- addresses
    def addr(self, st, v, ins, what):
        """(obj, offset value) or None"""
        if v[0] == 'p':
            return v[1], v[2]
        if v[0] == 's':
            lo, hi = st.rng(v)
            if lo <= 0 <= hi and 0 not in st.excl(v):
                for m in self.monitors:
                    m.nullderef(self, st, ins, False)
                if -4096 < v[2] < 4096:
                    st.setcon(('s', v[1], 0), FULL[0], FULL[1], 0)
            return ('d', v[1]), ('i', v[2])
        if v[0] == 'i':
            if -4096 < v[1] < 65536:
                for m in self.monitors:
                    m.nullderef(self, st, ins, True)
                return 'null'
            return None
        return None

    def load(self, st, v, ty, size, ins):
        a = self.addr(st, v, ins, 'load')
        if a == 'null':
            return None
        if a is None:
            return st.fresh(tyrange(ty))
        obj, off = a
        for m in self.monitors:
            m.load(self, st, obj, off, size, ins)
        v = self.rd(st, obj, off, size, ty)
        for m in self.monitors:
            r = m.loaded(self, st, obj, off, size, v, ins)
            if r is not None:
                v = r
        return v

    def rd(self, st, obj, off, size, ty):
        if off[0] != 'i':
            return st.fresh(tyrange(ty))
        off = off[1]
        if obj[0] == 'g':
            g = self.mod.globals.get(obj[1])
            if g is not None and g.constant:
                o = g.read(off, size) if 0 <= off and off + size <= g.d['size'] else None
                if o is not None:
                    return self.opval(st, {}, o)
        r = st.peek(obj, off, size)
        if r is not None:
            return r
        cells = st.mem.get(obj)
        if cells:
            for k, (s, _) in cells.items():
                if isinstance(k, int) and k < off + size and off < k + s:
                    b = [st.peek(obj, off + x, 1) for x in range(size)] if size in (2, 4, 8) and ty[0] == 'i' else [None]
                    if None in b and len(b) > 1:
                        # bytes nothing is known about yet
                        for x in range(size):
                            if b[x] is None and not any(isinstance(k2, int) and k2 <= off + x < k2 + s2 for k2, (s2, _) in cells.items()):
                                b[x] = st.fresh((-128, 127))
                                st.write(obj, off + x, 1, b[x])
                                cells = st.mem[obj]
                    if None not in b:
                        return st.cat(b, 8 * size)
                    return st.fresh(tyrange(ty))
        r = st.fresh(tyrange(ty))
        st.write(obj, off, size, r)
        return r

    def store(self, st, v, p, size, ins):
        a = self.addr(st, p, ins, 'store')
        if a == 'null':
            return False
        if a is None:
            return True
        obj, off = a
        for m in self.monitors:
            m.store(self, st, obj, off, size, v, ins)
        if off[0] == 'i':
            st.write(obj, off[1], size, v)
        else:
            lo, hi = st.rng(off)
            st.kill(obj, lo, hi + size)
        return True

    def havoc_shared(self, st):
        """other threads may have run"""
        for o in list(st.mem):
            if o[0] == 'd':
                del st.mem[o]
            elif o[0] == 'g':
                g = self.mod.globals.get(o[1])
                if g is not None and self.shared(g):
                    del st.mem[o]

    def havoc_arg(self, st, v):
        if v[0] == 'p':
            st.kill(v[1])
        elif v[0] == 's':
            st.kill(('d', v[1]))

    # --- one step
    def step(self, st):
        fr = st.frames[-1]
        i = fr.fn.blocks[fr.blk][fr.idx]
        op = i.op
        regs = fr.regs
        if op == 'call':
            return self.docall(st, i)
        if op == 'br':
            if len(i.d['succ']) == 1:
                s = self.goto(st, i.d['succ'][0])
                return [s] if s else []
            c = self.opval(st, regs, i.ops[0])
            return self.branch(st, c, i.d['succ'][0], i.d['succ'][1], i)
        if op == 'ret':
            return self.doret(st, self.opval(st, regs, i.ops[0]) if i.ops else None, i)
        if op == 'switch':
            v = self.opval(st, regs, i.ops[0])
            out = []
            self.stats['branches'] += 1
            rest = st
            w = 32
            for c, blk in i.d['cases']:
                s = rest.copy()
                vv = self.opval(s, s.frames[-1].regs, i.ops[0])
                cw = norm(c, i.d.get('w', 32))
                if self.assume(s, ('c', 'eq', vv, ('i', cw), w), True):
                    self.note(s, '%s case %d' % (self.mod.locstr(i), c))
                    s = self.goto(s, blk)
                    if s:
                        out.append(s)
                vv = self.opval(rest, rest.frames[-1].regs, i.ops[0])
                if not self.assume(rest, ('c', 'eq', vv, ('i', cw), w), False):
                    rest = None
                    break
            if rest is not None:
                self.note(rest, '%s default' % self.mod.locstr(i))
                s = self.goto(rest, i.d['dflt'])
                if s:
                    out.append(s)
            return out
        if op == 'unreachable':
            return []
        if op == 'select':
            c = self.opval(st, regs, i.ops[0])
            t = self.truth(st, c)
            fr.idx += 1
            if t is not None:
                regs[i.id] = self.opval(st, regs, i.ops[1 if t else 2])
                return [st]
            s2 = st.copy()
            out = []
            if self.assume(st, c, True):
                st.frames[-1].regs[i.id] = self.opval(st, st.frames[-1].regs, i.ops[1])
                out.append(st)
            c2 = self.opval(s2, s2.frames[-1].regs, i.ops[0])
            if self.assume(s2, c2, False):
                s2.frames[-1].regs[i.id] = self.opval(s2, s2.frames[-1].regs, i.ops[2])
                out.append(s2)
            return out
        if op == 'load':
            p = self.opval(st, regs, i.ops[0])
            v = self.load(st, p, i.ty, i.d['size'], i)
            if v is None:
                return []
            st.frames[-1].regs[i.id] = v
        elif op == 'store':
            v = self.opval(st, regs, i.ops[0])
            p = self.opval(st, regs, i.ops[1])
            if not self.store(st, v, p, i.d['size'], i):
                return []
        elif op == 'alloca':
            n = len(st.frames) - 1
            obj = ('a', n, i.id)
            st.kill(obj)
            regs[i.id] = ('p', obj, ZERO)
        else:
            regs[i.id] = self.arith(st, i, regs)
        st.frames[-1].idx += 1
        return [st]

    def branch(self, st, c, bt, bf, i):
        t = self.truth(st, c)
        if t is not None:
            s = self.goto(st, bt if t else bf)
            return [s] if s else []
        self.stats['branches'] += 1
        s2 = st.copy()
        out = []
        if self.assume(st, c, True):
            self.note(st, '%s true' % self.mod.locstr(i))
            s = self.goto(st, bt)
            if s:
                out.append(s)
        if self.assume(s2, c, False):
            self.note(s2, '%s false' % self.mod.locstr(i))
            s = self.goto(s2, bf)
            if s:
                out.append(s)
        return out

    def fits(self, st, v, w):
        lo, hi = st.rng(v)
        f = RANGES.get(w, FULL)
        return f[0] <= lo and hi <= f[1]

    def mkt(self, st, op, *args):
        t = ('t', op) + args
        if vdepth(t) > 5:
            r = st.trng(t)
            if self.relational and op in ('add', 'sub') and args[-1] == 64:
                at, k = lin(t)
                c = mkadd(at, 0)
                if c[0] == 't':
                    a, b = st.rng(c)
                    r = max(r[0], a + k), min(r[1], b + k)
            return st.fresh(r)
        r = st.trng(t)
        if r[0] == r[1]:
            return ('i', r[0])
        return t

    def arith(self, st, i, regs):
        op = i.op
        if op == 'getelementptr':
            p = self.opval(st, regs, i.ops[0])
            if i.d['off'] is None:
                return st.fresh()
            p = addk(p, i.d['off']) if p[0] in 'isp' else p
            for o, s in i.d['vars']:
                v = self.opval(st, regs, o)
                if v[0] == 'i':
                    p = addk(p, norm(v[1] * s, 64))
                else:
                    if s != 1:
                        v = self.mkt(st, 'mul', v, ('i', s), 64)
                    p = padd(p, v)
            if vdepth(p) > 5:
                if p[0] == 'p':
                    p = mkp(p[1], st.fresh(st.rng(p[2])))
                else:
                    p = st.fresh()
            return p
        if op == 'icmp':
            a = self.opval(st, regs, i.ops[0])
            b = self.opval(st, regs, i.ops[1])
            pred, w = i.d['pred'], i.d['w']
            t = self.cmp(st, pred, a, b, w)
            if t is not None:
                return ONE if t else ZERO
            if a[0] == 'c' and b[0] == 'i':
                tt = self.cmp(st, pred, ONE, b, w)
                tf = self.cmp(st, pred, ZERO, b, w)
                if tt and not tf:
                    return a
                if tf and not tt and a[1] in INV:
                    return ('c', INV[a[1]], a[2], a[3], a[4])
            r = ('c', pred, a, b, w)
            if vdepth(r) > 6:
                return st.fresh((0, 1))
            return r
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
            v = self.opval(st, regs, i.ops[0])
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
                return v
            fw = i.d.get('w', 64)
            tw = int(i.ty[1:]) if i.ty[1:].isdigit() else 64
            if v[0] == 'i':
                if op == 'zext':
                    return ('i', norm(uns(v[1], fw), tw))
                if op == 'sext':
                    return ('i', norm(sgn(v[1], fw) if fw > 1 else -v[1], tw))
                return ('i', norm(v[1], tw))
            if v[0] == 'c':
                if op == 'sext':
                    return st.fresh((-1, 0))
                return v
            lo, hi = st.rng(v)
            if op == 'zext':
                if lo >= 0:
                    return v
                return self.mkt(st, 'zext', v, fw, tw)
            if op == 'sext':
                if fw >= 32 or hi < 1 << (fw - 1):
                    return v
                return self.mkt(st, 'sext', v, fw, tw)
            if v[0] in 'pf':
                return st.fresh(RANGES.get(tw, FULL))
            if self.fits(st, v, tw):
                return v
            if tw == 1:
                return ('c', 'ne', self.mkt(st, 'and', v, ONE, fw), ZERO, fw)
            if v[0] == 't' and v[1] == 'zext' and v[3] == tw:
                return v[2]
            if tw == 8 or v[0] == 't' and tw in (16, 32):
                b = st.bytesof(v, tw // 8)
                if b and (tw == 8 or any(x[0] == 'i' or x[1] != 'byte' or x[2] != v for x in b)):
                    return st.cat(b, tw)
            return self.mkt(st, 'trunc', v, tw)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a = self.opval(st, regs, i.ops[0])
            b = self.opval(st, regs, i.ops[1])
            w = i.d.get('w', 64)
            return self.binop(st, op, a, b, w, i)
        if op in ('fcmp',):
            for m in self.monitors:
                if hasattr(m, 'fcmp'):
                    r = m.fcmp(self, st, i)
                    if r is not None:
                        return r
            return st.fresh((0, 1))
        if op in ('fmul', 'fdiv') and sum(o[0] == 'fp' for o in i.ops) == 1 and (op == 'fmul' or i.ops[1][0] == 'fp'):
            # scaled by a constant
            k = [float(o[1]) for o in i.ops if o[0] == 'fp'][0]
            v = [self.opval(st, regs, o) for o in i.ops if o[0] != 'fp'][0]
            if k and i.ty == 'double':
                if op == 'fdiv':
                    k = 1 / k
                if v[0] == 't' and v[1] == 'fscale':
                    v, k = v[2], v[3][1] * k
                return ('t', 'fscale', v, ('i', k), 64)
        if op in ('fptosi', 'fptoui'):
            return st.fresh(tyrange(i.ty))
        return st.fresh(tyrange(i.ty))

    def binop(self, st, op, a, b, w, i=None):
        full = RANGES.get(w, FULL)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            ux, uy = uns(x, w), uns(y, w)
            sx, sy = sgn(x, w), sgn(y, w)
            try:
                if op == 'add': r = x + y
                elif op == 'sub': r = x - y
                elif op == 'mul': r = x * y
                elif op == 'and': r = x & y
                elif op == 'or': r = x | y
                elif op == 'xor': r = x ^ y
                elif op == 'shl': r = ux << uy if uy < w else 0
                elif op == 'lshr': r = ux >> uy if uy < w else 0
                elif op == 'ashr': r = sx >> uy if uy < w else 0
                elif op == 'udiv': r = ux // uy
                elif op == 'urem': r = ux % uy
                elif op == 'sdiv': r = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
                else: r = abs(sx) % abs(sy) * (1 if sx >= 0 else -1)
            except ZeroDivisionError:
                return st.fresh(full)
            return ('i', norm(r, w))
        if op in ('add', 'mul', 'and', 'or', 'xor') and a[0] == 'i':
            a, b = b, a
        if op == 'urem' and b[0] == 'i' and uns(b[1], w) & (uns(b[1], w) - 1) == 0 < uns(b[1], w):
            op, b = 'and', ('i', norm(uns(b[1], w) - 1, w))
        if op == 'xor' and b == ONE and a[0] == 'c' and a[1] in INV:
            return ('c', INV[a[1]], a[2], a[3], a[4])
        if op == 'and' and w == 1 or op == 'and' and b == ONE and a[0] == 'c':
            ta, tb = self.truth(st, a), self.truth(st, b)
            if ta is False or tb is False:
                return ZERO
            if tb:
                return a
            if ta:
                return b
        if op == 'or' and w == 1:
            ta, tb = self.truth(st, a), self.truth(st, b)
            if ta or tb:
                return ONE
            if tb is False:
                return a
            if ta is False:
                return b
        if op == 'sub':
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                return self.binop(st, 'sub', a[2], b[2], 64)
            if a[0] == 's' and b[0] == 's' and a[1] == b[1]:
                return ('i', norm(a[2] - b[2], w))
            if a[0] == 'p' and b[0] == 's' and a[1] == ('d', b[1]):
                return self.binop(st, 'sub', a[2], ('i', b[2]), 64)
            if a == b:
                return ZERO
            if b[0] == 'i':
                op, b = 'add', ('i', norm(-b[1], 64))
                if w == 32 and b[1] > 0x7fffffff:
                    b = ('i', norm(b[1], 32))
        if op == 'add' and b[0] == 'i':
            if a[0] == 'p':
                return addk(a, b[1])
            k = b[1]
            if w < 32 and k >= 1 << (w - 1):
                k -= 1 << w
            if a[0] == 's':
                lo, hi = st.rng(a)
                if w == 64 or (lo + k >= full[0] and hi + k <= full[1]):
                    return ('s', a[1], a[2] + k)
            b = ('i', k)
        if op == 'add' and w == 64 and (a[0] == 'p' or b[0] == 'p'):
            return padd(a, b) if a[0] == 'p' else padd(b, a)
        if op == 'add' and a[0] in 'st' and b[0] in 'st' and w in (16, 32, 64) and (shifted(a) or shifted(b)):
            v = ('t', op, a, b, w)
            r = st.bytesof(v, w // 8)
            if r and not (r[0][0] == 't' and r[0][1] == 'byte' and r[0][2] == v):
                return st.cat(r, w)
        if w == 64 and op in ('add', 'sub') and a[0] in 'ist' and b[0] in 'ist':
            r = mkadd(*lin(('t', op, a, b, 64)))
            return r if r[0] != 't' else self.mkt(st, *r[1:])
        # x - (x - y) and x + (y - x)
        if op == 'add' and a[0] == 't' and a[1] == 'sub' and a[3] == b:
            return a[2]
        if op == 'add' and b[0] == 't' and b[1] == 'sub' and b[3] == a:
            return b[2]
        if op == 'sub' and b[0] == 't' and b[1] == 'sub' and b[2] == a:
            return b[3]
        if op == 'shl' and b[0] == 'i' and 0 <= b[1] < 62:
            op, b = 'mul', ('i', 1 << b[1])
        if op == 'mul' and b == ONE:
            return a
        if op in ('mul', 'and') and b == ZERO:
            return ZERO
        if op in ('or', 'xor', 'lshr', 'ashr') and b == ZERO:
            return a
        if op == 'and' and b[0] == 'i' and b[1] > 0:
            lo, hi = st.rng(a)
            if lo >= 0 and hi <= b[1] and (b[1] & (b[1] + 1)) == 0:
                return a
        if op == 'or' and w in (16, 32, 64) or op in ('and', 'lshr') and a[0] == 't' and a[1] == 'cat' or op == 'add' and w < 64 and a[0] == b[0] == 't':
            v = ('t', op, a, b, w)
            r = st.bytesof(v, w // 8)
            if r and not (r[0][0] == 't' and r[0][1] == 'byte' and r[0][2] == v):
                return st.cat(r, w)
        return self.mkt(st, op, a, b, w)

    # --- calls
    def doret(self, st, v, i):
        fr = st.frames[-1]
        fname = fr.fn.dname
        for m in self.monitors:
            m.ret(self, st, fname, v, i)
        # forget this frame's locals
        d = len(st.frames) - 1
        for o in [o for o in st.mem if o[0] == 'a' and o[1] >= d]:
            del st.mem[o]
        st.frames.pop()
        if fr.kind == 'root':
            self.stats['exits'] += 1
            for m in self.monitors:
                m.exit(self, st, 'return', v, i)
            return []
        if fr.kind == 'unwind':
            return self.unwind(st)
        c = st.frames[-1]
        ci = c.fn.blocks[c.blk][c.idx]
        if fr.kind == 'call' and v is not None:
            c.regs[ci.id] = v
        return self.after(st)

    def after(self, st):
        """advance past the call instruction of the top frame"""
        c = st.frames[-1]
        ci = c.fn.blocks[c.blk][c.idx]
        if ci.d.get('invoke'):
            s = self.goto(st, ci.d['succ'][0])
            return [s] if s else []
        c.idx += 1
        return [st]

    def unwind(self, st):
        if st.cstack:
            fn, arg = st.cstack[-1]
            st.cstack = st.cstack[:-1]
            if fn[0] == 'f' and fn[1] in self.mod.defined and fn[1] not in self.atomic:
                f = self.mod.defined[fn[1]]
                self.fns_seen.add(f.name)
                self.push(st, f, [arg], 'unwind')
                return [st]
            ins = self.cur(st)
            r = self.external(st, fn[1] if fn[0] == 'f' else '?', [arg], ins)
            out = []
            for s, _ in r:
                out += self.unwind(s)
            return out
        self.stats['exits'] += 1
        for m in self.monitors:
            m.exit(self, st, 'cancel', None, self.cur(st))
        return []

    def cur(self, st):
        for f in reversed(st.frames):
            return f.fn.blocks[f.blk][min(f.idx, len(f.fn.blocks[f.blk]) - 1)]

    def push(self, st, f, args, kind):
        regs = {}
        for a, v in zip(f.args, args):
            regs[a[0]] = v
        st.frames.append(Frame(f, regs, 0, 0, kind))

    def docall(self, st, i):
        fr = st.frames[-1]
        regs = fr.regs
        cal = i.d['callee']
        args = [self.opval(st, regs, o) for o in i.ops]
        if cal[0] == 'f':
            name = cal[1]
        elif cal[0] == 'asm':
            regs[i.id] = st.fresh(tyrange(i.ty))
            return self.after(st)
        else:
            v = self.opval(st, regs, cal)
            if v[0] == 'f':
                name = v[1]
            else:
                for m in self.monitors:
                    r = m.icall(self, st, v, args, i)
                    if r == 'stop':
                        return []
                    if r is not None:
                        return self.finish(r, i)
                regs[i.id] = st.fresh(tyrange(i.ty))
                return self.after(st)
        f = self.mod.functions.get(name)
        dn = f.dname if f is not None and not f.decl else name
        self.stats['calls'] += 1
        self.sites_seen.add((fr.fn.name, i.id))
        pair = self.precall(st, dn, args, i)
        if pair is not None:
            return pair
        if f is not None and not f.decl and dn not in self.atomic and dn not in self.noinline and \
                not (dn in LOGS and not self.log_inline) and dn not in self.models:
            if len(st.frames) >= self.depth or any(x.fn is f for x in st.frames):
                return self.finish([(st, self.unknown_result(st, args, i))], i)
            self.fns_seen.add(f.name)
            self.push(st, f, args, 'call')
            return [st]
        out = []
        states = [st]
        if dn in self.cancelpoints and self.use_cancel and st.cancel and not st.unw:
            s2 = st.copy()
            s2.unw = True
            self.stats['cancel_edges'] += 1
            self.note(s2, '%s cancelled in %s' % (self.mod.locstr(i), dn))
            if dn in ('pthread_cond_wait', 'pthread_cond_timedwait'):
                self.havoc_shared(s2)
            out += self.unwind(s2)
        out = self.finish(self.external(states[0], dn, args, i), i) + out
        return out

    def reargs(self, st, i):
        return [self.opval(st, st.frames[-1].regs, o) for o in i.ops]

    def precall(self, st, dn, args, i):
        for m in self.monitors:
            r = m.call(self, st, dn, args, i)
            if r == 'stop':
                return []
            if r is not None:
                extra = []
                if dn in self.cancelpoints and self.use_cancel and st.cancel and not st.unw:
                    pass
                return self.finish(r, i) + extra
        return None

    def cancel_here(self, st, i, dn):
        """explicit cancellation edge for monitors that replace a call"""
        if self.use_cancel and st.cancel and not st.unw:
            s2 = st.copy()
            s2.unw = True
            self.stats['cancel_edges'] += 1
            self.note(s2, '%s cancelled in %s' % (self.mod.locstr(i), dn))
            return self.unwind(s2)
        return []

    def finish(self, results, i):
        out = []
        for s, v in results:
            if isinstance(v, list):        # already advanced states
                out += v
                continue
            if v is not None:
                s.frames[-1].regs[i.id] = v
            out += self.after(s)
        return out

    def unknown_result(self, st, args, i):
        for a in args:
            self.havoc_arg(st, a)
        return st.fresh(tyrange(i.ty)) if i.ty != 'void' else None

    def external(self, st, dn, args, i):
        if dn in LOGS and not self.log_inline:
            if args and args[0][0] == 'i' and args[0][1] == self.emerg:
                for m in self.monitors:
                    m.exit(self, st, 'noreturn', None, i)
                return []
            return [(st, None)]
        f = self.models.get(dn)
        if f:
            return f(self, st, dn, args, i)
        if i.d.get('noret') or (dn in self.mod.functions and self.mod.functions[dn].noreturn) or \
                dn in ('abort', 'exit', '_exit', '__assert_fail'):
            for m in self.monitors:
                m.exit(self, st, 'noreturn', None, i)
            return []
        if dn in NOHAVOC or dn.startswith('llvm.'):
            return [(st, st.fresh(tyrange(i.ty)) if i.ty != 'void' else None)]
        return [(st, self.unknown_result(st, args, i))]


# --- models of library calls
def m_lock(eng, st, dn, args, i):
    m = args[0]
    what = 'relock' if m in st.locks else 'acquire'
    for mon in eng.monitors:
        mon.lock(eng, st, what, m, i)
    st.locks = st.locks + (m,)
    eng.havoc_shared(st)
    return [(st, ZERO)]


def m_unlock(eng, st, dn, args, i):
    m = args[0]
    what = 'release' if m in st.locks else 'notheld'
    for mon in eng.monitors:
        mon.lock(eng, st, what, m, i)
    l = list(st.locks)
    if m in l:
        l.reverse()
        l.remove(m)
        l.reverse()
    st.locks = tuple(l)
    return [(st, ZERO)]


def m_wait(eng, st, dn, args, i):
    m = args[1]
    if m not in st.locks:
        for mon in eng.monitors:
            mon.lock(eng, st, 'waitnotheld', m, i)
    eng.havoc_shared(st)
    if dn == 'pthread_cond_wait':
        return [(st, ZERO)]
    s2 = st.copy()
    return [(st, ZERO), (s2, ('i', 110))]


def m_push(eng, st, dn, args, i):
    st.cstack = st.cstack + ((args[0], args[1]),)
    return [(st, None)]


def m_pop(eng, st, dn, args, i):
    if not st.cstack:
        raise AnalysisError('cleanup pop without push at ' + eng.mod.locstr(i))
    fn, arg = st.cstack[-1]
    st.cstack = st.cstack[:-1]
    if args[0] == ZERO:
        return [(st, None)]
    if fn[0] != 'f':
        return [(st, None)]
    f = eng.mod.functions.get(fn[1])
    dn = f.dname if f and not f.decl else fn[1]
    r = eng.precall(st, dn, [arg], i)
    if r is not None:
        return [(st, r)]
    if f and not f.decl and dn not in eng.atomic:
        eng.fns_seen.add(f.name)
        eng.push(st, f, [arg], 'pop')
        return [(st, [st])]
    return eng.external(st, dn, [arg], i)


def m_setcancel(eng, st, dn, args, i):
    old = ZERO if st.cancel else ONE
    if args[1][0] == 'p' and args[1][2][0] == 'i':
        st.write(args[1][1], args[1][2][1], 4, old)
    v = args[0]
    if v[0] == 'i':
        st.cancel = v[1] == 0
    else:
        st.cancel = True
    return [(st, ZERO)]


def m_malloc(eng, st, dn, args, i):
    n = st.fresh()[1]
    s2 = st.copy()
    size = args[0]
    if dn == 'calloc':
        size = eng.binop(st, 'mul', args[0], args[1], 64)
    st.mem[('h', n)] = {HSIZE: (0, size)}
    if dn == 'calloc' and size[0] == 'i':
        st.mem[('h', n)][0] = (size[1], ('z',))
    eng.note(s2, '%s %s fails' % (eng.mod.locstr(i), dn))
    return [(st, ('p', ('h', n), ZERO)), (s2, ZERO)]


def m_free(eng, st, dn, args, i):
    eng.havoc_arg(st, args[0])
    return [(st, None)]


def m_memset(eng, st, dn, args, i):
    p, v, n = args[0], args[1], args[2]
    if p[0] == 's':
        obj, off = ('d', p[1]), ('i', p[2])
    elif p[0] == 'p':
        obj, off = p[1], p[2]
    else:
        return [(st, p)]
    for mon in eng.monitors:
        mon.store(eng, st, obj, off, n if n[0] != 'i' else n[1], None, i)
    if off[0] == 'i' and n[0] == 'i':
        st.kill(obj, off[1], off[1] + n[1])
        if v == ZERO and n[1] > 0:
            st.write(obj, off[1], n[1], ('z',))
    else:
        st.kill(obj)
    return [(st, p)]


def m_memcpy(eng, st, dn, args, i):
    if eng.split and args[2][0] != 'i':
        out = []
        sp = st.split(args[2], eng.split)
        for s, k in sp or ():
            # the operands may have become known as well
            a = eng.reargs(s, i)
            a[2] = ('i', k)
            out += m_memcpy(eng, s, dn, a, i)
        if sp is not None:
            return out
    d, s, n = args[0], args[1], args[2]

    def ad(p):
        if p[0] == 's':
            return ('d', p[1]), ('i', p[2])
        if p[0] == 'p':
            return p[1], p[2]
        return None
    da, sa = ad(d), ad(s)
    for mon in eng.monitors:
        if sa:
            mon.load(eng, st, sa[0], sa[1], n if n[0] != 'i' else n[1], i)
        if da:
            mon.store(eng, st, da[0], da[1], n if n[0] != 'i' else n[1], None, i)
    if da is None:
        return [(st, d)]
    if da[1][0] == 'i' and n[0] == 'i' and sa is not None and sa[1][0] == 'i':
        so, do, nn = sa[1][1], da[1][1], n[1]
        cells = {}
        if sa[0][0] == 'g' and sa[0][1] in eng.mod.globals and eng.mod.globals[sa[0][1]].constant:
            g = eng.mod.globals[sa[0][1]]
            if nn <= 4096:
                if g.cells is None:
                    cells[0] = (nn, ('z',))
                else:
                    for o, sz, v in g.cells:
                        if v[0] == 'zero':
                            lo, hi = max(o, so), min(o + sz, so + nn)
                            if lo < hi:
                                cells[lo - so] = (hi - lo, ('z',))
                        elif v[0] == 'bytes':
                            for x, b in enumerate(v[1]):
                                if so <= o + x < so + nn:
                                    cells[o + x - so] = (1, ('i', b))
                        elif so <= o and o + sz <= so + nn:
                            cells[o - so] = (sz, eng.opval(st, {}, v))
        else:
            for k, (sz, v) in list(st.mem.get(sa[0], {}).items()):
                if not isinstance(k, int):
                    continue
                if so <= k and k + sz <= so + nn:
                    cells[k - so] = (sz, v)
                elif v == ('z',):
                    lo, hi = max(k, so), min(k + sz, so + nn)
                    if lo < hi:
                        cells[lo - so] = (hi - lo, v)
        st.kill(da[0], do, do + nn)
        for k, (sz, v) in cells.items():
            st.write(da[0], do + k, sz, v)
    elif da[1][0] == 'i' and n[0] != 'i':
        hi = st.rng(n)[1]
        st.kill(da[0], da[1][1], da[1][1] + hi)
    else:
        lo = st.rng(da[1])[0]
        hi = st.rng(da[1])[1] + st.rng(n)[1]
        st.kill(da[0], lo, hi)
    return [(st, d)]


def m_fork(eng, st, dn, args, i):
    s2, s3 = st.copy(), st.copy()
    eng.note(st, '%s fork: parent' % eng.mod.locstr(i))
    eng.note(s2, '%s fork: child' % eng.mod.locstr(i))
    eng.note(s3, '%s fork: failed' % eng.mod.locstr(i))
    return [(st, st.fresh((1, (1 << 31) - 1))), (s2, ZERO), (s3, ('i', -1))]


def m_exec(eng, st, dn, args, i):
    return [(st, ('i', -1))]


def m_bswap(eng, st, dn, args, i):
    v = args[0]
    w = int(dn.replace('.i', '_').rsplit('_', 1)[1])
    if v[0] == 'i':
        return [(st, ('i', norm(int.from_bytes(uns(v[1], w).to_bytes(w // 8, 'little'), 'big'), w)))]
    b = st.bytesof(v, w // 8)
    if b:
        return [(st, st.cat(b[::-1], w))]
    return [(st, st.fresh(tyrange('i%d' % w)))]


def m_netorder(eng, st, dn, args, i):
    return m_bswap(eng, st, 'bswap_%d' % (16 if dn[-1] == 's' else 32), args, i)


def m_expect(eng, st, dn, args, i):
    return [(st, args[0])]


def m_nullor(lo=1, hi=PMAX):
    def f(eng, st, dn, args, i):
        return [(st, st.fresh((0, PMAX)))]
    return f


def m_size(eng, st, dn, args, i):
    return [(st, st.fresh((0, PMAX)))]


def m_ssize(eng, st, dn, args, i):
    """read-like: -1 .. n"""
    hi = st.rng(args[2])[1]
    if dn in ('recv', 'read'):
        p = args[1]
        obj = p[1] if p[0] == 'p' else ('d', p[1]) if p[0] == 's' else None
        off = p[2] if p[0] == 'p' else ('i', p[2]) if p[0] == 's' else None
        if obj:
            for mon in eng.monitors:
                mon.store(eng, st, obj, off, args[2] if args[2][0] != 'i' else args[2][1], None, i)
            if off[0] == 'i':
                st.kill(obj, off[1], off[1] + max(hi, 0))
            else:
                st.kill(obj)
    if eng.relational and args[1][0] in 'sp':
        return [(st, within(st, args[1], args[2], -1, 0)[0])]
    r = st.fresh((-1, max(hi, 0)))
    if eng.relational and args[2][0] != 'i':
        st.setdiff(r, args[2], FULL[0], 0)
    return [(st, r)]


def within(st, p, n, lo, hi):
    """some place between p + lo and p + n + hi: (distance from p, pointer)"""
    o = p[2] if p[0] == 'p' else ('i', p[2])
    obj = p[1] if p[0] == 'p' else ('d', p[1])
    if o[0] == 'i':
        r = st.fresh((lo, max(st.rng(n)[1] + hi, lo)))
        if n[0] != 'i':
            st.setdiff(r, n, FULL[0], hi)
        return r, padd(p, r)
    end = vadd(o, n)
    l, h = st.rng(o)[0] + lo, st.rng(end)[1] + hi
    f = st.fresh((l, max(l, h)))
    st.setdiff(f, o, lo, FULL[1])
    if end[0] != 'i':
        st.setdiff(f, end, FULL[0], hi)
    at, k = lin(('t', 'sub', f, o, 64))
    return mkadd(at, k), ('p', obj, f)


def m_memchr(eng, st, dn, args, i):
    if not eng.relational or args[0][0] not in 'sp':
        return [(st, st.fresh((0, PMAX)))]
    if eng.split and args[2][0] != 'i':
        out = []
        sp = st.split(args[2], eng.split)
        for s, k in sp or ():
            a = eng.reargs(s, i)
            a[2] = ('i', k)
            out += m_memchr(eng, s, dn, a, i)
        if sp is not None:
            return out
    lo, hi = st.rng(args[2])
    if eng.split and lo == hi and hi <= eng.split:
        out = []
        for k in range(hi):
            s2 = st.copy()
            eng.note(s2, '%s %s: found at %d' % (eng.mod.locstr(i), dn, k))
            out.append((s2, addk(args[0], k)))
        eng.note(st, '%s %s: not found' % (eng.mod.locstr(i), dn))
        return [(st, ZERO)] + out
    s2 = st.copy()
    eng.note(st, '%s %s: not found' % (eng.mod.locstr(i), dn))
    out = [(st, ZERO)]
    if hi > 0:
        if lo < 1 and not (s2.setcon(args[2], 1, FULL[1]) if args[2][0] in 'st' else True):
            return out
        eng.note(s2, '%s %s: found' % (eng.mod.locstr(i), dn))
        r = within(s2, args[0], args[2], 0, -1)[1]
        if r[0] != 'p' or r[1][0] not in 'dh' or args[1][0] != 'i':
            out.append((s2, r))
            return out
        # places with another character are different
        new = [s2]
        for t in [t for t in s2.con if t[0] == 't' and t[1] == 'at' and t[2][1] == r[1] and t[3] != args[1]]:
            new, old = [], new
            for s in old:
                lo, hi = s.diff(r[2], t[2][2])
                if lo < 0:
                    s3 = s.copy()
                    if s3.setdiff(r[2], t[2][2], FULL[0], -1):
                        new.append(s3)
                if hi > 0 and s.setdiff(r[2], t[2][2], 1, FULL[1]):
                    new.append(s)
        for s in new:
            s.con[('t', 'at', r, args[1], 64)] = (1, 1, ())
            out.append((s, r))
    return out


def m_fd(eng, st, dn, args, i):
    return [(st, st.fresh((-1, 1 << 20)))]


def m_noop(eng, st, dn, args, i):
    return [(st, st.fresh(tyrange(i.ty)) if i.ty != 'void' else None)]


DEFAULT_MODELS = {
    'pthread_mutex_lock': m_lock, 'pthread_mutex_unlock': m_unlock,
    'pthread_cond_wait': m_wait, 'pthread_cond_timedwait': m_wait,
    '__vp_cleanup_push': m_push, '__vp_cleanup_pop': m_pop,
    'pthread_setcancelstate': m_setcancel,
    'malloc': m_malloc, 'calloc': m_malloc, 'free': m_free,
    'ntohs': m_netorder, 'htons': m_netorder, 'ntohl': m_netorder, 'htonl': m_netorder,
    'fork': m_fork, 'vfork': m_fork,
    'execv': m_exec, 'execve': m_exec, 'execvp': m_exec, 'execl': m_exec, 'execlp': m_exec,
    'strlen': m_size, 'fopen': m_nullor(), 'strchr': m_nullor(), 'memchr': m_memchr,
    'recv': m_ssize, 'read': m_ssize, 'send': m_ssize, 'write': m_ssize,
    'open': m_fd, 'socket': m_fd, 'accept': m_fd,
}
for _w in (16, 32, 64):
    DEFAULT_MODELS['llvm.bswap.i%d' % _w] = DEFAULT_MODELS['__bswap_%d' % _w] = m_bswap
for _w in (1, 8, 16, 32, 64):
    DEFAULT_MODELS['llvm.expect.i%d' % _w] = m_expect
    DEFAULT_MODELS['llvm.memset.p0.i%d' % _w] = m_memset
    DEFAULT_MODELS['llvm.memcpy.p0.p0.i%d' % _w] = m_memcpy
    DEFAULT_MODELS['llvm.memmove.p0.p0.i%d' % _w] = m_memcpy
DEFAULT_MODELS['memcpy'] = m_memcpy
DEFAULT_MODELS['memset'] = m_memset
DEFAULT_MODELS['memmove'] = m_memcpy
