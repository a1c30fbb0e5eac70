from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
G = lambda n: ('p', ('g', n), F)
# AM335x Technical Reference Manual
BASES = (0x44e07000, 0x4804c000, 0x481ac000, 0x481ae000)
OE, DATAIN, CLEAR, SET = 0x134, 0x138, 0x190, 0x194
ONES = 0xffffffff
PULSE = 30                  # seconds between two pulses for the watchdog, at most
TRIES = 2                   # attempts to program the FPGA, at least
RESET = 2                   # microseconds a reset takes, at least
OPS = ('GPIO_set', 'GPIO_clear', 'GPIO_read', 'GPIO_setDirection')
PINS = ('confd', 'dclk', 'nstat', 'data0', 'nconf')


def comp(m, name):
    for k, c in m.comps().items():
        if m.globals[k].dname == name or k == name:
            return c
    raise AnalysisError('%s: component %s not found' % (m.key, name))


def fn(m, c, field):
    v = c.get(field)
    if not v or v[0] != 'f':
        raise AnalysisError('%s: %s of a component not found' % (m.key, field))
    return m.functions[v[1]]


def collect(e, f, args, st):
    """final states of a call which does not fail"""
    outs = []

    class Keep(eng.Monitor):
        key = 'keep'

        def exit(self, e, s, kind, v, i):
            if kind == 'return' and (v is None or e.truth(s, v) is not False):
                outs.append(s.copy())
    e.monitors.append(Keep())
    e.run(f, args, st)
    e.monitors.pop()
    return outs


class Map(eng.Monitor):
    """mapping of the registers"""
    key = 'm'
    init = ()

    def __init__(self, res):
        self.res = res

    def call(self, e, st, name, args, i):
        if name in ('open', 'open64'):
            return [(st, ('i', 5)), (st.copy(), ('i', -1))]
        if name in ('mmap', 'mmap64'):
            self.res.n['mapped'] += 1
            n, prot, flags, off = (a[1] if a[0] == 'i' else None for a in (args[1], args[2], args[3], args[5]))
            if None in (n, prot, flags, off) or off not in BASES:
                e.report('registers', i, 'other memory than the registers is mapped', st)
                return
            if n < SET + 4 or n > 4096 or prot & 3 != 3 or flags & 3 != 1 or args[4] != ('i', 5):
                e.report('registers', i, 'the registers cannot be used as mapped', st)
            return [(st, G('*ctl%x' % off)), (st.copy(), ('i', -1))]
        if name in ('munmap', 'close'):
            return [(st, F)]


class Access(eng.Monitor):
    """one operation.  mon a: what was written"""
    key = 'a'
    init = ()

    def __init__(self, res):
        self.res = res

    def at(self, e, st, obj, off, size, i):
        if obj[0] != 'g' or not obj[1].startswith('*ctl'):
            return None
        self.res.n['accesses'] += 1
        if off[0] != 'i' or size != 4:
            e.report('registers', i, 'a register is not accessed as a whole', st)
            return None
        return int(obj[1][4:], 16), off[1]

    def store(self, e, st, obj, off, size, val, i):
        r = self.at(e, st, obj, off, size, i)
        if r:
            v = val[1] & ONES if val is not None and val[0] == 'i' else None
            st.mon['a'] = st.mon['a'] + ((r, v),)

    def load(self, e, st, obj, off, size, i):
        self.at(e, st, obj, off, size, i)

    def exit(self, e, st, kind, v, i):
        w = st.mon['a']
        if kind != 'return':
            return e.report('registers', i, 'using a pin ends the daemon', st)
        if w != self.want:
            if not w:
                e.report('pin', i, '%s does nothing' % self.op, st)
            elif any(r != q for (r, _), (q, _) in zip(w, self.want)):
                e.report('pin', i, '%s changes another register' % self.op, st)
            else:
                e.report('pin', i, '%s changes another pin, or not its own' % self.op, st)
        if self.value is not None and e.truth(st, v) is not self.value:
            e.report('pin', i, 'the state of a pin is not reported', st)


class Pins(eng.Monitor):
    """use of the pins by a component.  mon p: directions"""
    key = 'p'
    init = ()

    def __init__(self, m, res):
        self.res = res
        self.ops = {rules.api(m, o).name: o for o in OPS}
        self.used = set()

    def call(self, e, st, name, args, i):
        op = self.ops.get(name)
        if op is None:
            return
        self.res.n['pins'] += 1
        if args[0][0] != 'i':
            e.report('direction', i, 'any pin is used', st)
            return [(st, None)]
        pin, d = args[0][1], dict(st.mon['p'])
        self.used.add(pin)
        if not 0 <= pin < 32 * len(BASES):
            e.report('direction', i, 'there is no such pin', st)
        if op == 'GPIO_setDirection':
            d[pin] = args[1]
            st.mon['p'] = tuple(sorted(d.items()))
            return [(st, None)]
        self.check(e, st, op, pin, d, i)
        return self.operate(e, st, op, pin, i)

    def check(self, e, st, op, pin, d, i):
        if d.get(pin) != (self.inp if op == 'GPIO_read' else self.out):
            e.report('direction', i, 'a pin is %s which is no %s' % (('read', 'input') if op == 'GPIO_read' else ('set or cleared', 'output')), st)

    def operate(self, e, st, op, pin, i):
        if op == 'GPIO_read':
            return [(st, F), (st.copy(), T)]
        return [(st, None)]


class Watchdog(Pins):
    """mon w: level, microseconds waited since the last pulse"""
    keys = ('w',)

    def operate(self, e, st, op, pin, i):
        if op != 'GPIO_read':
            level, t = st.mon['w']
            st.mon['w'] = op == 'GPIO_set', 0 if level and op == 'GPIO_clear' else t
        return super().operate(e, st, op, pin, i)

    def call(self, e, st, name, args, i):
        if name in ('sleep', 'usleep', 'nanosleep', 'clock_nanosleep', 'poll', 'select'):
            self.res.n['waits'] += 1
            t = args[0][1] * (1 if name == 'usleep' else 10 ** 6) if args[0][0] == 'i' and name in ('sleep', 'usleep') else None
            level, w = st.mon['w']
            if t is None or w + t > PULSE * 10 ** 6:
                e.report('watchdog', i, 'the watchdog is not triggered in time', st)
                t = 0
            elif t <= 0:
                e.report('watchdog', i, 'the watchdog is triggered without pause', st)
            st.mon['w'] = level, w + t
            return [(st, st.fresh((0, PULSE)))]
        return super().call(e, st, name, args, i)

    def exit(self, e, st, kind, v, i):
        if kind in ('return', 'noreturn') and self.loop:
            e.report('watchdog', i, 'the watchdog is no longer triggered', st)


class Program(Pins):
    """mon f: (data, clock, phase, bits of this byte, parity of the byte, byte checked, done, attempts); *next: next position and size of the file
    phases: '', low, reset, high, ready, failed"""

    def start(self, st):
        st.mon['f'] = (None, False, '', 8, 0, True, False, 0)
        self.at(st, F, F)

    def at(self, st, pos, size=None):
        st.write(('g', '*next'), 0, 8, pos)
        if size is not None:
            st.write(('g', '*next'), 8, 8, size)

    def where(self, st):
        r = [st.peek(('g', '*next'), k, 8) for k in (0, 8)]
        for k in range(2):
            if r[k] is None:
                r[k] = st.fresh((0, 1 << 62))
                st.write(('g', '*next'), 8 * k, 8, r[k])
        return r

    def set(self, st, **kw):
        names = ('data', 'clock', 'phase', 'bits', 'odd', 'checked', 'done', 'tries')
        st.mon['f'] = tuple(kw.get(n, x) for n, x in zip(names, st.mon['f']))

    def operate(self, e, st, op, pin, i):
        data, clock, phase, bits, odd, checked, done, tries = st.mon['f']
        role = self.roles.get(pin)
        if role is None:
            e.report('protocol', i, 'another pin is used to program the FPGA', st)
            return super().operate(e, st, op, pin, i)
        high = op == 'GPIO_set'
        if op == 'GPIO_read':
            out = []
            for v in (F, T):
                s = st.copy()
                if role == 'nstat':
                    if phase == 'high':
                        if v == T:
                            self.set(s, phase='ready')
                    elif phase == 'ready':
                        if v == T:
                            if bits == 8:
                                self.set(s, checked=True)
                        else:
                            self.set(s, phase='failed')
                elif role == 'confd':
                    self.set(s, done=v == T and phase == 'ready' and bits == 8)
                out.append((s, v))
            return out
        if role == 'nconf':
            if high:
                if phase != 'reset':
                    e.report('protocol', i, 'the FPGA is not reset long enough', st)
                if clock:
                    e.report('protocol', i, 'the FPGA is reset while its clock is high', st)
                self.set(st, phase='high', bits=8, odd=0, checked=True, done=False)
                self.at(st, F)
            else:
                if phase == 'ready' and bits == 8 and done and self.complete(e, st) is True:
                    e.report('protocol', i, 'the FPGA is reset although it was programmed', st)
                self.set(st, phase='low', tries=min(tries + 1, 9))
        elif role == 'data0':
            if clock:
                e.report('protocol', i, 'data changes while the clock is high', st)
            self.set(st, data=high)
        elif role == 'dclk':
            if high and not clock:
                if phase != 'ready' or bits == 8:
                    e.report('protocol', i, 'a bit is transferred which is not in the file, or to an FPGA which is not ready', st)
                elif data is not bool(self.byte(1 - odd) >> bits & 1):
                    e.report('data', i, 'another bit is transferred than the one in the file', st)
                self.set(st, bits=min(bits + 1, 8), checked=False)
                self.res.n['bits'] += 1
            self.set(st, clock=high)
        return [(st, None)]

    def byte(self, odd):
        return self.value ^ (255 if odd else 0)

    def complete(self, e, st):
        pos, size = self.where(st)
        return e.cmp(st, 'sge', pos, size, 64)        # never more, see loaded

    def loaded(self, e, st, obj, off, size, v, i):
        if obj != ('g', '*file'):
            return
        data, clock, phase, bits, odd, checked, done, tries = st.mon['f']
        pos, total = self.where(st)
        if phase != 'ready':
            e.report('protocol', i, 'the file is transferred to an FPGA which is not ready', st)
            return
        if size != 1:
            raise AnalysisError('the file is not read byte by byte')
        if e.cmp(st, 'eq', off, pos, 64) is not True:
            if bits < 8 and st.diff(off, pos) == (-1, -1):
                return ('i', self.byte(1 - odd))        # the same byte again
            e.report('data', i, 'bytes of the file are not transferred one after the other', st)
            return
        if bits != 8:
            e.report('data', i, 'a byte of the file is transferred only in part', st)
        elif not checked:
            e.report('protocol', i, 'the FPGA is not asked whether it received the byte', st)
        if e.cmp(st, 'slt', off, total, 64) is not True:
            e.report('data', i, 'more is transferred than the file contains', st)
        self.set(st, bits=0, odd=1 - odd, checked=False)
        self.at(st, eng.addk(off, 1))
        return ('i', self.byte(odd))

    def call(self, e, st, name, args, i):
        if name in ('usleep', 'sleep', 'nanosleep'):
            t = args[0][1] * (1 if name == 'usleep' else 10 ** 6) if args[0][0] == 'i' and name != 'nanosleep' else RESET
            if st.mon['f'][2] == 'low' and t >= RESET:
                self.set(st, phase='reset')
            return [(st, F)]
        if name in ('stat', 'stat64', 'lstat'):
            e.havoc_arg(st, args[1])
            return [(st, F), (st.copy(), ('i', -1))]
        if name in ('fstat', 'fstat64'):
            s = st.copy()
            e.havoc_arg(st, args[1])
            n = st.fresh((1, (1 << 31) - 1))
            if args[1][0] == 'p' and args[1][2][0] == 'i':
                st.write(args[1][1], args[1][2][1] + self.sizeoff, 8, n)
            self.at(st, F, n)
            return [(st, F), (s, ('i', -1))]
        if name in ('open', 'open64'):
            return [(st, ('i', 5)), (st.copy(), ('i', -1))]
        if name in ('mmap', 'mmap64'):
            if args[1] != self.where(st)[1]:
                e.report('data', i, 'another part of the file is used', st)
            return [(st, G('*file')), (st.copy(), ('i', -1))]
        if name in ('munmap', 'close'):
            return [(st, F)]
        return super().call(e, st, name, args, i)

    def exit(self, e, st, kind, v, i):
        if not self.programs:
            return
        self.res.n['programmed'] += 1
        data, clock, phase, bits, odd, checked, done, tries = st.mon['f']
        ok = kind == 'return' and e.truth(st, v)
        good = phase == 'ready' and bits == 8 and done and self.complete(e, st) is True
        if kind != 'return':
            e.report('protocol', i, 'programming the FPGA ends the daemon', st)
        elif ok is not False and not good:
            e.report('status', i, 'the FPGA counts as programmed although it is not', st)
        elif ok is not True and good:
            e.report('status', i, 'the FPGA counts as not programmed although it is', st)
        elif ok is not True and tries and tries < TRIES:
            e.report('status', i, 'programming the FPGA is not tried again', st)
        if clock:
            e.report('protocol', i, 'the clock of the FPGA stays high', st)


class C30(Check):
    id = 'C30'
    title = 'Only own pins are driven; the FPGA gets its file, the watchdog its pulses'
    rule = ('Every operation on every pin is evaluated for the registers it changes; all paths of starting the FPGA and of the watchdog are checked as typestate over the pins: direction, reset, status, the order of bits, '
            'completeness, pulses before each wait.')
    quick = ['rc', 'wd']
    thorough = ['rc', 'wd']
    minimum = {'mapped': 8, 'operations': 1000, 'accesses': 1000, 'pins': 100, 'waits': 2, 'bits': 100, 'programmed': 10}

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            out += [(p, 'gpio', k) for k in range(len(BASES))]
            out.append((p, 'watchdog', 0))
            if p == 'rc':
                out += [(p, 'fpga', (v, v == 1)) for v in (0x0f, 0x33, 0x55, 0x01)]          # tells all positions of bits apart
                out.append((p, 'apart', 0))
        return out

    def run(self, job, res):
        m = ir.load(job[0])
        getattr(self, job[1])(m, res, job[2])

    def direction(self, m):
        """values of the directions, by what they do"""
        out = {}
        for st in self.mapped(m, None):
            for d in (0, 1):
                s = st.copy()
                for b in BASES:
                    s.write(('g', '*ctl%x' % b), OE, 4, F)
                a = Access(None)
                a.res = self.dummy
                a.want, a.value, a.op = None, None, ''
                seen = []
                a.exit = lambda e, x, kind, v, i: seen.append(x.mon['a'])
                s.mon['a'] = ()
                eng.Engine(m, [a], cancel=False, shared=lambda g: False).run(rules.api(m, 'GPIO_setDirection'), [F, ('i', d)], s)
                out['in' if any(v and v & 1 for w in seen for _, v in w) else 'out'] = ('i', d)
        if set(out) != {'in', 'out'}:
            raise AnalysisError('%s: directions of pins not found' % m.key)
        return out

    def mapped(self, m, res):
        from vpa.check import Result
        self.dummy = Result()
        mon = Map(res or self.dummy)
        e = eng.Engine(m, [mon], cancel=False, shared=lambda g: False, K=40)
        st = e.initial_state()
        e.set_globals_initial(st)
        outs = collect(e, fn(m, comp(m, 'GPIO_comp'), 'onConstruct'), [], st)
        if res is not None:
            res.take(e)
        if not outs:
            raise AnalysisError('%s: no GPIO can be initialized' % m.key)
        return outs

    def gpio(self, m, res, k):
        base = BASES[k]
        dirs = {v: d for d, v in self.direction(m).items()}
        for st in self.mapped(m, res if k == 0 else None):
            for pin in range(32 * k, 32 * k + 32):
                bit = 1 << (pin & 31)
                cases = [('GPIO_set', [], 0, ((base, SET), bit), None), ('GPIO_clear', [], 0, ((base, CLEAR), bit), None)]
                for x in (0, ONES, 0xaaaaaaaa, 0x55555555):
                    for v, d in dirs.items():
                        cases.append(('GPIO_setDirection', [v], x, ((base, OE), x | bit if d == 'in' else x & ~bit), None))
                for x in (0, ONES, bit, ONES ^ bit):
                    cases.append(('GPIO_read', [], x, None, bool(x & bit)))
                for op, args, x, want, value in cases:
                    s = st.copy()
                    for b in BASES:
                        for r in (OE, DATAIN):
                            s.write(('g', '*ctl%x' % b), r, 4, ('i', x if b == base and (r == DATAIN) == (op == 'GPIO_read') else ONES ^ x))
                    mon = Access(res)
                    mon.op, mon.want, mon.value = op, (want,) if want else (), value
                    s.mon['a'] = ()
                    f = rules.api(m, op)
                    e = eng.Engine(m, [mon], cancel=False, shared=lambda g: False)
                    e.run(f, [('i', pin)] + args, s)
                    res.n['operations'] += 1
                    res.take(e)

    def engine(self, m, mon, **kw):
        d = self.direction(m)
        mon.inp, mon.out = d['in'], d['out']
        return eng.Engine(m, [mon], cancel=False, shared=lambda g: False, noinline=set(mon.ops), **kw)

    def watchdog(self, m, res, _):
        c = comp(m, 'WD_comp')
        mon = Watchdog(m, res)
        e = self.engine(m, mon)
        st = e.initial_state()
        e.set_globals_initial(st)
        mon.loop = False
        st.mon['p'], st.mon['w'] = (), (None, 0)
        outs = collect(e, fn(m, c, 'onConstruct'), [], st)
        mon.loop = True
        for s in outs:
            s.mon['w'] = s.mon['w'][0], 0
            e.run(fn(m, c, 'main'), [], s)
        res.take(e)
        return mon.used

    def roles(self, m, white):
        g = [g for g in m.globals.values() if str(g.d.get('dtype')).startswith('FPGApins[')]
        if len(g) != 1:
            raise AnalysisError('%s: pins of the FPGA not found' % m.key)
        n = m.structs['FPGApins']['size']
        for k in range(g[0].d['size'] // n):
            if (m.string(g[0].read(k * n + m.field('FPGApins', 'name')[0], 8)) == 'white') == white:
                r = {g[0].read(k * n + m.field('FPGApins', p)[0], 4)[1]: p for p in PINS}
                if len(r) == len(PINS):
                    return r
        raise AnalysisError('%s: pins of the FPGA not found' % m.key)

    def fpga(self, m, res, job):
        value, white = job
        c = comp(m, 'FPGA_comp')
        mon = Program(m, res)
        mon.roles, mon.value, mon.programs = self.roles(m, white), value, False
        mon.sizeoff = m.field('stat', 'st_size')[0]
        e = self.engine(m, mon, relational=True, K=4)
        st = e.initial_state()
        e.set_globals_initial(st, lambda g: True)
        b = [g for g in m.globals.values() if g.dname == 'FPGA_bbwhite']
        if len(b) != 1:
            raise AnalysisError('%s: type of the board not found' % m.key)
        st.write(('g', b[0].name), 0, 1, ('i', int(white)))
        st.mon['p'] = ()
        mon.start(st)
        outs = collect(e, fn(m, c, 'onConstruct'), [], st)
        mon.programs = True
        for s in outs:
            mon.start(s)
            e.run(fn(m, c, 'onStart'), [], s)
        res.take(e)

    def apart(self, m, res, _):
        from vpa.check import Result
        r = Result()
        x = self.watchdog(m, r, 0) & set(self.roles(m, True)) | self.watchdog(m, r, 0) & set(self.roles(m, False))
        if x:
            res.viol('direction', fn(m, comp(m, 'WD_comp'), 'onConstruct').name, 'a pin of the FPGA is used for the watchdog')
        res.n['apart'] += 1


CHECK = C30()
