import math

from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
BOOL, INT, STRING, PORT, DOUBLE = 'bool', 'int', 'string', 'port', 'double'
BASE = 10 ** 15             # doubles are represented by constants from here
# smallest values the rest of the code can work with
MINIMA = {('buffer', 'staticbacklog'): 2, ('buffer', 'gclevel'): 1, ('buffer', 'gcinterval'): 1, ('network', 'timeout'): 1, ('statistics', 'interval'): 1}
RANGE = {'latitude': 90.0, 'longitude': 180.0}


class Cells:
    """the real numbers, split at the constants the code compares with; infinities and NaN"""

    def __init__(self, points):
        p = sorted({x for y in points for x in (y, -y)} | {0.0})
        self.val = [-math.inf, p[0] - 1]
        for k, x in enumerate(p):
            self.val += [x, (x + p[k + 1]) / 2 if k + 1 < len(p) else x + 1]
        self.val += [math.inf, math.nan]

    def const(self, k):
        return ('i', BASE + k)

    def of(self, v):
        return self.val[v[1] - BASE] if v[0] == 'i' and BASE <= v[1] < BASE + len(self.val) else None

    def find(self, x):
        for k, y in enumerate(self.val):
            if x == y or x != x and y != y:
                return self.const(k)


def points(m, fns):
    """constants doubles are compared with"""
    out = set()
    for f in fns:
        f = m.functions.get(f)
        if f is None or f.decl:
            continue
        for b in f.blocks:
            for i in b:
                if i.op == 'fcmp':
                    out |= {float(o[1]) for o in i.ops if o[0] == 'fp' and math.isfinite(float(o[1]))}
    return out | set(RANGE.values())


class Doubles(eng.Monitor):
    key = 'd'
    init = ()

    def __init__(self, cells):
        self.cells = cells

    def value(self, e, st, o):
        if o[0] == 'fp':
            return float(o[1])
        return self.cells.of(e.opval(st, st.frames[-1].regs, o))

    def fcmp(self, e, st, i):
        a, b = (self.value(e, st, o) for o in i.ops[:2])
        if a is None or b is None:
            return None
        nan, p = a != a or b != b, i.d['pred']
        if p in ('ord', 'uno'):
            return T if nan == (p == 'uno') else F
        if p in ('true', 'false'):
            return T if p == 'true' else F
        if nan:
            return T if p[0] == 'u' else F
        return T if {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]] else F

    def call(self, e, st, name, args, i):
        if name in ('llvm.fabs.f64', 'fabs'):
            x = self.cells.of(args[0])
            if x is not None:
                return [(st, self.cells.find(abs(x)))]
        if name.startswith('llvm.is.fpclass'):
            x = self.cells.of(args[0])
            if x is not None and args[1][0] == 'i':
                neg = math.copysign(1, x) < 0
                bit = 3 if x != x else 1 << (2 if neg else 9) if math.isinf(x) else 1 << (5 if neg else 6) if x == 0 else 1 << (3 if neg else 8)
                return [(st, T if args[1][1] & bit else F)]
        if name in ('strlen', 'strnlen') and args[0][0] == 'p' and args[0][2][0] == 'i':
            c = e.rd(st, args[0][1], args[0][2], 1, 'i8')
            z = e.cmp(st, 'eq', c, F, 8)
            if z is not None:
                return [(st, F if z else st.fresh((1, 1 << 20)))]
        if name in ('__isnan', 'isnan', '__finite', '__isinf'):
            x = self.cells.of(args[0])
            if x is not None:
                return [(st, T if {'_nan': x != x, '_fin': math.isfinite(x), '_inf': math.isinf(x)}['_' + name.strip('_').replace('is', '')[:3]] else F)]


class Verdict(eng.Monitor):
    """check of a section: does it find the configuration consistent?"""
    key = 'm'

    def __init__(self, res):
        self.res = res

    def store(self, e, st, obj, off, size, val, i):
        if (obj, off) in self.vars:
            e.report('change', i, 'checking the configuration changes it', st)

    def exit(self, e, st, kind, v, i):
        self.res.n['verdicts'] += 1
        if kind == 'noreturn':
            if self.want:
                e.report('reject', i, 'a consistent configuration is refused', e.note(st, self.what) or st)
        elif kind == 'return':
            r = e.truth(st, v)
            if r is not self.want:
                e.report('accept' if not self.want else 'reject', i, 'an inconsistent configuration is accepted' if not self.want else 'a consistent configuration is refused', e.note(st, self.what) or st)


class Fix(eng.Monitor):
    """options after fixing them"""
    key = 'm'

    def __init__(self, res):
        self.res = res

    def exit(self, e, st, kind, v, i):
        if kind == 'noreturn':
            e.report('fix', i, 'a configuration which can be adjusted ends the daemon', st)
        if kind != 'return':
            return
        self.res.n['fixed'] += 1
        for name, (obj, off), size, want in st.mon['m']:
            x = e.rd(st, obj, ('i', off), size, 'i%d' % (8 * size))
            if not (x == want or e.cmp(st, 'eq', x, want, 8 * size) is True):
                e.report('fix', i, 'option %s is not adjusted as needed' % name, e.note(st, self.what) or st)


class Every(eng.Monitor):
    """CFG_check: every section is asked.  mon: verdicts so far"""
    key = 'm'

    def __init__(self, res):
        self.res = res

    def call(self, e, st, name, args, i):
        if name.startswith('*check'):
            self.res.n['asked'] += 1
            if args[0] != ('p', ('g', '*section' + name[6:]), F):
                e.report('every', i, 'a check gets another section', st)
            s = st.copy()
            st.mon['m'] = st.mon['m'] + ((name, True),)
            s.mon['m'] = s.mon['m'] + ((name, False),)
            return [(st, T), (s, F)]

    def exit(self, e, st, kind, v, i):
        if kind != 'return' or v is None or not self.on:
            return
        got = dict(st.mon['m'])
        r = e.truth(st, v)
        self.res.n['verdicts'] += 1
        if r is not (all(got.values()) and set(got) == set(self.sections)):
            if r:
                e.report('every', i, 'a configuration is consistent although a section is not', st)
            elif r is False:
                e.report('every', i, 'a configuration is refused although every section is consistent', st)
            else:
                e.report('every', i, 'whether a configuration is consistent is not decided by its sections', st)


def sections(m):
    """[(name, check, fix, {option: (type, var, given, maxlen)}, global)]"""
    FI = m.field
    enums = {}
    out = []
    for g in m.globals.values():
        if g.d.get('dtype') != 'CFG_Section' or g.d['decl']:
            continue
        opts = {}
        n = g.read(*FI('CFG_Section', 'n_opt'))
        for k in range(n[1]):
            b = FI('CFG_Section', 'options')[0] + k * m.structs['CFG_Option']['size']
            at = lambda f, z=8: g.read(b + FI('CFG_Option', f)[0], z)
            name = (m.string(at('name')) or '').lower()
            var, giv = at('var'), at('given')
            t = at('type', 4)
            mx = at('maxlen')
            opts[name] = (t, (('g', var[1]), var[2]) if var and var[0] == 'g' else None, (('g', giv[1]), giv[2]) if giv and giv[0] == 'g' else None, mx)
        f = [g.read(FI('CFG_Section', x)[0], 8) for x in ('check', 'fix')]
        out.append(((m.string(g.read(FI('CFG_Section', 'name')[0], 8)) or '').lower(), f[0][1] if f[0] and f[0][0] == 'f' else None, f[1][1] if f[1] and f[1][0] == 'f' else None, opts, g.name))
    if len(out) < 5:
        raise AnalysisError('%s: sections of the configuration not found' % m.key)
    return out


class C28(Check):
    id = 'C28'
    title = 'A configuration is consistent only if complete and within range'
    rule = ('Every check and adjustment of a section is evaluated for all values of its options (numbers split at the constants compared with): refused exactly if a host, port, file or coordinate needed '
            'is missing or out of range; adjusted exactly to the smallest values which work; the whole is consistent iff each section is.')
    quick = ['rc', 'rcnet', 'dump1090']
    minimum = {'verdicts': 100, 'fixed': 100, 'asked': 10, 'sections': 15}

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            ss = sections(m)
            out += [(p, 'section', s[4]) for s in ss]
            out.append((p, 'all', ''))
            names = {(s[0], o) for s in ss for o in s[3]}
            for s, o in MINIMA:
                if (s, o) not in names:
                    raise AnalysisError('%s: option %s.%s not found' % (p, s, o))
        return out

    def engine(self, m, mon, cells):
        return eng.Engine(m, [mon, Doubles(cells)], cancel=False, shared=lambda g: False)

    def run(self, job, res):
        m = ir.load(job[0])
        if job[1] == 'all':
            return self.all(m, res)
        name, check, fix, opts, g = [s for s in sections(m) if s[4] == job[2]][0]
        res.n['sections'] += 1
        self.checked(m, res, name, check, opts, g)
        self.adjusted(m, res, name, fix, opts, g)

    def adjusted(self, m, res, name, fix, opts, g):
        need = {o: MINIMA[name, o] for o in opts if (name, o) in MINIMA}
        flags = name == 'buffer'
        if fix is None:
            if need or flags:
                res.viol('fix', g, 'options of section %s are never adjusted' % name)
            return
        mon = Fix(res)
        e = eng.Engine(m, [mon], cancel=False, shared=lambda x: False)
        sizes = {}
        for s in sections(m):
            for o, (t, *_) in s[3].items():
                if o in ('port', 'staticbacklog', 'latitude'):
                    sizes[t] = 4 if o == 'staticbacklog' else 8
        ints = sorted(o for o in opts if o in need or flags and o == 'dynamicbacklog')
        low = {o: need.get(o, 1) for o in ints}
        for hist in (0, 1) if flags else (None,):
            for gc in (0, 1) if flags else (None,):
                for k in range(1 << len(ints)):
                    for zero in (True, False):
                        st = e.initial_state()
                        want, what = [], []
                        for o, (t, var, giv, mx) in sorted(opts.items()):
                            if var is None:
                                continue
                            if o in ints:
                                small = k >> ints.index(o) & 1
                                mn = low[o]
                                x = ((F if zero or mn == 1 else ('i', mn - 1)) if small else st.fresh((mn, (1 << 31) - 1) if zero else (-(1 << 31), -1)))
                                y = ('i', mn) if small and (o in need or hist) else x
                                if small:
                                    what.append(o + ' too small')
                                size = 4
                            elif flags and o in ('history', 'gc'):
                                x = ('i', hist if o == 'history' else gc)
                                y = x if o == 'history' or hist else F
                                size = 1
                                if x != F:
                                    what.append(o)
                            else:
                                size = sizes.get(t, 1)
                                x = y = st.fresh((0, 1) if size == 1 else (-(1 << 31), (1 << 31) - 1))
                            st.write(var[0], var[1], size, x)
                            want.append((o, (var[0], var[1]), size, y))
                        st.mon['m'], mon.what = tuple(want), ', '.join(what) or 'all in range'
                        e.run(m.functions[fix], [('p', ('g', g), F)], st)
        res.take(e)

    def checked(self, m, res, name, check, opts, g):
        net = [o for o in ('host', 'port') if o in opts]
        pos = [o for o in ('latitude', 'longitude', 'altitude') if o in opts]
        rules_ = len(net) == 2 or 'file' in opts and 'configure' in opts or len(pos) == 3
        if check is None:
            if rules_:
                res.viol('accept', g, 'section %s is never checked' % name)
            return
        fns = rules.reach(m, [check])
        cells = Cells(points(m, fns))
        mon = Verdict(res)
        e = self.engine(m, mon, cells)
        # cases of each option: (value to write, size, is fine)
        dims = []
        for o, (t, var, giv, mx) in sorted(opts.items()):
            if o in ('host', 'file'):
                dims.append([(o, 'empty', lambda st, v=var: st.write(v[0], v[1], 1, F))] +
                            [(o, '', lambda st, v=var, r=r: st.write(v[0], v[1], 1, st.fresh(r))) for r in ((1, 127), (-128, -1))])
            elif o == 'port':
                dims.append([(o, 'zero', lambda st, v=var: st.write(v[0], v[1], 8, F)), (o, '', lambda st, v=var: st.write(v[0], v[1], 8, st.fresh((1, 0xffff))))])
            elif o == 'configure':
                dims.append([(o, x, lambda st, v=var, x=x: st.write(v[0], v[1], 1, ('i', x == 'on'))) for x in ('on', 'off')])
            elif o in pos:
                if giv is None:
                    return res.viol('accept', g, 'whether %s is given is not known' % o)
                d = [(o, 'missing', lambda st, v=var, h=giv: (st.write(h[0], h[1], 1, F), st.write(v[0], v[1], 8, cells.find(0.0))))]
                for k, x in enumerate(cells.val):
                    lim = RANGE.get(o)
                    bad = '' if lim is None or -lim <= x <= lim else str(x)
                    if lim is None and not math.isfinite(x):
                        continue
                    d.append((o, bad, lambda st, v=var, h=giv, k=k: (st.write(h[0], h[1], 1, T), st.write(v[0], v[1], 8, cells.const(k)))))
                if lim is None:
                    d = d[:3]
                dims.append(d)
        mon.vars = {(v[0], v[1]) for _, v, _, _ in opts.values() if v}
        combos = [[]]
        for d in dims:
            combos = [c + [x] for c in combos for x in d]
        for c in combos:
            st = e.initial_state()
            for _, _, f in c:
                f(st)
            state = {o: x for o, x, _ in c}
            bad = [o + ' ' + x for o, x in sorted(state.items()) if x and (o in net and len(net) == 2 or o in pos and len(pos) == 3)]
            if state.get('configure') == 'on' and state.get('file') == 'empty':
                bad.append('file missing')
            mon.want = not bad
            mon.what = ', '.join(bad) or 'all in range'
            mon.init = ()
            e.run(m.functions[check], [('p', ('g', g), F)], st)
        res.take(e)

    def all(self, m, res):
        reg, chk = m.functions.get('CFG_registerSection'), m.functions.get('CFG_check')
        if reg is None or chk is None:
            raise AnalysisError('%s: configuration not found' % m.key)
        FI = m.field
        for has in ((1, 1, 1), (0, 1, 0), (1, 0, 1), (0, 0, 0), (0, 0, 1)):
            mon = Every(res)
            mon.init, mon.on = (), False
            mon.sections = ['*check%d' % k for k in range(3) if has[k]]
            outs = []
            keep = mon.exit

            def ex(e, st, kind, v, i):
                keep(e, st, kind, v, i)
                if kind == 'return':
                    outs.append(st.copy())
            mon.exit = ex
            e = eng.Engine(m, [mon], cancel=False, shared=lambda x: False)
            st = e.initial_state()
            e.set_globals_initial(st)
            for k in range(3):
                o = ('g', '*section%d' % k)
                st.write(o, FI('CFG_Section', 'check')[0], 8, ('f', '*check%d' % k) if has[k] else F)
                st.write(o, FI('CFG_Section', 'n_opt')[0], 4, F)
            todo = [st]
            for k in range(3):
                nxt = []
                for s in todo:
                    outs.clear()
                    e.run(reg, [('p', ('g', '*section%d' % k), F)], s)
                    nxt += list(outs)
                todo = nxt
            if not todo:
                raise AnalysisError('%s: no section can be registered' % m.key)
            mon.on = True
            for s in todo:
                s.mon['m'] = ()
                e.run(chk, [], s)
            res.take(e)


CHECK = C28()
