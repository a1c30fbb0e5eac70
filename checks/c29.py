from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
KINDS = ('string', 'int', 'bool', 'port', 'double')
ERR = ('g', '*errno')
SIZE = {'int': 4, 'bool': 1, 'port': 8, 'double': 8}
MAX = {'int': (1 << 32) - 1, 'port': 0xffff}
LIT = {'true': True, '1': True, 'false': False, '0': False}
MAXLEN = 10
G = lambda n: ('p', ('g', n), F)


def kinds(m):
    """numbers of the types, from options with well-known names"""
    out = {}
    want = {'host': 'string', 'port': 'port', 'staticbacklog': 'int', 'history': 'bool'}
    for g in m.globals.values():
        if g.d.get('dtype') == 'CFG_Section' and not g.d['decl']:
            for k in range(g.read(*m.field('CFG_Section', 'n_opt'))[1]):
                b = m.field('CFG_Section', 'options')[0] + k * m.structs['CFG_Option']['size']
                n = (m.string(g.read(b + m.field('CFG_Option', 'name')[0], 8)) or '').lower()
                if n in want:
                    out[want[n]] = g.read(b + m.field('CFG_Option', 'type')[0], 4)[1]
                elif n == 'latitude':
                    out['double'] = g.read(b + m.field('CFG_Option', 'type')[0], 4)[1]
    if set(want.values()) - set(out):
        raise AnalysisError('%s: types of options not found' % m.key)
    rest = set(range(5)) - set(out.values())
    if 'double' not in out:
        if len(rest) != 1:
            raise AnalysisError('%s: types of options not found' % m.key)
        out['double'] = rest.pop()
    return out


def setup(m, e, st, opts, fix=False):
    """sections with one option each: [(kind, given, defaultEmpty, default)]"""
    FS, FO = (lambda x: m.field('CFG_Section', x)[0]), (lambda x: m.field('CFG_Option', x)[0])
    ks = kinds(m)
    for k, (kind, given, empty, default) in enumerate(opts):
        o = ('g', '*section%d' % k)
        st.write(o, FS('name'), 8, G('*sname%d' % k))
        st.write(o, FS('n_opt'), 4, T)
        st.write(o, FS('check'), 8, F)
        st.write(o, FS('fix'), 8, ('f', '*fix%d' % k) if fix else F)
        b = FS('options')
        st.write(o, b + FO('name'), 8, G('*key%d' % k))
        st.write(o, b + FO('type'), 4, ('i', ks[kind]))
        st.write(o, b + FO('var'), 8, G('*var%d' % k))
        st.write(o, b + FO('given'), 8, G('*given%d' % k) if given else F)
        st.write(o, b + FO('maxlen'), 8, ('i', MAXLEN if kind == 'string' else 0))
        st.write(o, b + FO('defaultEmpty'), 1, ('i', int(empty)))
        st.write(o, b + FO('def'), SIZE.get(kind, 8), default)


def register(m, e, st, n):
    """states after registering the sections"""
    outs = []

    class Keep(eng.Monitor):
        key = 'keep'

        def exit(self, e, s, kind, v, i):
            if kind == 'return':
                outs.append(s.copy())
    e2 = eng.Engine(m, [Keep()], cancel=False, shared=lambda g: False)
    todo = [st]
    for k in range(n):
        nxt = []
        for s in todo:
            outs.clear()
            e2.run(rules.api(m, 'CFG_registerSection'), [G('*section%d' % k)], s)
            nxt += list(outs)
        todo = nxt
    if not todo:
        raise AnalysisError('%s: no section can be registered' % m.key)
    return todo


def places(e, st):
    """the sections and options the frames refer to are told apart"""
    out = []
    for k, f in enumerate(st.frames):
        for r, v in f.regs.items():
            if v[0] == 'p' and v[2][0] == 'i' and (v[1][0] == 'h' or v[1] == ('g', 'sections') or v[1][0] == 'g' and v[1][1].startswith(('*section', '*key', '*sname', '*given', '*var', '*default'))):
                o = v[1]
                if o[0] == 'h':
                    o = tuple(c[1][1] for _, c in sorted(st.mem.get(o, {}).items(), key=str) if c[1][0] == 'p' and c[1][1][0] == 'g')
                out.append((k, r, o, v[2]))
    return tuple(sorted(out, key=str))


class Enough(Exception):
    """one violation of a way to read is enough"""


class Read(eng.Monitor):
    """reading a file.
    mon m: set of: sec<k>, key<k>: the text matches; lit<x>; num: a number was parsed; val<k>, def<k>: what was assigned last;
    done: something was assigned for this line; open; fix<k>; closed
    mon n: (number parsed, lengths of the names...)"""
    key = 'm'
    init = ()

    def __init__(self, res, opts, usedef):
        self.res, self.opts, self.usedef = res, opts, usedef

    def report(self, e, *args):
        e.report(*args)
        raise Enough()

    def has(self, st, x):
        return x in st.mon['m']

    def add(self, st, *x):
        st.mon['m'] = tuple(sorted(set(st.mon['m']) | set(x)))

    def drop(self, st, *x):
        st.mon['m'] = tuple(y for y in st.mon['m'] if not y.startswith(x))

    def name(self, e, v):
        """(section or key, number) or literal"""
        if v[0] == 'p' and v[1][0] == 'g':
            if v[1][1].startswith('*sname') and v[2] == F:
                return 'sec' + v[1][1][6:]
            if v[1][1].startswith('*key') and v[2] == F:
                return 'key' + v[1][1][4:]
            g = e.mod.globals.get(v[1][1])
            if g is not None and g.constant and v[2][0] == 'i':
                s = g.cstring(v[2][1])
                if s is not None and s.lower() in LIT:
                    return 'lit' + s.lower()

    def length(self, st, n):
        if n.startswith('lit'):
            return ('i', len(n) - 3)
        return ('i', 5 if n[:3] == 'sec' else 4)

    def pending(self, e, st, i):
        """the line is over"""
        for k in range(len(self.opts)):
            if self.has(st, 'sec%d' % k) and self.has(st, 'key%d' % k) and not self.has(st, 'done'):
                if self.usedef:
                    self.report(e, 'ignored', i, 'an option of a configuration file is ignored', st)
                elif self.has(st, 'valid'):
                    self.report(e, 'ignored', i, 'a value of a configuration file is ignored although it is valid', st)
        self.drop(st, 'key', 'lit', 'num', 'nonum', 'done', 'valid', 'prefix', 'seen', 'len')
        st.mon['n'] = (F,)

    def compare(self, e, st, name, args, i):
        ns = [(self.name(e, a), b) for a, b in (args[:2], args[1::-1])]
        ns = [(n, b) for n, b in ns if n]
        if not ns:
            return None
        n, text = ns[0]
        self.res.n['compared'] += 1
        if name in ('strncmp', 'memcmp', 'strcmp', 'bcmp') and n[3:] not in ('0', '1') or n[:3] in ('sec', 'key') and 'case' not in name:
            self.report(e, 'case', i, 'names are not found if written in another case', st)
        if name in ('strcasecmp', 'strcmp'):
            eq = True
        else:
            L = self.length(st, n)
            eq = args[2] == L or e.cmp(st, 'eq', args[2], L, 64) is True or st.diff(args[2], L) == (0, 0)
        if n[:3] != 'lit':
            if self.has(st, 'seen' + n):
                self.pending(e, st, i)
            self.drop(st, 'len' + n)
            self.add(st, 'seen' + n)
        s = st.copy()
        self.drop(st, n)
        self.drop(s, n)
        if eq:
            self.add(st, n)
            if n[:3] == 'lit':
                self.add(st, 'valid')
        else:
            self.add(st, 'prefix' + n)
        return [(st, F), (s, s.fresh((1, 255)))]

    def call(self, e, st, name, args, i):
        if name == '__errno_location':
            return [(st, ('p', ERR, F))]
        if name in ('strlen', 'strnlen'):
            n = self.name(e, args[0])
            if n:
                if n[:3] != 'lit':
                    if self.has(st, 'len' + n) or self.has(st, 'seen' + n):
                        self.pending(e, st, i)
                    self.add(st, 'len' + n)
                    self.drop(st, n)
                return [(st, self.length(st, n))]
            if args[0] == G('*default'):
                return [(st, st.fresh((1, 100)))]
            return
        if name in ('strncasecmp', 'strcasecmp', 'strncmp', 'strcmp', 'memcmp', 'bcmp'):
            return self.compare(e, st, name, args, i)
        if name in ('memchr', 'memrchr') and self.has(st, 'done'):
            # the next line
            self.pending(e, st, i)
            return
        if name == 'MMAP_open':
            s = st.copy()
            self.add(st, 'open')
            return [(st, G('*map')), (s, F)]
        if name == 'MMAP_getPtr':
            return [(st, st.fresh((1 << 40, 1 << 45)))]
        if name == 'MMAP_getSize':
            return [(st, st.fresh((0, 1 << 40)))]
        if name == 'MMAP_close':
            self.add(st, 'closed')
            return [(st, None)]
        if name.startswith('*fix'):
            self.pending(e, st, i)
            if args[0] != G('*section' + name[4:]):
                self.report(e, 'fix', i, 'another section is adjusted', st)
            self.add(st, name[1:])
            return [(st, None)]
        if name.startswith(('strto', '__isoc23_strto', 'atof', 'atoi', 'atol')) and name not in ('strtok', 'strtok_r'):
            number = name not in ('strtod', 'strtof', 'strtold', 'atof')
            ks = [k for k in range(len(self.opts)) if self.has(st, 'sec%d' % k) and self.has(st, 'key%d' % k)]
            lim = MAX.get(self.opts[ks[0]][0], 0) if ks else 0
            unsigned = 'tou' in name
            # (smallest, largest, valid, number of characters used, out of range)
            cases = [(0, 0, False, 0, False), (1 << 62, (1 << 62) + 1000, True, 1, False)]
            if number:
                cases[1:] = [(0, lim, True, 1, False), (lim + 1, (1 << 63) - 1, False, 1, False), (-(1 << 63), -1, False, 1, False), (-1, -1, False, 1, True)]
                if not unsigned:
                    cases[-1] = ((1 << 63) - 1, (1 << 63) - 1, False, 1, True)
            out = []
            for lo, hi, valid, used, error in cases:
                x = st.copy()
                if len(args) > 1 and args[1] != F:
                    e.havoc_arg(x, args[1])
                    if args[1][0] == 'p' and args[1][2][0] == 'i':
                        x.write(args[1][1], args[1][2][1], 8, args[0] if not used else eng.mkp(args[0][1], eng.addk(args[0][2], 1)) if args[0][0] == 'p' else eng.addk(args[0], 1))
                if error:
                    x.write(ERR, 0, 4, ('i', 34))
                v = x.fresh((lo, hi)) if lo != hi else ('i', lo)
                x.mon['n'] = (v,)
                self.drop(x, 'valid', 'nonum')
                self.add(x, 'num', *(('valid',) if valid else ()), *(() if used else ('nonum',)))
                out.append((x, v))
            return out
        if name in ('strncpy', 'memcpy', 'memmove', 'stpncpy', 'strcpy', 'snprintf') or name.startswith(('llvm.memcpy', 'llvm.memmove')):
            if args[0][0] == 'p' and args[0][1][0] == 'g' and args[0][1][1].startswith('*var'):
                k = int(args[0][1][1][4:])
                src = args[1] if name != 'snprintf' else args[-1]
                self.assign(e, st, k, 'def' if src == G('*default') else 'val' if src[0] in 'sd' or src[0] == 'p' and src[1][0] in 'sd' else '?', i)
                st.kill(args[0][1])
                return [(st, args[0])]

    def assign(self, e, st, k, what, i):
        self.res.n['assigned'] += 1
        if self.has(st, 'fix0') or self.has(st, 'fix1'):
            self.report(e, 'fix', i, 'an option is changed after it was adjusted', st)
        if not (self.has(st, 'sec%d' % k) and self.has(st, 'key%d' % k)):
            self.report(e, 'other', i, 'an option is changed by a line for another one', st)
        if what == 'val' and self.has(st, 'nonum'):
            self.report(e, 'nonumber', i, 'a value without a number is taken as one', st)
        if what == '?':
            self.report(e, 'value', i, 'an option gets another value than configured', st)
        if what == 'def' and self.has(st, 'valid'):
            self.report(e, 'refused', i, 'a valid value is replaced with the default', st)
        if k == 0:
            self.drop(st, 'val0', 'def0')
            self.add(st, what + '0')
        self.add(st, 'done')

    def store(self, e, st, obj, off, size, val, i):
        if obj[0] != 'g' or not obj[1].startswith('*var') or i.op == 'call':
            return
        k = int(obj[1][4:])
        kind, given, empty, default = self.opts[k]
        if kind == 'string':
            if val is None or e.cmp(st, 'eq', val, F, 8) is not True:
                self.report(e, 'value', i, 'an option gets another value than configured', st)
            if not self.has(st, 'val0') and not self.has(st, 'def0') or not self.has(st, 'done'):
                self.assign(e, st, k, 'def', i)
            return
        if size != SIZE[kind] or off != F:
            self.report(e, 'value', i, 'an option is stored with another size', st)
            return
        w = 8 * size
        num = st.mon['n'][0]
        if kind == 'bool':
            b = {LIT[x[3:]] for x in st.mon['m'] if x.startswith('lit')}
            r = {T: True, F: False}.get(val)
            if r is None:
                r = True if e.cmp(st, 'ne', val, F, 8) is True else False if e.cmp(st, 'eq', val, F, 8) is True else None
            if len(b) == 1:
                what = 'val' if r in b else '?'
            else:
                what = 'def' if r == (default == T) else '?'
        elif self.has(st, 'num') and (val == num or e.cmp(st, 'eq', val, num, w) is True or val[0] == 't' and num in val):
            what = 'val'
            if kind in MAX:
                lo, hi = st.rng(num)
                cut = width(val)
                if val != num and lo >= 0 and hi < 1 << cut and cut >= w:
                    lo, hi = 0, MAX[kind]               # an int holds it
                elif val != num and lo >= 0 and hi < 1 << cut:
                    lo, hi = st.rng(val)
                if lo < 0 or hi > MAX[kind]:
                    self.report(e, 'range', i, 'a number which is out of range is cut off', st)
        else:
            what = 'def' if val == default or e.cmp(st, 'eq', val, default, w) is True else '?'
        self.assign(e, st, k, what, i)

    def load(self, e, st, obj, off, size, i):
        # the next line begins when the file is read again after looking up the option
        pass

    def exit(self, e, st, kind, v, i):
        if kind == 'noreturn':
            self.report(e, 'end', i, 'a configuration file ends the daemon', st)
        if kind != 'return':
            return
        self.res.n['reads'] += 1
        if not self.has(st, 'fix0'):
            self.pending(e, st, i)
        if not self.has(st, 'open'):
            if e.truth(st, v) is not False:
                self.report(e, 'status', i, 'a file which cannot be read is reported as read', st)
            return
        for k in range(len(self.opts)):
            if not self.has(st, 'fix%d' % k):
                self.report(e, 'fix', i, 'a section is not adjusted after reading', st)
        for k, (kind, given, empty, default) in enumerate(self.opts):
            if given:
                x = e.rd(st, ('g', '*given%d' % k), F, 1, 'i8')
                t = True if e.cmp(st, 'eq', x, T, 8) is True else False if e.cmp(st, 'eq', x, F, 8) is True else None
                if self.has(st, 'val%d' % k) and t is not True:
                    self.report(e, 'given', i, 'an option is configured, but not marked as given', st)
                elif self.has(st, 'def%d' % k) and t is not False:
                    self.report(e, 'given', i, 'an option is not configured, but marked as given', st)
                elif not self.has(st, 'val%d' % k) and not self.has(st, 'def%d' % k) and x != ('i', 2):
                    self.report(e, 'given', i, 'an option not mentioned is marked', st)


class Defaults(eng.Monitor):
    key = 'm'
    init = ()

    def __init__(self, res):
        self.res = res

    def call(self, e, st, name, args, i):
        if name in ('strncpy', 'strcpy', 'memcpy', 'snprintf', 'stpncpy') or name.startswith('llvm.memcpy'):
            if args[0] == G('*var0') and G('*default') in args[1:]:
                st.mon['m'] = ('copied',)
                return [(st, args[0])]

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        self.res.n['defaults'] += 1
        for k, (kind, has, empty, default) in enumerate(self.opts):
            if kind == 'string':
                ok = 'copied' in st.mon['m'] if default != F else st.peek(('g', '*var%d' % k), 0, 1) == F
            else:
                x = st.peek(('g', '*var%d' % k), 0, SIZE[kind])
                ok = x is not None and (x == default or e.cmp(st, 'eq', x, default, 8 * SIZE[kind]) is True)
            if not ok:
                e.report('default', i, 'an option does not get its default value', st)
            if has and st.peek(('g', '*given%d' % k), 0, 1) != F:
                e.report('given', i, 'an option counts as given after loading defaults', st)
            if not has and st.peek(('g', '*given%d' % k), 0, 1) != ('i', 2):
                e.report('given', i, 'an option not mentioned is marked', st)


class Set(Read):
    """setting an option: it is looked up by its name"""

    def __init__(self, res, opts, value):
        super().__init__(res, opts, True)
        self.value = value

    def compare(self, e, st, name, args, i):
        objs = {a[1][1] for a in args[:2] if a[0] == 'p' and a[1][0] == 'g'}
        if any(o.startswith('*sname') for o in objs) and '*wantsec' not in objs or any(o.startswith('*key') for o in objs) and '*wantkey' not in objs:
            self.report(e, 'other', i, 'an option is looked up by another name than asked for', st)
        return super().compare(e, st, name, args, i)

    def call(self, e, st, name, args, i):
        if name in ('strlen', 'strnlen') and args[0] in (G('*wantsec'), G('*wantkey')):
            return [(st, st.fresh((1, 100)))]
        if name in ('strncpy', 'strcpy', 'memcpy', 'snprintf', 'stpncpy') or name.startswith('llvm.memcpy'):
            if args[0][0] == 'p' and args[0][1][0] == 'g' and args[0][1][1].startswith('*var'):
                self.assign(e, st, int(args[0][1][1][4:]), 'val' if self.value in args[1:] else '?', i)
                return [(st, args[0])]
        return super().call(e, st, name, args, i)

    def store(self, e, st, obj, off, size, val, i):
        if obj[0] == 'g' and obj[1].startswith('*var') and i.op != 'call':
            k = int(obj[1][4:])
            if self.opts[k][0] == 'string':
                if val != F:
                    self.report(e, 'value', i, 'an option gets another value than configured', st)
                return
            ok = off == F and size == SIZE[self.opts[k][0]] and (val == self.value or e.cmp(st, 'eq', val, self.value, 8 * size) is True)
            self.assign(e, st, k, 'val' if ok else '?', i)

    def exit(self, e, st, kind, v, i):
        if kind == 'return':
            self.res.n['sets'] += 1
            self.pending(e, st, i)


class Directory(eng.Monitor):
    """reading a directory.  mon m: (names read, failed, name in the buffer)"""
    key = 'm'
    init = ((), False, None)

    def __init__(self, res, count, stop):
        self.res, self.count, self.stop = res, count, stop
        self.compar, self.filter = set(), set()

    def entry(self, v):
        return int(v[1][1][4:]) if v[0] == 'p' and v[1][0] == 'g' and v[1][1].startswith('*ent') else None

    def call(self, e, st, name, args, i):
        names, failed, buf = st.mon['m']
        if name == 'scandir' or name == 'scandir64':
            self.filter.add(args[2])
            self.compar.add(args[3])
            e.store(st, G('*list'), args[1], 8, i)
            s = st.copy()
            st.mon['m'] = ('open',), False, None
            return [(st, ('i', self.count)), (s, ('i', -1))]
        if name in ('strlen', 'strnlen'):
            return [(st, ('i', 20))]
        if name in ('strncpy', 'strcpy', 'memcpy', 'snprintf', 'stpncpy', 'strcat', 'strncat') or name.startswith('llvm.memcpy'):
            k = [self.entry(a) for a in args[1:] if self.entry(a) is not None]
            if k:
                st.mon['m'] = names, failed, k[0]
            e.havoc_arg(st, args[0])
            return [(st, args[0])]
        if name == 'free':
            return [(st, None)]
        if name == rules.api(e.mod, 'CFG_readFile').name:
            self.res.n['files'] += 1
            if buf is None or buf != len(names) - 1:
                e.report('files', i, 'files of a directory are not read one after the other', st)
            if failed and self.stop:
                e.report('files', i, 'files are read after one failed', st)
            s = st.copy()
            st.mon['m'] = names + (buf,), failed, None
            s.mon['m'] = names + (buf,), True, None
            return [(st, T), (s, F)]

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        names, failed, buf = st.mon['m']
        self.res.n['directories'] += 1
        ok = e.truth(st, v)
        if not names or failed and self.stop:
            if ok is not False:
                e.report('status', i, 'a directory counts as read although reading failed', st)
        elif len(names) - 1 < self.count:
            e.report('files', i, 'files of a directory are forgotten', st)
        elif not failed and ok is not True:
            e.report('status', i, 'a directory counts as not read although all files were', st)


class Compare(eng.Monitor):
    key = 'm'
    init = ()

    def __init__(self, res, numbers):
        self.res, self.numbers = res, numbers

    def call(self, e, st, name, args, i):
        if name.startswith(('strto', '__isoc23_strto', 'atoi', 'atol')):
            if args[0][0] == 'p' and args[0][1] in (('g', '*ent0'), ('g', '*ent1')):
                return [(st, ('i', self.numbers[int(args[0][1][1][4:])]))]
        if name == 'strverscmp':
            a, b = (self.numbers[int(x[1][1][4:])] for x in args[:2])
            return [(st, ('i', (a > b) - (a < b)))]

    def exit(self, e, st, kind, v, i):
        self.res.n['order'] += 1
        a, b = self.numbers
        for p, want in (('slt', a < b), ('eq', a == b), ('sgt', a > b)):
            if kind == 'return' and e.cmp(st, p, v, F, 32) is not want:
                e.report('order', i, 'files of a directory are not read in the order of their numbers', st)


class Filter(eng.Monitor):
    key = 'm'
    init = ()

    def __init__(self, res, length, ends, want):
        self.res, self.length, self.ends, self.want = res, length, ends, want

    def call(self, e, st, name, args, i):
        if name == 'strlen':
            return [(st, ('i', self.length))]
        if name in ('strcmp', 'strncmp', 'memcmp', 'bcmp') and any(e.mod.globals[a[1][1]].cstring(a[2][1]) == '.conf' for a in args[:2] if a[0] == 'p' and a[1][0] == 'g' and a[1][1] in e.mod.globals and a[2][0] == 'i'):
            return [(st, F if self.ends else ('i', 1))]

    def exit(self, e, st, kind, v, i):
        self.res.n['filtered'] += 1
        if kind == 'return' and e.cmp(st, 'ne', v, F, 32) is not self.want:
            e.report('order', i, 'a file of a directory is forgotten' if self.want else 'another file of a directory is read', st)


class Write(eng.Monitor):
    """writing a file.  mon m: (what was written, in order), mon f: flags"""
    key = 'm'
    init = ()

    def __init__(self, res, opts, given, only):
        self.res, self.opts, self.given, self.only = res, opts, given, only

    def add(self, st, x):
        st.mon['f'] = tuple(sorted(set(st.mon['f']) | {x}))

    def has(self, st, x):
        return x in st.mon['f']

    def call(self, e, st, name, args, i):
        if name in ('fopen', 'fopen64', 'fdopen'):
            s = st.copy()
            self.add(st, 'open')
            return [(st, G('*stream')), (s, F)]
        if name in ('strcasecmp', 'strcmp'):
            a = {x[1][1] for x in args[:2] if x[0] == 'p' and x[1][0] == 'g'}
            if a == {'*sname0', '*sname1'}:
                if name == 'strcmp':
                    e.report('section', i, 'a section may be written twice, in different cases', st)
                if self.has(st, 'same') or self.has(st, 'differ'):
                    return [(st, F if self.has(st, 'same') else st.fresh((1, 255)))]
                s = st.copy()
                self.add(st, 'same')
                self.add(s, 'differ')
                return [(st, F), (s, s.fresh((1, 255)))]
            if len(a) == 1:
                return [(st, F)]
            return
        if name in ('fprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'vfprintf', '__fprintf_chk', 'dprintf'):
            self.res.n['writes'] += 1
            if not self.has(st, 'open') or self.has(st, 'closed'):
                e.report('order', i, 'something is written to a file which is not open', st)
            fmt = None
            for a in args:
                if a[0] == 'p' and a[1][0] == 'g' and a[2][0] == 'i' and a[1][1] in e.mod.globals:
                    fmt = fmt if fmt is not None else e.mod.globals[a[1][1]].cstring(a[2][1])
            for a in args:
                x = None
                if a[0] == 'p' and a[1][0] == 'g' and a[2] == F:
                    g = a[1][1]
                    x = {'*sname': 'sec', '*key': 'key', '*var': 'val'}.get(g[:-1])
                    if x == 'val' and self.opts[int(g[-1])][0] != 'string':
                        x = None
                    if x:
                        x += g[-1]
                        if x[:3] == 'key' and fmt and fmt.lstrip()[:1] in ('#', ';'):
                            x = 'com' + g[-1]
                    else:
                        t = e.mod.globals[g].cstring(0) if g in e.mod.globals else None
                        if t is not None and t.strip().lower() in ('true', 'false'):
                            for k, o in enumerate(self.opts):
                                if o[0] == 'bool' and ('key%d' % k) in st.mon['m'] and ('val%d' % k) not in st.mon['m'] and (t.strip().lower() == 'true') == (st.mon['v'][k] == T):
                                    x = 'val%d' % k
                elif a[0] != 'p':
                    for k, o in enumerate(self.opts):
                        if o[0] in ('int', 'port', 'double') and a == st.mon['v'][k] or o[0] == 'port' and a[0] == 't' and st.mon['v'][k] in a:
                            x = 'val%d' % k
                            if fmt is not None and not any(c in fmt for c in ('u', 'x') if o[0] != 'double') and o[0] != 'double':
                                e.report('value', i, 'a number is written with a sign', st)
                if x:
                    if x in st.mon['m']:
                        e.report('twice', i, 'an option or section is written twice', st)
                    st.mon['m'] = st.mon['m'] + (x,)
            s = st.copy()
            self.add(s, 'failed')
            return [(st, st.fresh((0, 1000))), (s, ('i', -1))]
        if name == 'ferror':
            return [(st, T if self.has(st, 'failed') else F)]
        if name in ('fflush', 'fclose'):
            if name == 'fclose':
                self.add(st, 'closed')
            s = st.copy()
            self.add(s, 'failed')
            return [(st, F), (s, ('i', -1))]

    def store(self, e, st, obj, off, size, val, i):
        if obj[0] == 'g' and obj[1].startswith(('*var', '*given')):
            e.report('change', i, 'saving the configuration changes it', st)

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        self.res.n['written'] += 1
        ok = e.truth(st, v)
        if self.has(st, 'open') and not self.has(st, 'closed'):
            e.report('order', i, 'the file is not closed', st)
        if not self.has(st, 'open') or self.has(st, 'failed'):
            if ok is not False:
                e.report('status', i, 'the configuration counts as saved although writing failed', st)
            return
        if ok is not True:
            e.report('status', i, 'the configuration counts as not saved although it was written', st)
        sec, have = None, {}
        same = self.has(st, 'same')
        for x in st.mon['m']:
            k = int(x[3:])
            if x[:3] == 'sec':
                if sec is not None and same:
                    e.report('twice', i, 'a section is written twice', st)
                sec = k
            elif x[:3] in ('key', 'com'):
                if sec != k and not (same and sec is not None):
                    e.report('section', i, 'an option is written into another section', st)
                have[k] = x[:3]
            elif have.get(k) != 'key':
                e.report('order', i, 'a value is written without its name', st)
            else:
                have[k] = 'val'
        for k, o in enumerate(self.opts):
            if k and self.only:
                continue
            want = 'com' if o[1] and o[2] and not self.given else 'val'
            if have.get(k) != want:
                e.report('lost', i, 'an option is not written with its value' if want == 'val' else 'an option which is not given is written', st)


def width(v):
    """bits the value was cut to"""
    if not isinstance(v, tuple) or not v or v[0] != 't':
        return 64
    w = min([width(x) for x in v[2:]] + [64])
    return min(w, v[3]) if v[1] == 'trunc' else w


class Anywhere(eng.Engine):
    """variables telling where in the file it is read, and the text itself, have any value"""
    lost = ()

    def forget(self, st):
        for o in list(st.mem):
            if o[0] == 'd' or o[0] == 'g' and o[1] in self.lost:
                del st.mem[o]

    def join(self, st):
        f = st.frames[-1].fn
        self.K = 1 if self.heads(f) else 12
        return super().join(st)

    def load(self, st, v, ty, size, ins):
        v = super().load(st, v, ty, size, ins)
        self.forget(st)
        return v

    def store(self, st, v, p, size, ins):
        r = super().store(st, v, p, size, ins)
        self.forget(st)
        return r


class C29(Check):
    id = 'C29'
    title = 'Options have the value configured last, or their default; saving keeps it'
    rule = ('All paths of reading a file of any contents, for each type of option: an option is assigned only if its section and name were compared as a whole and equal, the value parsed (within range) or its default, '
            'marked accordingly, and adjusted afterwards.')
    quick = ['rc']
    thorough = ['rc', 'dump1090', 'rcnet']
    minimum = {'sets': 5, 'files': 3, 'directories': 8, 'filtered': 20, 'order': 30, 'reads': 10, 'writes': 100, 'written': 50, 'defaults': 10, 'compared': 10, 'assigned': 10}

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            for kind in KINDS:
                for u in (True, False) if tier == 'thorough' or kind == 'string' else (True,) if kind in ('int', 'bool') else (False,):
                    out += [(p, 'read', kind, u, d) for d in ((T, F) if kind == 'bool' else (None,))]
            for kind in KINDS:
                for f in ('CFG_write', 'CFG_writeSection'):
                    out.append((p, 'write', kind, f))
                out.append((p, 'defaults', kind, ''))
                out.append((p, 'set', kind, ''))
            out.append((p, 'directory', '', ''))
        return out

    def write(self, m, res, kind, fn):
        for given, has, empty in ((g, h, y) for g in (True, False) for h in (True, False) for y in (True, False)):
            for val in (T, F):
                mon = Write(res, None, given, fn != 'CFG_write')
                e = eng.Engine(m, [mon], cancel=False, shared=lambda g: False)
                st = e.initial_state()
                e.set_globals_initial(st)
                other = 'port' if kind == 'int' else 'int'
                mon.opts = [(kind, has, empty, F), (other, False, False, F)]
                setup(m, e, st, mon.opts)
                for s in register(m, e, st, 2):
                    vals = []
                    for k, o in enumerate(mon.opts):
                        x = val if o[0] == 'bool' else s.fresh((3, 60000))
                        if o[0] != 'string':
                            s.write(('g', '*var%d' % k), 0, SIZE[o[0]], x)
                        else:
                            x = F
                        vals.append(x)
                        s.write(('g', '*given%d' % k), 0, 1, ('i', int(given)))
                    s.mon['v'], s.mon['m'], s.mon['f'] = tuple(vals), (), ()
                    e.run(rules.api(m, fn), [G('*path')] + ([G('*section0')] if mon.only else []), s)
                    res.take(e)
                if kind != 'bool':
                    break

    def defaults(self, m, res, kind):
        for d in ((T, F) if kind == 'bool' else (None, F)):
            for has in (True, False):
                mon = Defaults(res)
                e = eng.Engine(m, [mon], cancel=False, shared=lambda g: False)
                st = e.initial_state()
                e.set_globals_initial(st)
                default = d or (G('*default') if kind == 'string' else ('i', 4242))
                mon.opts = [(kind, has, False, default), ('port' if kind == 'int' else 'int', True, False, ('i', 4243))]
                setup(m, e, st, mon.opts)
                for s in register(m, e, st, 2):
                    for k in range(2):
                        s.write(('g', '*given%d' % k), 0, 1, ('i', 2))
                    s.mon['m'] = ()
                    e.run(rules.api(m, 'CFG_loadDefaults'), [], s)
                res.take(e)

    def sets(self, m, res, kind):
        fn = {'string': 'CFG_setString', 'int': 'CFG_setInteger', 'bool': 'CFG_setBoolean', 'port': 'CFG_setPort', 'double': 'CFG_setDouble'}[kind]
        for d in (T, F) if kind == 'bool' else (None,):
            e0 = eng.Engine(m, [], cancel=False, shared=lambda g: False)
            st = e0.initial_state()
            e0.set_globals_initial(st)
            opts = [(kind, True, False, F), (kind, False, False, F)]
            setup(m, e0, st, opts)
            value = d or (G('*value') if kind == 'string' else ('i', 4242))
            for s in register(m, e0, st, 2):
                e = eng.Engine(m, [Set(res, opts, value)], cancel=False, shared=lambda g: False, K=12, partition=places)
                s.mon['n'], s.mon['m'] = (F,), ()
                try:
                    e.run(rules.api(m, fn), [G('*wantsec'), G('*wantkey'), value], s)
                except Enough:
                    pass
                res.take(e)

    def directory(self, m, res):
        filters, compars = set(), set()
        name, typ = m.field('dirent', 'd_name')[0], m.field('dirent', 'd_type')[0]
        for n in range(4):
            for stop in (T, F):
                mon = Directory(res, n, stop == T)
                e = eng.Engine(m, [mon], cancel=False, shared=lambda g: False, noinline={rules.api(m, 'CFG_readFile').name}, K=20)
                st = e.initial_state()
                for k in range(n):
                    st.write(('g', '*list'), 8 * k, 8, G('*ent%d' % k))
                e.run(rules.api(m, 'CFG_readDirectory'), [G('*path'), T, T, T, stop], st)
                res.take(e)
                filters |= mon.filter
                compars |= mon.compar
        for f in filters:
            if f[0] != 'f' or f[1] not in m.functions or m.functions[f[1]].decl:
                raise AnalysisError('%s: selection of files of a directory not found' % m.key)
            for lo, hi, digit in ((48, 57, True), (-128, 47, False), (58, 127, False)):
                for t, file in ((8, True), (10, True), (4, False), (1, False)):
                    for length in (4, 9):
                        for ends in (True, False) if length > 4 else (False,):
                            e = eng.Engine(m, [Filter(res, length, ends, digit and file and ends)], cancel=False, shared=lambda g: False)
                            st = e.initial_state()
                            st.write(('g', '*ent0'), name, 1, st.fresh((lo, hi)))
                            st.write(('g', '*ent0'), typ, 1, ('i', t))
                            e.run(m.functions[f[1]], [G('*ent0')], st)
                            res.take(e)
        for f in compars:
            if f == ('f', 'versionsort'):
                continue
            if f[0] != 'f' or f[1] not in m.functions or m.functions[f[1]].decl:
                res.viol('order', rules.api(m, 'CFG_readDirectory').name, 'files of a directory are not read in the order of their numbers')
                continue
            for a in (0, 1, 9, 10, 1 << 31, 1 << 40):
                for b in (0, 1, 9, 10, 1 << 31, 1 << 40):
                    e = eng.Engine(m, [Compare(res, (a, b))], cancel=False, shared=lambda g: False)
                    st = e.initial_state()
                    for k in range(2):
                        st.write(('g', '*ref%d' % k), 0, 8, G('*ent%d' % k))
                    e.run(m.functions[f[1]], [G('*ref0'), G('*ref1')], st)
                    res.take(e)

    def run(self, job, res):
        m = ir.load(job[0])
        if job[1] == 'set':
            return self.sets(m, res, job[2])
        if job[1] == 'directory':
            return self.directory(m, res)
        if job[1] == 'write':
            return self.write(m, res, job[2], job[3])
        if job[1] == 'defaults':
            return self.defaults(m, res, job[2])
        if job[1] == 'read':
            return self.read(m, res, job[2], job[3], job[4])

    def read(self, m, res, kind, usedef, d):
        # where in the file it is read: anywhere
        fns = rules.reach(m, [rules.api(m, 'CFG_readFile').name])
        loose = {g for g in m.globals if not m.globals[g].constant and not m.globals[g].d['decl'] and m.globals[g].d['size'] in (4, 8) and rules.users(m, {g}) & fns}
        e0 = eng.Engine(m, [], cancel=False, shared=lambda g: False)
        st = e0.initial_state()
        e0.set_globals_initial(st)
        default = d or (G('*default') if kind == 'string' else ('i', 4242))
        opts = [(kind, True, False, default), ('int', False, False, ('i', 4243))] if kind != 'int' else [(kind, True, False, default), ('port', False, False, ('i', 4243))]
        setup(m, e0, st, opts, True)
        for s in register(m, e0, st, 2):
            mon = Read(res, opts, usedef)
            e = Anywhere(m, [mon], cancel=False, shared=lambda g: False, K=2, partition=places,
                           noinline={'MMAP_open', 'MMAP_getPtr', 'MMAP_getSize', 'MMAP_close'})
            for k in range(2):
                s.write(('g', '*given%d' % k), 0, 1, ('i', 2))
            s.mon['n'] = (F,)
            s.mon['m'] = ()
            e.lost = loose
            try:
                e.run(rules.api(m, 'CFG_readFile'), [G('*path'), T, T, ('i', int(usedef))], s)
            except Enough:
                pass
            res.take(e)


CHECK = C29()
