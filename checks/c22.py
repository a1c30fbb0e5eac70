import re
from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
NONE = ('i', -1)
MAXARGS = 16
EXEC = ('execve', 'execv', 'execvp', 'execl', 'execlp')
SPAWN = ('fork', 'vfork', 'daemon') + EXEC
STATUS = (0, 0x100, 0xff00, 9, 0x8b, 0x7f)         # exited with 0, 1 and 255, killed, dumped core, stopped


def callbacks(m):
    """handlers of commands of the server"""
    return sorted(rules.argrefs(m, 'TB_register', 2))


def surviving(m):
    """mutexes which are taken while forking and are released in the child"""
    g = rules.callees(m)

    def ops(v, what):
        if v[0] != 'f' or v[1] not in m.defined:
            return set()
        return {i.ops[0][1] for f in rules.reach(m, {v[1]}) if f in m.defined for i in m.defined[f].calls()
                if tuple(i.d['callee'])[:2] == ('f', what) and i.ops and i.ops[0][0] == 'g'}
    out = set()
    for f in m.defined.values():
        for i in f.calls():
            if tuple(i.d['callee'])[:2] == ('f', 'pthread_atfork') and (f.name in ctors(m) or f.name in reached(m, g)):
                out |= ops(i.ops[0], 'pthread_mutex_lock') & (ops(i.ops[2], 'pthread_mutex_unlock') | ops(i.ops[2], 'pthread_mutex_init'))
    return out


def ctors(m):
    c = m.globals.get('llvm.global_ctors')
    return {v[1] for o, s, v in (c.cells or ()) if v[0] == 'f'} if c else set()


def reached(m, g):
    return rules.reach(m, {'main'}) if 'main' in m.defined else set()


class Process(eng.Monitor):
    """mon y: (generation, children, results waited for, standard input)
    generation: 0 is the daemon; standard input: 0 inherited, 1 closed, 2 replaced"""
    key = 'y'
    init = (0, (), (), 0)

    def __init__(self, res, m, root, payload=None):
        self.res, self.root, self.payload = res, root, payload
        self.prog = 'MAIN_progName'
        self.black = 'FPGA_bbwhite'
        self.safe = surviving(m)
        self.server = payload and '%d.%d.%d.%d:%d' % (tuple(payload[:4]) + (payload[4] << 8 | payload[5],))

    def set(self, st, gen=None, kids=None, got=None, inp=None):
        a = st.mon['y']
        st.mon['y'] = tuple(o if n is None else n for o, n in zip(a, (gen, kids, got, inp)))

    def call(self, e, st, name, args, i):
        gen, kids, got, inp = st.mon['y']
        if name in ('fork', 'vfork'):
            self.res.n['forks'] += 1
            if name == 'vfork':
                e.report('vfork', i, 'the child shares the memory of the daemon', st)
            s2, s3 = st.copy(), st.copy()
            e.note(s3, '%s fork fails' % e.mod.locstr(i))
            e.note(s2, '%s fork: child' % e.mod.locstr(i))
            if len(kids) >= 4:
                e.report('many', i, 'more and more processes are created', st)
                return 'stop'
            p = st.fresh((1, 1 << 22))
            self.set(st, kids=kids + (p,))
            self.set(s2, gen=gen + 1, kids=())
            return [(st, p), (s2, F), (s3, NONE)]
        if name == 'daemon':
            if gen == 0:
                e.report('detach', i, 'the daemon itself is detached', st)
            s2 = st.copy()
            e.note(s2, '%s daemon fails' % e.mod.locstr(i))
            return [(st, F), (s2, NONE)]
        if name in ('waitpid', 'wait', 'wait4'):
            self.res.n['waits'] += 1
            if name != 'waitpid' or args[0] not in kids:
                e.report('wait', i, 'another process than the child is waited for', st)
                return 'stop'
            out = []
            if args[2] != F:
                out.append((st.copy(), F))
            for s in STATUS:
                s1 = st.copy()
                e.store(s1, ('i', s), args[1], 4, i)
                e.note(s1, '%s the child ended with status 0x%x' % (e.mod.locstr(i), s))
                self.set(s1, kids=tuple(k for k in kids if k != args[0]), got=got + (T if s == 0 else F,))
                out.append((s1, args[0]))
            self.set(st, kids=tuple(k for k in kids if k != args[0]), got=got + (F,))
            e.note(st, '%s waiting fails' % e.mod.locstr(i))
            return out + [(st, NONE)]
        if name == 'close' and args[0] == F:
            self.set(st, inp=1)
            return [(st, F)]
        if name in ('open', 'openat', 'open64', 'openat64') and inp == 1:
            p = args[1 if name.startswith('openat') else 0]
            if e.mod.string(self.opv(p)) != '/dev/null':
                e.report('input', i, 'another file becomes the standard input', st)
            self.set(st, inp=2)
            return [(st, F), (st.copy(), NONE)]
        if name in EXEC:
            return self.exec(e, st, name, args, i)
        if name == 'memccpy' and args[0][0] == 'p' and args[0][2][0] == 'i' and args[3][0] == 'i':
            t = self.text(e, st, args[1])
            if t is not None and args[2] == F:
                self.put(st, args[0], t, args[3][1])
                return [(st, F if len(t) >= args[3][1] else ('p', args[0][1], eng.addk(args[0][2], len(t) + 1)))]
        if self.payload is not None and name in ('inet_ntop', 'inet_ntoa'):
            if name == 'inet_ntop':
                src = [e.rd(st, args[1][1], eng.addk(args[1][2], k), 1, 'i8') for k in range(4)] if args[1][0] == 'p' else []
                dst, size = args[2:4]
            else:
                v = args[0]
                src = [('i', v[1] >> 8 * k) for k in range(4)] if v[0] == 'i' else []
                dst, size = ('p', ('g', '*address'), F), ('i', 16)
            if len(src) < 4 or any(b[0] != 'i' for b in src) or size[0] != 'i':
                return
            t = '.'.join('%d' % (b[1] & 255) for b in src)
            if len(t) >= size[1]:
                return [(st, F)]
            self.put(st, dst, t)
            return [(st, dst)]
        if self.payload is not None and name in ('snprintf', 'sprintf'):
            a = args[1 if name == 'sprintf' else 2:]
            t = self.format(e, st, self.text(e, st, a[0]), a[1:])
            if t is not None and (name == 'sprintf' or args[1][0] == 'i' and args[1][1]):
                self.put(st, args[0], t if name == 'sprintf' else t[:args[1][1] - 1])
                return [(st, ('i', len(t)))]

    def put(self, st, p, t, n=None):
        for k, c in enumerate((t.encode() + b'\0')[:n]):
            st.write(p[1], p[2][1] + k, 1, ('i', c))

    def format(self, e, st, fmt, args):
        out, args, k = '', list(args), 0
        for lit, width, conv in re.findall('([^%]+)|%([hlz]*)([a-z%])', fmt or ''):
            if lit or conv == '%':
                out += lit or '%'
                continue
            if not args:
                return None
            v = args.pop(0)
            if conv == 's':
                t = self.text(e, st, v)
            elif conv in 'udi' and v[0] == 'i':
                w = {'h': 16, 'hh': 8}.get(width, 32)
                n = v[1] & (1 << w) - 1
                t = '%d' % (n - (1 << w) if conv in 'di' and n >> w - 1 else n)
            else:
                t = None
            if t is None:
                return None
            out += t
        return out

    @staticmethod
    def opv(v):
        if v[0] == 'p' and v[1][0] == 'g' and v[2][0] == 'i':
            return ('g', v[1][1], v[2][1])
        return v

    def text(self, e, st, v):
        """the string pointed to, or None"""
        if v[0] != 'p' or v[2][0] != 'i':
            return None
        if v[1][0] == 'g' and v[1][1] in e.mod.globals and e.mod.globals[v[1][1]].constant:
            return e.mod.string(self.opv(v))
        out = b''
        for k in range(100):
            b = e.rd(st, v[1], eng.addk(v[2], k), 1, 'i8')
            if b[0] != 'i':
                return None
            if b == F:
                return out.decode('latin1')
            out += bytes([b[1] & 255])

    def exec(self, e, st, name, args, i):
        gen, kids, got, inp = st.mon['y']
        self.res.n['executions'] += 1
        if name not in ('execve', 'execv') or args[1][0] != 'p':
            raise AnalysisError('unknown way of executing')
        argv = []
        while True:
            if len(argv) > MAXARGS:
                e.report('vector', i, 'the list of arguments has no end', st)
                return 'stop'
            v = e.rd(st, args[1][1], eng.addk(args[1][2], 8 * len(argv)), 8, 'ptr')
            if v == F:
                break
            if v[0] not in 'ps':
                e.report('vector', i, 'the list of arguments has no end', st)
                return 'stop'
            argv.append(v)
        words = [self.text(e, st, v) for v in argv]
        e.note(st, '%s executes %s' % (e.mod.locstr(i), ' '.join(w or '?' for w in words)))
        if not argv or argv[0] != args[0]:
            e.report('vector', i, 'the name of the program is not the one executed', st)
            return 'stop'
        prog = st.peek(('g', self.prog), 0, 8) if self.prog in e.mod.globals else None
        if gen == 0:
            self.res.n['restarts'] += 1
            if prog is None or argv[0] != prog:
                e.report('daemon', i, 'the daemon is replaced by another program', st)
            elif words[1:] not in ([], ['--black']):
                e.report('restart', i, 'the daemon is restarted with other arguments', st)
            else:
                w = e.truth(st, st.peek(('g', self.black), 0, 1))
                if w is None or bool(w) != (words[1:] == []):
                    e.report('restart', i, 'the mode of operation changes when the daemon is restarted', st)
        else:
            self.res.n['commands'] += 1
            if not words[0] or words[0][0] != '/':
                e.report('program', i, 'the program executed depends on the environment', st)
            if inp != 2:
                e.report('input', i, 'the command shares the standard input of the daemon', st)
            if 'restart' in words and got and got[0] != T:
                e.report('restart', i, 'the daemon is restarted although it was not upgraded', st)
            if self.payload is not None:
                if '-r' not in words or words.index('-r') + 1 >= len(argv) or words[words.index('-r') + 1] != self.server:
                    e.report('address', i, 'the command does not get the address of the server', st)
        return [(st, NONE)]

    def lock(self, e, st, what, m, i):
        if what == 'acquire' and st.mon['y'][0]:
            self.res.n['locks'] += 1
            if m[0] == 'p' and m[1][0] == 'g' and m[1][1] not in self.safe:
                e.report('lock', i, 'a forked child waits for a lock which another thread of the daemon may have held', st)

    def exit(self, e, st, kind, v, i):
        gen, kids, got, inp = st.mon['y']
        self.res.n['exits'] += 1
        if kind == 'return':
            if gen:
                e.report('return', i, 'a forked child continues as the daemon', st)
            elif v is not None and self.root == 'PROC_execAndReturn':
                self.res.n['results'] += 1
                t = e.truth(st, v)
                if t is None or bool(t) != (got == (T,)):
                    e.report('result', i, 'the result is not whether the command succeeded', st)
                if kids:
                    e.report('wait', i, 'the child is not waited for', st)
        elif kind == 'noreturn' and gen == 0:
            e.report('exit', i, 'the daemon ends', st)


class C22(Check):
    id = 'C22'
    title = 'Commands of the server never duplicate or end the daemon'
    rule = ('Typestate of processes: on every path of every handler of a command (and of the functions executing programs) a forked child ends or executes a program, takes no lock which '
            'another thread may have held, and the daemon is only replaced by itself.')
    quick = ['rc', 'rcsys', 'dump1090-donated']
    thorough = ['rc', 'rcsys', 'dump1090-donated', 'dump1090-kit']
    minimum = {'forks': 6, 'executions': 6, 'restarts': 4, 'results': 6, 'locks': 3}
    assumptions = ['system calls fail or succeed as documented', 'handlers run in a thread of their own while other threads log']

    def jobs(self, tier):
        return [(p,) for p in self.products(tier)]

    def run(self, job, res):
        m = ir.load(job[0])
        hs = [h for h in callbacks(m) if rules.reach(m, {h}) & set(SPAWN)]
        if not hs:
            raise AnalysisError('no handler executes anything')
        called = set().union(*rules.callees(m).values())
        fns = [f for f in sorted(m.defined) if f not in hs and rules.reach(m, {f}) & set(SPAWN) and (f not in called or f == 'PROC_execAndReturn')]
        for f in hs + fns:
            if f == 'main' or f == 'PROC_fork':
                continue
            for pay in ((10, 200, 3, 255, 0x12, 0x34), (255, 255, 255, 255, 255, 254), (1, 2, 3, 4, 0, 22)) if self.address(m, f) else (None,):
                mon = Process(res, m, f, pay)
                e = eng.Engine(m, [mon], cancel=False, shared=lambda g: False)
                st = e.initial_state()
                fn = m.defined[f]
                args = None
                if pay:
                    o = ('h', st.fresh()[1])
                    st.mem[o] = {}
                    for k, b in enumerate(pay):
                        st.write(o, k, 1, ('i', b))
                    args = [('p', o, F)]
                elif f.startswith('PROC_'):
                    o = ('h', st.fresh()[1])
                    st.mem[o] = {}
                    s = [g for g in sorted(m.globals) if (m.string(('g', g, 0)) or '').startswith('/')][0]
                    st.write(o, 0, 8, ('p', ('g', s), F))
                    st.write(o, 8, 8, F)
                    args = [('p', o, F)]
                for w in (T, F) if 'FPGA_bbwhite' in m.globals else (F,):
                    s = st.copy()
                    if 'FPGA_bbwhite' in m.globals:
                        s.write(('g', 'FPGA_bbwhite'), 0, 1, w)
                    if 'MAIN_progName' in m.globals:
                        s.write(('g', 'MAIN_progName'), 0, 8, ('p', ('h', s.fresh()[1]), F))
                    e = eng.Engine(m, [mon], cancel=False, shared=lambda g: False, log_inline=True)
                    e.run(fn, args, s)
                    res.take(e)
                    res.n['roots'] += 1

    def address(self, m, f):
        return 'TB_reverseShell' == f or bool({'inet_ntop', 'inet_ntoa'} & rules.reach(m, {f}))


CHECK = C22()
