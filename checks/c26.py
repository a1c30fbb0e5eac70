from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
TYPES = {'rc': 2, 'rcsys': 2, 'rcnet': 3, 'rcdummy': 1, 'dump1090-donated': 6, 'dump1090-kit': 7}
FEEDERS = (5, 8)            # dump1090: told by the configuration
LOOSE = ('COMP_', 'CFG_', 'TB_register', 'LOGIN_', 'FILTER_', 'SERIAL_ETH_', 'UTIL_', 'SOCK_init', 'SOCK_cleanup')
PERM, SIGINT = 2, 2


class Main(eng.Monitor):
    """what main did, in any order: set of events"""
    key = 'm'
    init = ()

    def __init__(self, res, product, options):
        self.res, self.product, self.options = res, product, options

    def has(self, st, x):
        return x in st.mon['m']

    def add(self, st, *x):
        st.mon['m'] = tuple(sorted(set(st.mon['m']) | set(x)))

    def drop(self, st, *x):
        st.mon['m'] = tuple(y for y in st.mon['m'] if y not in x)

    def both(self, st, *x):
        """succeeds or not"""
        s = st.copy()
        self.add(st, *x)
        return [(st, T), (s, F)]

    def late(self, e, st, i, what):
        if self.has(st, 'start'):
            e.report('late', i, what + ' while threads are running', st)

    def call(self, e, st, name, args, i):
        h = lambda x: self.has(st, x)
        for a in args:
            if a and a[0] == 'p' and a[1] in self.options['vars'] and not h('read') and not name.startswith(('llvm.mem', 'LOGIN_set')):
                e.report('config', i, 'an option is used before the configuration is read', st)
        if h('start') and not h('stopped') and name in ('CFG_unregisterAll', 'COMP_unregisterAll', 'COMP_destructAll', 'SOCK_cleanup'):
            e.report('end', i, '%s while threads are running' % name, st)
        if name in ('COMP_register', 'CFG_registerSection'):
            self.res.n['registered'] += 1
            if h('defaults') or h('fixup') and name == 'COMP_register':
                e.report('register', i, 'something is registered too late', st)
            self.add(st, 'components')
            return [(st, None)]
        if name == 'COMP_fixup':
            if h('fixup'):
                e.report('register', i, 'the dependencies are resolved twice', st)
            if not h('components'):
                e.report('register', i, 'there are no components', st)
            self.add(st, 'fixup')
            return [(st, None)]
        if name == 'CFG_loadDefaults':
            if not h('fixup'):
                e.report('register', i, 'options of components get no default value', st)
            if h('read') or h('set') or h('defaults'):
                e.report('config', i, 'the configuration is overwritten with default values', st)
            self.add(st, 'defaults')
            return [(st, None)]
        if name.startswith('CFG_set') or name == 'FILTER_setSynchronizedFilter':
            if not h('defaults'):
                e.report('config', i, 'a preset is overwritten with default values', st)
            if h('read') and name.startswith('CFG_'):
                e.report('config', i, 'the configuration is overwritten with a preset', st)
            self.late(e, st, i, 'the configuration is changed')
            self.drop(st, 'checked')
            self.add(st, 'set')
            if name == 'FILTER_setSynchronizedFilter':
                self.add(st, 'nosync')
                if args[0] != F:
                    e.report('config', i, 'frames are expected to be synchronized', st)
            return [(st, None)]
        if name in ('CFG_readFile', 'CFG_readDirectory'):
            self.res.n['read'] += 1
            if not h('defaults'):
                e.report('config', i, 'the configuration is read before default values are set', st)
            self.late(e, st, i, 'the configuration is read')
            a = args[0]
            path = e.mod.globals[a[1][1]].cstring(a[2][1]) if a[0] == 'p' and a[1][0] == 'g' and a[2][0] == 'i' else None
            if path is None:
                e.report('config', i, 'the configuration is read from an unknown place', st)
            self.drop(st, 'checked', 'etc')
            self.add(st, 'read')
            if path and path.startswith('/usr/local/etc/'):
                self.add(st, 'etc')
            s = st.copy()
            return [(st, T), (s, F)]
        if name == 'CFG_check':
            self.res.n['checks'] += 1
            return self.both(st, 'checked')
        if name == 'CFG_write':
            self.res.n['saved'] += 1
            if not h('checked'):
                e.report('config', i, 'a configuration is saved which was not checked', st)
            s = st.copy()
            self.add(st, 'saved')
            self.add(s, 'unsaved')
            return [(st, T), (s, F)]
        if name == 'SERIAL_ETH_getSerial':
            self.res.n['serials'] += 1
            if not h('read'):
                e.report('config', i, 'the serial number is asked for before the configuration is read', st)
            out = []
            for k in range(4):
                s = st.copy()
                if k != PERM:
                    self.add(s, 'serial')
                out.append((s, ('i', k)))
            return out
        if name in ('srand', 'srandom'):
            if args[0][0] == 'i':
                e.report('seed', i, 'random numbers are the same for each start', st)
            self.add(st, 'seed')
            return
        if name == 'TB_register':
            self.res.n['commands'] += 1
            self.late(e, st, i, 'a command is registered')
            return [(st, None)]
        if name == 'LOGIN_setDeviceType':
            self.res.n['types'] += 1
            self.late(e, st, i, 'the type of the device is set')
            if h('type'):
                e.report('type', i, 'the type of the device is set twice', st)
            want = (TYPES[self.product],) if self.product in TYPES else FEEDERS
            if self.product not in TYPES and not h('read'):
                e.report('config', i, 'the type of the device is set before the configuration is read', st)
            lo, hi = st.rng(args[0])
            if not all(x in want or x in st.excl(args[0]) for x in range(lo, min(hi, lo + 99) + 1)) or hi > lo + 99:
                e.report('type', i, 'the device is of another type', st)
            self.add(st, 'type')
            return [(st, None)]
        if name == 'LOGIN_setUsername':
            self.res.n['users'] += 1
            self.late(e, st, i, 'the user is set')
            if args[0] == F or args[0][0] != 'p' or (args[0][1], args[0][2]) != self.options.get('username'):
                e.report('user', i, 'the user is not the one configured', st)
            if not h('read'):
                e.report('config', i, 'the user is set before the configuration is read', st)
            self.add(st, 'user')
            return [(st, None)]
        if name == 'COMP_initAll':
            self.res.n['inits'] += 1
            if not h('checked'):
                e.report('config', i, 'components are initialized although the configuration was not found consistent', st)
            if not h('etc'):
                e.report('config', i, 'the configuration of the administrator does not come last', st)
            if self.product.startswith('rc') and not h('serial'):
                e.report('serial', i, 'the daemon starts although it has no serial number', st)
            if h('init'):
                e.report('init', i, 'components are initialized twice', st)
            if h('saved') or h('unsaved'):
                e.report('init', i, 'the daemon starts although the configuration is only to be saved', st)
            return self.both(st, 'init')
        if name == 'COMP_startAll':
            self.res.n['starts'] += 1
            if not h('init'):
                e.report('init', i, 'components are started although initializing them failed', st)
            if not h('checked'):
                e.report('config', i, 'components are started although the configuration was not found consistent', st)
            if not h('type'):
                e.report('type', i, 'components are started without device type', st)
            if not h('seed'):
                e.report('seed', i, 'components are started without seed for random numbers', st)
            if self.product.startswith('dump1090'):
                if not h('user'):
                    e.report('user', i, 'components are started without user', st)
                if not h('nosync'):
                    e.report('config', i, 'frames which are not synchronized are dropped, but they never are', st)
            return self.both(st, 'start')
        if name == 'UTIL_waitSigInt':
            self.res.n['waits'] += 1
            if not h('start') or h('stopped'):
                e.report('start', i, 'the daemon waits although it is not running', st)
            self.add(st, 'waited')
            return [(st, None)]
        if name == 'COMP_stopAll':
            self.res.n['stops'] += 1
            if h('start') and not h('waited'):
                e.report('end', i, 'the daemon ends without being asked to', st)
            self.add(st, 'stopped')
            return [(st, None)]
        if name == 'COMP_destructAll':
            if h('start') and not h('stopped'):
                pass
            self.add(st, 'destructed')
            return [(st, None)]

    def load(self, e, st, obj, off, size, i):
        if obj in self.options['vars'] and not self.has(st, 'read'):
            e.report('config', i, 'an option is used before the configuration is read', st)

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        self.res.n['ends'] += 1
        h = lambda x: self.has(st, x)
        ok = v is not None and e.cmp(st, 'eq', v, F, 32)
        if h('start'):
            if not h('waited'):
                e.report('end', i, 'the daemon ends without being asked to', st)
            if not (h('stopped') and h('destructed')):
                e.report('end', i, 'the daemon ends without stopping its components', st)
            if ok is not True:
                e.report('status', i, 'ending regularly is reported as failure', st)
        elif h('init') and not h('destructed'):
            e.report('end', i, 'the daemon ends without destructing its components', st)
        if not h('start'):
            if (h('unsaved') or h('read') and not h('checked') or h('init')) and ok is not False:
                e.report('status', i, 'a failure is reported as success', st)
            if h('saved') and ok is not True:
                e.report('status', i, 'saving the configuration is reported as failure', st)


class Privileges(eng.Monitor):
    """UTIL_dropPrivileges: what was given up"""
    key = 'm'
    init = ()

    def __init__(self, res):
        self.res = res

    def call(self, e, st, name, args, i):
        done = st.mon['m']
        if name in ('getuid', 'geteuid'):
            s = st.copy()
            st.mon['m'] = tuple(sorted(set(done) | {'user'}))
            return [(st, st.fresh((1, 1 << 31))), (s, F)]
        if name in ('setgroups', 'initgroups', 'setgid', 'setuid', 'setregid', 'setreuid', 'setresgid', 'setresuid'):
            self.res.n['drops'] += 1
            what = 'groups' if 'groups' in name else name[-3:]
            for a in args[:1 if 'groups' not in name else 0] if 'res' not in name and 're' not in name[3:5] else args:
                if a == F:
                    e.report('drop', i, '%s to root' % name, st)
            if name == 'setgroups' and args[0] != F:
                e.report('drop', i, 'further groups are kept', st)
            need = {'groups': (), 'gid': ('groups',), 'uid': ('groups', 'gid')}[what]
            for x in need:
                if x not in done:
                    e.report('order', i, '%s before %s cannot be given up any more' % (name, x), st)
            s = st.copy()
            st.mon['m'] = tuple(sorted(set(done) | {what}))
            return [(st, F), (s, ('i', -1))]

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        self.res.n['dropped'] += 1
        if 'user' not in st.mon['m'] and not {'groups', 'gid', 'uid'} <= set(st.mon['m']):
            e.report('drop', i, 'privileges are kept although dropping them failed', st)


class Signal(eng.Monitor):
    """UTIL_waitSigInt"""
    key = 'm'
    init = ()

    def __init__(self, res):
        self.res = res

    def add(self, st, x):
        st.mon['m'] = tuple(sorted(set(st.mon['m']) | {x}))

    def call(self, e, st, name, args, i):
        h = st.mon['m']
        if name == 'sigaddset':
            if args[1] == ('i', SIGINT):
                self.add(st, 'set')
            return [(st, F)]
        if name in ('sigemptyset', 'sigfillset'):
            st.mon['m'] = tuple(x for x in h if x != 'set')
            if name == 'sigfillset':
                self.add(st, 'set')
            return [(st, F)]
        if name in ('pthread_sigmask', 'sigprocmask'):
            s = st.copy()
            if args[0] == F and 'set' in h:        # SIG_BLOCK
                self.add(st, 'blocked')
            elif args[0] != F:
                st.mon['m'] = tuple(x for x in h if x != 'blocked')
            return [(st, F), (s, ('i', 22))]
        if name in ('sigwait', 'sigwaitinfo'):
            self.res.n['signals'] += 1
            if 'blocked' not in h or 'set' not in h:
                e.report('signal', i, 'SIGINT is waited for without blocking it', st)
            s = st.copy()
            e.havoc_arg(st, args[1])
            self.add(st, 'signal')
            return [(st, F), (s, ('i', 22))]

    def exit(self, e, st, kind, v, i):
        if kind == 'return' and 'signal' not in st.mon['m']:
            e.report('signal', i, 'the daemon ends without signal', st)


class Watchdog(eng.Monitor):
    """the watchdog daemon"""
    key = 'm'
    init = ()

    def __init__(self, res, gpio, wd, main):
        self.res, self.gpio, self.wd, self.main = res, gpio, wd, main

    def add(self, st, x):
        st.mon['m'] = tuple(sorted(set(st.mon['m']) | {x}))

    def call(self, e, st, name, args, i):
        pass

    def event(self, e, st, name, i):
        h = st.mon['m']
        if name == self.gpio:
            if 'dropped' in h:
                e.report('order', i, 'the hardware is accessed without privileges', st)
            s = st.copy()
            self.add(st, 'gpio')
            return [(st, T), (s, F)]
        if name == 'UTIL_dropPrivileges':
            self.add(st, 'dropped')
            return [(st, None)]
        if name in (self.wd, self.main):
            self.res.n['watchdog'] += 1
            if 'gpio' not in h:
                e.report('gpio', i, 'the watchdog runs although the hardware is not accessible', st)
            if 'dropped' not in h:
                e.report('privileges', i, 'the watchdog runs with privileges', st)
            if name == self.main and 'construct' not in h:
                e.report('gpio', i, 'the watchdog runs without being set up', st)
            self.add(st, 'construct' if name == self.wd else 'run')
            return [(st, T if name == self.wd else None)]

    def exit(self, e, st, kind, v, i):
        if kind == 'return':
            self.res.n['ends'] += 1
            if 'run' not in st.mon['m'] and e.cmp(st, 'eq', v, F, 32) is not False:
                e.report('status', i, 'a failure is reported as success', st)


class C26(Check):
    id = 'C26'
    title = 'The daemons run only with a consistent configuration, and end in order'
    rule = ('Typestate of every path of main: everything registered, default values, configuration of the administrator last, checked, initialized, told who it is, started, waiting for SIGINT, '
            'stopped, destructed; failures end it and are reported; privileges are dropped for good.')
    quick = ['rc', 'rcnet', 'rcdummy', 'wd', 'dump1090', 'dump1090-donated', 'dump1090-kit']
    minimum = {'checks': 6, 'inits': 6, 'starts': 6, 'stops': 6, 'types': 6, 'users': 3, 'read': 9, 'saved': 3, 'serials': 3, 'drops': 3, 'signals': 1, 'watchdog': 2, 'ends': 8}
    assumptions = ['components are initialized, started and stopped as told (C20)', 'a message of the highest level ends the process (C27)']

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            if 'main' not in m.functions or m.functions['main'].decl:
                continue
            out.append((p, 'main'))
            out += [(p, f) for f in ('UTIL_dropPrivileges', 'UTIL_waitSigInt') if f in m.functions and not m.functions[f].decl and rules.callers(m).get(f)]
        return out

    def run(self, job, res):
        m = ir.load(job[0])
        if job[1] != 'main':
            mon = (Privileges if job[1] == 'UTIL_dropPrivileges' else Signal)(res)
            e = eng.Engine(m, [mon], cancel=False)
            e.run(m.functions[job[1]])
            return res.take(e)
        if job[0] == 'wd':
            comps = {g: c for g, c in m.comps().items()}
            gpio = [c for g, c in comps.items() if 'GPIO' in g]
            wd = [c for g, c in comps.items() if 'WD' in g]
            if len(gpio) != 1 or len(wd) != 1:
                raise AnalysisError('wd: components not found')
            f = lambda c, n: rules.fnop(c[n])
            mon = Watchdog(res, f(gpio[0], 'onConstruct'), f(wd[0], 'onConstruct'), f(wd[0], 'main'))
            own = {mon.gpio, mon.wd, mon.main, 'UTIL_dropPrivileges'}
            own = {m.functions[x].dname if x in m.functions else x for x in own} | own
            mon.call = lambda e, st, name, args, i: mon.event(e, st, self.target(e, st, i, name), i)
            e = eng.Engine(m, [mon], cancel=False, noinline=own, shared=lambda g: False)
            st = e.initial_state()
            e.set_globals_initial(st)
            e.run(m.functions['main'], st=st)
            return res.take(e)
        own = {x for x in m.functions if x.startswith(LOOSE) and not m.functions[x].internal}
        opts = {}
        FI = m.field
        var = set()
        for g in m.globals.values():
            if g.d.get('dtype') == 'CFG_Section' and not g.d['decl']:
                for k in range(g.read(*FI('CFG_Section', 'n_opt'))[1]):
                    b = FI('CFG_Section', 'options')[0] + k * m.structs['CFG_Option']['size']
                    v = g.read(b + FI('CFG_Option', 'var')[0], 8)
                    if v and v[0] == 'g':
                        var.add(('g', v[1]))
                        if (m.string(g.read(b + FI('CFG_Option', 'name')[0], 8)) or '').lower() == 'username':
                            opts['username'] = (('g', v[1]), ('i', v[2]))
        opts['vars'] = var
        if job[0].startswith('dump1090') and 'username' not in opts:
            raise AnalysisError('%s: no option for the user' % m.key)
        mon = Main(res, job[0], opts)
        e = eng.Engine(m, [mon], cancel=False, noinline=own, shared=lambda g: False)
        st = e.initial_state()
        e.set_globals_initial(st, lambda g: ('g', g.name) not in var)
        e.run(m.functions['main'], st=st)
        res.take(e)

    def target(self, e, st, i, name):
        cal = i.d['callee']
        if cal[0] == 'f':
            return cal[1]
        v = e.opval(st, st.frames[-1].regs, cal)
        return v[1] if v[0] == 'f' else name


CHECK = C26()
