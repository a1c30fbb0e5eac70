import itertools
from vpa import eng, hist, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
FN = ('onRegister', 'onConstruct', 'onDestruct', 'main', 'onStart', 'onStop', 'onReset')
# components: (dependencies, kind, enabled, to be started); kind: t (thread), s (starts itself), n (nothing to be constructed or started)
REG, CON = 1, 2                     # registered, constructed
IDLE, RUN, ASKED = 0, 1, 2          # not running, running, asked to stop but still running


class Life(hist.History):
    """model: phase, per component (state, running), failed, events of the call"""

    def __init__(self, res, m, comps):
        hist.History.__init__(self, res)
        self.comps = comps
        self.rdep = {k: [j for j, c in enumerate(comps) if k in c[0]] for k in range(len(comps))}

    def fn(self, v):
        if v[0] != 'i' or not 1000 <= v[1] < 1000 + 10 * len(self.comps) or (v[1] - 1000) % 10 >= len(FN):
            raise AnalysisError('call of an unknown function')
        return (v[1] - 1000) // 10, FN[(v[1] - 1000) % 10]

    def begin(self, st):
        phase, cs, bad, ev = self.get(st)
        self.put(st, phase, cs, F, ())

    def set(self, st, k, state=None, run=None, ev=None, bad=None):
        phase, cs, b, e = self.get(st)
        cs = list(cs)
        cs[k] = (cs[k][0] if state is None else state, cs[k][1] if run is None else run)
        self.put(st, phase, tuple(cs), T if bad else b, e + ((ev, k),) if ev else e)

    def icall(self, e, st, v, args, i):
        k, what = self.fn(v)
        phase, cs, bad, ev = self.get(st)
        op = self.op(st)[0]
        state, run = cs[k]
        deps, kind, enabled, start = self.comps[k]
        self.res.n[what] += 1
        if what == 'onRegister':
            if state or op not in ('register', 'fixup'):
                e.report('register', i, 'a component is registered twice', st)
            self.set(st, k, REG)
            return [(st, None)]
        if what == 'onReset':
            if op != 'reset' or ('reset', k) in ev:
                e.report('reset', i, 'a component is reset twice', st)
            self.set(st, k, ev='reset')
            return [(st, None)]
        if what == 'onConstruct':
            if op != 'init' or state != REG or not enabled:
                e.report('construct', i, 'a component is constructed twice or although it is disabled', st)
            if any(cs[d][0] != CON and self.comps[d][1] != 'n' for d in deps):
                e.report('construct', i, 'a component is constructed before what it depends on', st)
            if bad == T:
                e.report('construct', i, 'another component is constructed after one failed', st)
            s2 = st.copy()
            self.set(st, k, CON)
            self.set(s2, k, bad=True)
            return [(st, T), (s2, F)]
        if what == 'onDestruct':
            if op != 'destruct' and bad != T:
                e.report('destruct', i, 'a component is destructed although it is in use', st)
            if state != CON or run != IDLE:
                e.report('destruct', i, 'a component is destructed which is running or not constructed', st)
            if any(cs[d][0] == CON and self.comps[d][1] != 'n' for d in self.rdep[k]):
                e.report('destruct', i, 'a component is destructed before what depends on it', st)
            self.set(st, k, REG)
            return [(st, None)]
        if what == 'onStart' or what == 'main':
            if kind != 's' or what == 'main':
                raise AnalysisError('main function is called')
            s2 = st.copy()
            self.start(e, st, k, i)
            self.set(st, k, run=RUN)
            self.set(s2, k, bad=True)
            return [(st, T), (s2, F)]
        # onStop
        first = args[0] == F
        if not first and ('asked', k) not in ev:
            e.report('stop', i, 'a component is not told to stop before it is asked again', st)
        if first and ('asked', k) in ev:
            e.report('stop', i, 'a component is told to stop twice', st)
        self.ask(e, st, k, i)
        s2 = st.copy()
        self.set(st, k, run=IDLE)
        return [(st, T), (s2, F)]

    def start(self, e, st, k, i):
        phase, cs, bad, ev = self.get(st)
        deps, kind, enabled, start = self.comps[k]
        self.res.n['starts'] += 1
        if self.op(st)[0] != 'start' or bad == T:
            e.report('start', i, 'another component is started after one failed', st)
        if cs[k] != (CON, IDLE):
            e.report('start', i, 'a component is started which is running or not constructed', st)
        if not start:
            e.report('start', i, 'a component is started which shall not be', st)
        if any(cs[d][1] == IDLE and self.comps[d][1] != 'n' and self.comps[d][3] for d in deps):
            e.report('start', i, 'a component is started before what it depends on', st)

    def ask(self, e, st, k, i):
        phase, cs, bad, ev = self.get(st)
        self.res.n['stops'] += 1
        if self.op(st)[0] != 'stop' and bad != T:
            e.report('stop', i, 'a component is stopped although it is in use', st)
        if cs[k][1] == IDLE:
            e.report('stop', i, 'a component is stopped which is not running', st)
        if any(cs[d][1] != IDLE and ('asked', d) not in ev for d in self.rdep[k]):
            e.report('stop', i, 'a component is stopped before what depends on it', st)
        self.set(st, k, run=ASKED, ev='asked' if ('asked', k) not in ev else None)

    def thread(self, e, st, v, i):
        if v[0] != 'i' or not 500 <= v[1] < 500 + len(self.comps):
            e.report('thread', i, 'something else than the thread of a component is used', st)
            return None
        return v[1] - 500

    def call(self, e, st, name, args, i):
        phase, cs, bad, ev = self.get(st)
        if name == 'pthread_create':
            k, what = self.fn(args[2])
            if what != 'main' or self.comps[k][1] != 't':
                e.report('start', i, 'a thread is created for a component which does not need one', st)
                return 'stop'
            s2 = st.copy()
            self.start(e, st, k, i)
            if args[0][0] != 'p' or args[0][2][0] != 'i':
                raise AnalysisError('unknown thread')
            st.write(args[0][1], args[0][2][1], 8, ('i', 500 + k))
            self.set(st, k, run=RUN)
            self.set(s2, k, bad=True)
            return [(st, F), (s2, ('i', 11))]
        if name == 'pthread_cancel':
            k = self.thread(e, st, args[0], i)
            if k is None:
                return 'stop'
            if ('asked', k) in ev:
                e.report('stop', i, 'a thread is cancelled twice', st)
            self.ask(e, st, k, i)
            return [(st, F)]
        if name in ('pthread_timedjoin_np', 'pthread_join', 'pthread_tryjoin_np'):
            k = self.thread(e, st, args[0], i)
            if k is None:
                return 'stop'
            self.res.n['joins'] += 1
            if cs[k][1] != ASKED or ('asked', k) not in ev:
                e.report('join', i, 'waits for a thread which was not cancelled or is joined already', st)
                return 'stop'
            s2 = st.copy()
            self.set(st, k, run=IDLE)
            return [(st, F), (s2, ('i', 110))][:1 if name == 'pthread_join' else 2]
        if name in ('pthread_setname_np', 'clock_gettime'):
            return [(st, F)]
        if name == 'CFG_registerSection':
            return [(st, None)]
        if name == '__assert_fail':
            e.report('assert', i, 'an assertion fails', st)
            return 'stop'
        if name in ('LOG_log', 'LOG_logf', 'LOG_errno', 'LOG_errno2') and args[0] == ('i', 6):
            return None

    def noreturn(self, e, st, i):
        op = self.op(st)[0]
        on = [c for c in self.comps]
        legit = op == 'register' and self.get(st)[1][self.op(st)[1]][0]       # twice
        legit = legit or op == 'init' and any(c[2] and any(not self.comps[d][2] for d in c[0]) for c in on)
        if not legit and not any('fails' in x for x in self.notes(st)):
            e.report('exit', i, 'the process is terminated without need', st)

    def notes(self, st):
        t, out = st.trace, []
        while t:
            t, x = t
            if x.startswith('call of '):
                break
            out.append(x)
        return out

    def end(self, e, st, v, i):
        phase, cs, bad, ev = self.get(st)
        op = self.op(st)[0]
        self.res.n['ends'] += 1
        cs = list(cs)
        need = self.needed
        if op == 'register':
            if cs[self.op(st)[1]][0] != REG:
                e.report('register', i, 'a component is not registered', st)
            phase += 1
        elif op == 'fixup':
            if any(c[0] != (REG if k in need else 0) for k, c in enumerate(cs)):
                e.report('register', i, 'the components registered are not those needed', st)
            phase = 'R'
        elif op == 'init':
            if any(self.comps[k][2] and any(not self.comps[d][2] for d in self.comps[k][0]) for k in need):
                e.report('disabled', i, 'components are constructed which depend on a disabled one', st)
            on = [k for k in need if self.comps[k][2]]
            for k in on:
                if self.comps[k][1] == 'n':
                    cs[k] = (CON if bad == F else REG, IDLE)
            if v not in (T, F):
                raise AnalysisError('unknown result')
            if (v == F) != (bad == T):
                e.report('construct', i, 'a failure to construct a component is not reported', st)
            if any(cs[k][0] != (CON if bad == F else REG) for k in on):
                e.report('construct', i, 'components stay constructed after one failed' if bad == T else 'a component is not constructed', st)
            phase = 'I' if bad == F else 'R'
        elif op == 'start':
            if v not in (T, F):
                raise AnalysisError('unknown result')
            if (v == F) != (bad == T):
                e.report('start', i, 'a failure to start a component is not reported', st)
            for k in need:
                d, kind, en, go = self.comps[k]
                if bad == F and en and go and kind != 'n' and cs[k][1] == IDLE:
                    e.report('start', i, 'a component is not started', st)
                if bad == T and cs[k][1] != IDLE and ('asked', k) not in ev:
                    e.report('start', i, 'a component keeps running although starting another one failed', st)
        elif op == 'stop':
            if any(cs[k][1] != IDLE and ('asked', k) not in ev for k in need):
                e.report('stop', i, 'a component is not stopped', st)
        elif op == 'destruct':
            cs = [(REG, IDLE) if k in need and self.comps[k][1] == 'n' else c for k, c in enumerate(cs)]
            if any(cs[k][0] == CON for k in need):
                e.report('destruct', i, 'a component is not destructed', st)
            phase = 'R'
        elif op == 'reset':
            if any(('reset', k) not in ev for k in need):
                e.report('reset', i, 'a component is not reset', st)
        elif op == 'unregister':
            phase = 'U'
            cs = [(0, IDLE) for c in cs]
        self.put(st, phase, tuple(cs), F, ())


def closure(comps, reg):
    out, todo = set(), list(reg)
    while todo:
        k = todo.pop()
        if k not in out:
            out.add(k)
            todo += comps[k][0]
    return out


def configs(tier):
    out = []
    kinds = [('t', 1, 1), ('s', 1, 1), ('t', 1, 1)]
    n = 3
    pairs = [(a, b) for a in range(n) for b in range(n) if a < b]       # b may depend on a
    for r in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, r):
            deps = [tuple(a for a, b in es if b == k) for k in range(n)]
            tops = [k for k in range(n) if not any(k in d for d in deps)]
            for rot in range(3 if tier == 'thorough' else 1):
                comps = tuple((deps[k],) + kinds[(k + rot) % 3] for k in range(n))
                regs = {tuple(tops), tuple(reversed(tops)), tuple(reversed(range(n)))}
                if tier == 'thorough':
                    regs |= set(itertools.permutations(range(n)))
                out += [(comps, reg) for reg in sorted(regs)]
    c = lambda d, k, e=1, s=1: (d, k, e, s)
    out.append(((c((), 'n'), c((0,), 't'), c((1,), 's')), (2,)))
    out.append(((c((), 't'), c((0,), 'n'), c((1,), 's')), (2,)))
    out.append(((c((), 't'), c((0,), 's', 1, 0), c((1,), 't')), (2, 0)))        # not to be started
    out.append(((c((), 't'), c((0,), 's', 0), c((0,), 't')), (1, 2)))           # disabled
    out.append(((c((), 't', 0), c((0,), 's'), c((), 't')), (1, 2)))             # disabled but needed
    out.append(((c((), 't'), c((0,), 's'), c((), 't')), (1, 2, 1)))             # registered twice
    return out


class C20(Check):
    id = 'C20'
    title = 'Components start after what they need, stop before it, and failures are undone'
    rule = ('All states of the component management reachable by registering, constructing, starting, stopping and destructing, each component failing or not, for all graphs of dependencies of '
            'three components, against a model of the life of each component.')
    quick = ['rc']
    minimum = {'onConstruct': 100, 'onDestruct': 100, 'starts': 100, 'stops': 100, 'joins': 50, 'onRegister': 50, 'ends': 300, 'onReset': 10}
    assumptions = ['at most three components; more are treated alike', 'memory is not exhausted while registering', 'components are destructed only after all of them stopped, and not started again while stopping was incomplete']

    def jobs(self, tier):
        return [(p,) + c for p in self.products(tier) for c in configs(tier)]

    def run(self, job, res):
        m = ir.load(job[0])
        comps, reg = job[1:]
        mon = Life(res, m, comps)
        mon.needed = closure(comps, reg)
        fld = {k: m.field('Component', k) for k in FN + ('description', 'enabled', 'start', 'config', 'dependencies')}
        text = sorted(k for k, g in m.globals.items() if g.constant and k in rules.strings(m))
        if not text:
            raise AnalysisError('no strings')
        ptr = lambda k: ('p', ('g', '*comp%d' % k), F)

        def op(*pre):
            """arguments of a call, if it is possible; the descriptors are written anew, as they are constant"""
            ok, args = pre

            def mk(st):
                if not ok(st.mon['h']):
                    return None
                for k, (deps, kind, enabled, start) in enumerate(comps):
                    o = ('g', '*comp%d' % k)
                    has = ({'onRegister', 'onReset'} if kind == 'n' else {'onRegister', 'onConstruct', 'onDestruct', 'onReset'}) | ({'main'} if kind == 't' else {'onStart', 'onStop'} if kind == 's' else set())
                    for j, x in enumerate(FN):
                        st.write(o, fld[x][0], 8, ('i', 1000 + 10 * k + j) if x in has else F)
                    st.write(o, fld['description'][0], 8, ('p', ('g', text[0]), F))
                    st.write(o, fld['config'][0], 8, F)
                    for x, v in (('enabled', enabled), ('start', start)):
                        b = ('g', '*%s%d' % (x, k))
                        st.write(b, 0, 1, ('i', v))
                        st.write(o, fld[x][0], 8, ('p', b, F) if not v or k == 1 else F)
                    for j, d in enumerate(deps):
                        st.write(o, fld['dependencies'][0] + 8 * j, 8, ptr(d))
                    st.write(o, fld['dependencies'][0] + 8 * len(deps), 8, F)
                return args
            return mk
        idle = lambda h: all(c[1] == IDLE for c in h[1])
        f = lambda n: rules.api(m, n)
        ops = []
        for j, k in enumerate(reg):
            ops.append((('register', k), f('COMP_register'), op(lambda h, j=j: h[0] == j, [ptr(k)])))
        ops += [(('fixup',), f('COMP_fixup'), op(lambda h: h[0] == len(reg), [])),
                (('init',), f('COMP_initAll'), op(lambda h: h[0] == 'R', [])),
                (('start',), f('COMP_startAll'), op(lambda h: h[0] == 'I' and all(c[1] != ASKED for c in h[1]), [])),
                (('stop',), f('COMP_stopAll'), op(lambda h: h[0] == 'I', [])),
                (('reset',), f('COMP_resetAll'), op(lambda h: h[0] == 'R', [])),
                (('destruct',), f('COMP_destructAll'), op(lambda h: h[0] == 'I' and idle(h), [])),
                (('unregister',), f('COMP_unregisterAll'), op(lambda h: h[0] == 'R', []))]
        hist.explore(m, res, mon, (0, tuple((0, IDLE) for c in comps), F, ()), ops, {'CFG_registerSection', 'COMP_setSilent'}, K=100000)


CHECK = C20()
