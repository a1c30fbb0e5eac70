from vpa import eng, ir, rules
from vpa.check import Check

WAITS = ('pthread_cond_wait', 'pthread_cond_timedwait')
SIGNALS = ('pthread_cond_broadcast', 'pthread_cond_signal')


def clock(e, st, dn, args, i):
    p = args[1]
    a = e.addr(st, p, i, 'store')
    if isinstance(a, tuple) and a[1][0] == 'i':
        st.kill(a[0], a[1][1], a[1][1] + 16)
        st.write(a[0], a[1][1], 8, st.fresh((0, 1 << 40)))
        st.write(a[0], a[1][1] + 8, 8, st.fresh((0, 999999999)))
    return [(st, eng.ZERO)]


class Wait(eng.Monitor):
    """mon: () before the first wait; (cond,) after a wakeup without any change of state; (value cell...)"""
    key = 'w'

    def __init__(self, res):
        self.res = res
        self.pred = {}      # cond -> {(obj, off, size)}
        self.mutex = {}     # cond -> mutexes
        self.sites = {}     # cond -> {function}
        self.values = {}    # (cond, obj, off) -> waits only while value in ... (from the condition at the wait)

    def call(self, e, st, name, args, i):
        if name in WAITS:
            c = args[0]
            self.mutex.setdefault(c, set()).add(args[1])
            self.sites.setdefault(c, set()).add(e.inssym(i))
            if name == 'pthread_cond_timedwait':
                a = args[2]
                if a[0] == 'p' and a[2][0] == 'i':
                    self.res.n['deadlines'] += 1
                    v = e.rd(st, a[1], ('i', a[2][1] + 8), 8, 'i64')
                    lo, hi = st.rng(v)
                    if lo < 0 or hi > 999999999:
                        e.report('deadline', i, 'nanoseconds of the deadline of the wait can leave 0..999999999', st)
            w = st.mon['w']
            if w:
                self.res.n['rewaits'] += 1
                return 'stop'
            self.res.n['waits'] += 1
            # what is known about the predicate now: it is what makes the thread wait
            s2 = st.copy()
            s2.mon['w'] = (c, 'r')
            e.note(s2, '%s: woken up although nothing has changed' % e.mod.locstr(i))
            return [(s2, eng.ZERO)]
        if name == 'pthread_mutex_unlock':
            w = st.mon['w']
            if w and args[0] in self.mutex.get(w[0], ()):
                e.report('predicate', i, 'a wakeup without any change of state ends the waiting', st)
                return 'stop'

    def exit(self, e, st, kind, v, i):
        if kind == 'return' and st.mon['w']:
            e.report('predicate', i, 'a wakeup without any change of state ends the waiting', st)

    def load(self, e, st, obj, off, size, i):
        w = st.mon['w']
        if w and obj[0] == 'g' and off[0] == 'i':
            g = e.mod.globals.get(obj[1])
            if g is not None and not g.constant:
                self.pred.setdefault(w[0], set()).add((obj, off[1], size))


class Leave(eng.Monitor):
    """with unknown shared state after a wakeup: which values of the predicate end the waiting"""
    key = 'v'

    def __init__(self, pred):
        self.pred = pred
        self.leave = {}     # (cond, obj, off) -> list of (lo, hi, excl)

    def call(self, e, st, name, args, i):
        w = st.mon['v']
        if w and (name in WAITS and args[0] != w[0] or name == 'pthread_mutex_unlock' or name in eng.CANCELPOINTS and name not in WAITS):
            for g, off, v in w[1]:
                lo, hi = st.rng(v)
                self.leave.setdefault((w[0], ('g', g), off), []).append((lo, hi, st.excl(v)))
            return 'stop'
        if name in WAITS:
            if w:
                return 'stop'
            s2 = st.copy()
            e.havoc_shared(s2)
            vals = []
            for obj, off, size in sorted(self.pred.get(args[0], ())):
                if not rules.is_list(e.mod, obj):
                    v = s2.fresh(eng.RANGES.get(size * 8, eng.FULL))
                    s2.write(obj, off, size, v)
                    vals.append((obj[1], off, v))
            s2.mon['v'] = (args[0], tuple(vals))
            return [(s2, eng.ZERO)]


class Signal(eng.Monitor):
    """mon: (dirty conds, conds signalled in this critical section)"""
    key = 's'
    init = ((), ())

    def __init__(self, res, info, root, single):
        self.res = res
        self.info = info        # list of (cond, mutexes, {(obj, off, size)}, leave)
        self.root = root
        self.single = single    # conds with one waiting thread
        self.own = set()

    def dirty(self, e, st, c, i, what):
        d, s = st.mon['s']
        self.res.n['state_changes'] += 1
        if c not in s and c not in d:
            st.mon['s'] = (d + (c,), s)
            e.note(st, '%s: %s' % (e.mod.locstr(i), what))

    def flush(self, e, st, i, when):
        d, s = st.mon['s']
        for c in d:
            e.report('signal', i, 'a change waited for at condition %s is not signalled before %s' % (rules.mname(e.mod, c), when), st)
        if d:
            st.mon['s'] = ((), s)

    def call(self, e, st, name, args, i):
        if name in SIGNALS:
            c = args[0]
            self.res.n['signals'] += 1
            if name == 'pthread_cond_signal' and c not in self.single:
                e.report('broadcast', i, 'only one of several waiting threads is woken at condition %s' % rules.mname(e.mod, c), st)
            d, s = st.mon['s']
            held = any(mu in st.locks for cc, mus, _, _ in self.info if cc == c for mu in mus)
            st.mon['s'] = (tuple(x for x in d if x != c), s + (c,) if held and c not in s else s)
        elif name == 'pthread_mutex_lock':
            self.flush(e, st, i, 'the next critical section')
        elif name == 'pthread_mutex_unlock':
            d, s = st.mon['s']
            st.mon['s'] = (d, tuple(c for c in s if not any(cc == c and args[0] in mus for cc, mus, _, _ in self.info)))
        elif name in WAITS:
            self.flush(e, st, i, 'waiting')
        elif name in eng.CANCELPOINTS:
            self.flush(e, st, i, 'blocking in %s' % name)
        if name in rules.LIST_GROW | rules.LIST_MOVE and not any(f.fn.dname in EXEMPT for f in st.frames):
            for c, mus, pred, leave in self.info:
                for obj, off, size in pred:
                    if rules.is_list(e.mod, obj) and args and args[0][0] == 'p' and args[0][1] == obj:
                        self.dirty(e, st, c, i, '%s on %s' % (name, obj[1]))

    def store(self, e, st, obj, off, size, val, i):
        for c, mus, pred, leave in self.info:
            for o, f, sz in pred:
                if o != obj or rules.is_list(e.mod, obj):
                    continue
                if off[0] == 'i' and not (off[1] < f + sz and f < off[1] + (size if isinstance(size, int) else 1 << 30)):
                    continue
                lv = [w for w in leave.get((c, o, f), ()) if self.root not in w[1]]
                if val is not None:
                    lo, hi = st.rng(val)
                    lv = [w for w in lv if not (hi < w[0][0] or lo > w[0][1] or (lo == hi and lo in w[0][2]))]
                if lv:
                    self.dirty(e, st, c, i, '%s changes' % obj[1])

    def exit(self, e, st, kind, v, i):
        if kind != 'noreturn':
            self.flush(e, st, i, 'returning')


# producer side only: the consumer putting its own frame back cannot be waiting at that time
EXEMPT = {'BUF_putFrame': 'called by the only consumer itself, which is not waiting then'}


class C02(Check):
    id = 'C02'
    title = 'No lost or spurious wakeup: waits re-check their predicate, every change waited for is signalled'
    rule = ('After a wakeup with unchanged shared state every condition wait is reached again before its mutex is released; '
            'a timed wait gets a normalised deadline; each store or list insertion which can end a wait is followed (or, inside the same '
            'critical section, accompanied) by a broadcast of that condition before the thread blocks, locks again or returns; '
            'pthread_cond_signal only where a single thread waits.')
    quick = ['rc', 'lib', 'dump1090-kit']
    minimum = {'waits': 12, 'rewaits': 8, 'signals': 8, 'state_changes': 8, 'conditions': 7, 'deadlines': 3}
    assumptions = ['list insertions are the LIST_* primitives; values of scalar predicates are compared with the values which end the wait',
                   'BUF_putFrame is exempt: ' + EXEMPT['BUF_putFrame']]

    def jobs(self, tier):
        return [(p,) for p in self.products(tier)]

    def run(self, job, res):
        m = ir.load(job[0])
        notmain = lambda f: f.name != 'main'
        wf = {f.name for f in m.defined.values() for i in f.calls()
              if i.d['callee'][0] == 'f' and i.d['callee'][1] in WAITS}
        wr = rules.roots_reaching(m, wf, notmain)
        w = Wait(res)
        for r in wr:
            if r in EXEMPT:
                continue
            e = eng.Engine(m, [w], models={'clock_gettime': clock}, cancel=False)
            e.run(r)
            res.take(e)
        leave = {}
        for r in wr:
            lv = Leave(w.pred)
            e = eng.Engine(m, [lv], cancel=False)
            e.run(r)
            res.n['engine_steps'] += e.steps
            for k, l in lv.leave.items():
                for x in l:
                    leave.setdefault(k, {}).setdefault(x, set()).add(r)
        leave = {k: [(x, frozenset(s)) for x, s in v.items()] for k, v in leave.items()}
        info = []
        single = set()
        th = rules.threads(m)
        for c, mus in w.mutex.items():
            if c[0] != 'p' or c[1][0] != 'g':
                continue
            g = m.globals[c[1][1]]
            if g.scope:     # a condition local to one function (sleepCancelable): nobody signals it
                continue
            pred = w.pred.get(c, set())
            res.n['conditions'] += 1
            waiting = {t for t, f in th.items() if rules.reach(m, [f]) & w.sites[c]}
            if len(waiting) == 1:
                single.add(c)
            info.append((c, mus, pred, leave))
            res.samples.append('%s: condition %s waits for %s, waiting threads %s' % (
                job[0], rules.mname(m, c), sorted({rules.gname(m, o) for o, _, _ in pred}), sorted(waiting)))
        objs = {o[1] for _, _, pred, _ in info for o, _, _ in pred} | {c[1][1] for c, _, _, _ in info}
        for r in rules.roots_reaching(m, rules.users(m, objs), notmain):
            if r in EXEMPT:
                continue
            e = eng.Engine(m, [Signal(res, info, r, single)], atomic=rules.LIST_EVENTS)
            e.run(r)
            res.take(e)
            res.n['roots'] += 1


CHECK = C02()
