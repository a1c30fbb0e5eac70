from vpa import eng, ir, rules
from vpa.check import Check

NEW, GET = {'BUF_newFrame'}, {'BUF_getFrame', 'BUF_getFrameTimeout'}
PUTP, PUTC = {'BUF_commitFrame', 'BUF_abortFrame'}, {'BUF_releaseFrame', 'BUF_putFrame'}
API = NEW | GET | PUTP | PUTC
OWN = {}


class Owner(eng.Monitor):
    """clients of the buffer; mon: (producer frame, consumer frame, given back)"""
    key = 'o'
    init = ((), (), ())

    def __init__(self, res):
        self.res = res

    def base(self, v):
        if v[0] == 's':
            return ('s', v[1], 0)
        if v[0] == 'p' and v[1][0] == 'd':
            return ('s', v[1][1], 0)
        return None

    def call(self, e, st, name, args, i):
        p, c, dead = st.mon['o']
        if name in NEW or name in GET:
            who = 'producer' if name in NEW else 'consumer'
            if (p if name in NEW else c):
                e.report('double', i, 'the %s takes a second frame before giving back the first one' % who, st)
                return 'stop'
            self.res.n['takes'] += 1
            out = []
            if name == 'BUF_getFrameTimeout':
                s2 = st.copy()
                e.note(s2, '%s: timeout' % e.mod.locstr(i))
                out.append((s2, eng.ZERO))
            canc = e.cancel_here(st, i, name) if name in GET else []
            v = st.fresh((1, eng.PMAX))
            st.mon['o'] = ((v,), c, ()) if name in NEW else (p, (v,), ())
            out.append((st, v))
            if canc:
                out.append((st, None))
                out.pop()
                # states of the cancelled thread advance on their own
                return out + [(s, [s]) for s in canc]
            return out
        if name in PUTP or name in PUTC:
            own = p if name in PUTP else c
            self.res.n['givebacks'] += 1
            if not own:
                e.report('notowned', i, '%s without holding a frame' % name, st)
                return 'stop'
            if args[0] != own[0]:
                e.report('wrong', i, '%s of something which is not the frame held' % name, st)
                return 'stop'
            st.mon['o'] = ((), c, own) if name in PUTP else (p, (), own)
            return [(st, None)]
        if dead:
            for a in args:
                if self.base(a) == dead[0]:
                    e.report('use', i, 'a frame is used after it was given back', st)

    def acc(self, e, st, obj, i):
        d = st.mon['o'][2]
        if d and obj == ('d', d[0][1]):
            e.report('use', i, 'a frame is used after it was given back', st)

    def load(self, e, st, obj, off, size, i):
        self.acc(e, st, obj, i)

    def store(self, e, st, obj, off, size, val, i):
        self.acc(e, st, obj, i)

    def exit(self, e, st, kind, v, i):
        if kind == 'noreturn':
            return
        self.res.n['exits'] += 1
        p, c, dead = st.mon['o']
        if p or c:
            e.report('leak', i, 'the %s still holds a frame when %s' % ('producer' if p else 'consumer',
                     'the thread is cancelled' if kind == 'cancel' else 'the function returns'), st)


EMPTY = {'LIST_emptyDC'}
ATOMIC = rules.LIST_EVENTS | EMPTY


class Moves(eng.Monitor):
    """buffer side; mon: (events of one call ((op, list, link), ...), known emptiness ((list, bool), ...))"""
    key = 'm'
    init = ((), ())

    def __init__(self, res):
        self.res = res
        self.exits = []

    def know(self, st, lst, v):
        ev, k = st.mon['m']
        k = tuple(x for x in k if x[0] != lst)
        if v is not None and glob(lst):
            k += ((lst, eng.ONE if v else eng.ZERO),)
        st.mon['m'] = (ev, k)

    def known(self, st, lst):
        for l, v in st.mon['m'][1]:
            if l == lst:
                return v == eng.ONE
        return None

    def event(self, st, *ev):
        e, k = st.mon['m']
        # loops are kept finite: of many events the last ones
        st.mon['m'] = ((e + (ev,))[-8:], k)

    def call(self, e, st, name, args, i):
        lst = args[0] if args else None
        if name in EMPTY:
            k = self.known(st, lst)
            if k is not None:
                return [(st, eng.ONE if k else eng.ZERO)]
            s2 = st.copy()
            self.know(st, lst, True)
            self.know(s2, lst, False)
            return [(st, eng.ONE), (s2, eng.ZERO)]
        if name in ('LIST_shiftDC', 'LIST_popDC'):
            self.res.n['list_events'] += 1
            k = self.known(st, lst)
            out = []
            if k is not False:
                # taken from an empty list: the anchor, nothing moves
                s2 = st.copy()
                self.know(s2, lst, True)
                out.append((s2, eng.addk(lst, e.mod.field('LIST_ListD', 'anchor')[0])))
            if k is not True:
                self.know(st, lst, None)
                v = ('p', ('h', st.fresh()[1]), eng.ZERO)
                self.event(st, name, lst, v)
                out.append((st, v))
            return out
        if name in rules.LIST_EVENTS:
            self.res.n['list_events'] += 1
            self.event(st, name, lst, args[1] if len(args) > 1 else eng.ZERO)
            if name in rules.LIST_GROW:
                self.know(st, lst, False)
            elif name == 'LIST_initDC':
                self.know(st, lst, True)
            elif name in rules.LIST_MOVE:
                k = self.known(st, args[1])
                if k is not True:
                    self.know(st, lst, False if k is False else None)
                self.know(st, args[1], True)
            else:
                self.know(st, lst, None)
        elif name in ('pthread_mutex_unlock', 'pthread_mutex_lock', 'pthread_cond_wait', 'pthread_cond_timedwait'):
            st.mon['m'] = (st.mon['m'][0], ())

    def exit(self, e, st, kind, v, i):
        if kind == 'return':
            self.exits.append((st.mon['m'][0], v, st, i))
        elif kind == 'cancel' and any(x[0] != 'arg' for x in st.mon['m'][0]):
            e.report('cancel', i, 'cancelled after a frame was moved', st)


def api(m, name):
    f = m.functions.get(name)
    if f is None or f.decl:
        raise ir.AnalysisError('%s: no function %s' % (m.key, name))
    return f


def glob(v):
    return v[0] == 'p' and v[1][0] == 'g' and v[2] == eng.ZERO


class C04(Check):
    id = 'C04'
    title = 'Frames are conserved: every frame taken is given back exactly once'
    rule = ('Ownership typestate: in every function which uses the buffer, each frame taken is committed/aborted resp. released/put back exactly once '
            'on every path including cancellation, never used afterwards; inside the buffer every operation moves exactly the one frame '
            'concerned between the right lists.')
    quick = ['rc', 'lib', 'gplib']
    minimum = {'takes': 4, 'givebacks': 4, 'exits': 4, 'list_events': 30}
    assumptions = ['INPUT_*, NET_*, LOGIN_*, FILTER_* do not take or give back frames (checked: they do not call the buffer)']

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            cl = {f.name for f in m.defined.values() for i in f.calls()
                  if i.d['callee'][0] == 'f' and i.d['callee'][1] in API and f.name not in API}
            for r in rules.roots_reaching(m, cl, lambda f: f.name != 'main'):
                out.append((p, 'client', r))
            out.append((p, 'buffer', ''))
        return out

    def run(self, job, res):
        m = ir.load(job[0])
        if job[1] == 'client':
            self.client(m, job[2], res)
        else:
            self.buffer(m, res)

    def client(self, m, root, res):
        # other exported functions which never come near the buffer are opaque here
        g = rules.callees(m)
        uses = set()
        todo = [f for f in g if g[f] & API] + list(API)
        rev = {}
        for a, s in g.items():
            for b in s:
                rev.setdefault(b, set()).add(a)
        while todo:
            x = todo.pop()
            if x not in uses:
                uses.add(x)
                todo += rev.get(x, ())
        opaque = {f.name for f in m.defined.values() if not f.internal and f.name not in uses}
        canc = set(opaque)
        mon = Owner(res)
        e = eng.Engine(m, [mon], noinline=opaque, extra_cancel={x for x in canc if self.cancels(m, g, x)})
        e.run(root)
        res.take(e)

    def cancels(self, m, g, x):
        seen, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if y in eng.CANCELPOINTS:
                return True
            todo += g.get(y, ())
        return False

    def private(self, m):
        """objects changed by the producer's resp. the consumer's calls only are not changed behind the back of these calls"""
        g = rules.callees(m)
        w = {}
        for f in m.defined.values():
            for i in f.instrs():
                if i.op == 'store' and i.ops[1] and i.ops[1][0] == 'g':
                    w.setdefault(i.ops[1][1], set()).add(f.name)
        con = {rules.fnop(c['onConstruct']) for c in m.comps().values()}
        sides = (NEW | PUTP, GET | PUTC)

        def shared(x):
            if x.constant:
                return False
            ws = w.get(x.name)
            if not ws or '*' not in (x.d.get('dtype') or ''):
                return True
            r = set(rules.roots_reaching(m, ws)) - con
            r = {y for y in r if y in API}
            return not any(r <= s for s in sides)
        cache = {}

        def f(x):
            if x.name not in cache:
                cache[x.name] = shared(x)
            return cache[x.name]
        return f

    # what each operation of the buffer may do, in terms of the two lists
    def buffer(self, m, res):
        shared = self.private(m)

        def bad(e, st, i, name, msg):
            e.report('move', i, '%s: %s' % (name, msg), st)

        engines = []
        # the queue is where a commit puts the frame, the pool where a release puts it
        roles = {}
        loff = None

        def put(name, want):
            nonlocal loff
            f = api(m, name)
            mon = Moves(res)
            e = eng.Engine(m, [mon], atomic=ATOMIC, shared=shared)
            st = e.initial_state()
            a = ('p', ('h', st.fresh()[1]), eng.ZERO)
            st.mon['m'] = ((('arg', a, eng.ZERO),), ())
            e.run(f, [a], st)
            engines.append(e)
            for ev, v, s, i in mon.exits:
                arg, ev = ev[0][1], ev[1:]
                ev = [x for x in ev if x[0] not in rules.LIST_MOVE]
                grow = [x for x in ev if x[0] in rules.LIST_GROW]
                if len(ev) != 1 or len(grow) != 1:
                    bad(e, s, i, name, 'the frame is put %d times' % len(grow))
                    continue
                res.n['operations'] += 1
                lst, link = grow[0][1], grow[0][2]
                if not glob(lst):
                    bad(e, s, i, name, 'the frame is put into an unknown list')
                    continue
                d = e.binop(s, 'sub', link, arg, 64)
                if d[0] != 'i':
                    bad(e, s, i, name, 'something else than the frame is put')
                    continue
                if loff is None:
                    loff = d[1]
                elif loff != d[1]:
                    bad(e, s, i, name, 'something else than the frame is put')
                r = roles.setdefault(want, lst)
                if r != lst:
                    bad(e, s, i, name, 'the frame does not go to the %s' % want)
            if not mon.exits:
                raise ir.AnalysisError('%s: %s never returns' % (m.key, name))

        put('BUF_commitFrame', 'queue')
        put('BUF_releaseFrame', 'pool')
        put('BUF_abortFrame', 'pool')
        put('BUF_putFrame', 'queue')
        if len(set(roles.values())) != 2 and len(roles) == 2:
            res.viol('move', 'BUF_commitFrame', 'committed and released frames go to the same list')
        for name, src in (('BUF_getFrame', ('queue',)), ('BUF_getFrameTimeout', ('queue',)), ('BUF_newFrame', ('pool', 'queue'))):
            f = api(m, name)
            mon = Moves(res)
            e = eng.Engine(m, [mon], atomic=ATOMIC, shared=shared)
            e.run(f)
            engines.append(e)
            for ev, v, s, i in mon.exits:
                sh = [x for x in ev if x[0] in rules.LIST_SHRINK]
                gr = [x for x in ev if x[0] in rules.LIST_GROW]
                res.n['operations'] += 1
                if v == eng.ZERO:
                    if sh:
                        bad(e, s, i, name, 'a frame is taken but not returned')
                    continue
                if len(sh) != 1:
                    bad(e, s, i, name, '%d frames are taken for one' % len(sh))
                    continue
                ok = [roles.get(x) for x in src]
                if sh[0][1] not in ok:
                    bad(e, s, i, name, 'the frame is not taken from the %s' % ' or '.join(src))
                d = e.binop(s, 'sub', sh[0][2], v, 64)
                if d != ('i', loff):
                    bad(e, s, i, name, 'what is returned is not the frame taken')
                if any(x[1] in roles.values() for x in gr):
                    bad(e, s, i, name, 'a frame is put while one is taken')
            if not mon.exits:
                raise ir.AnalysisError('%s: %s never returns' % (m.key, name))
        # flush: everything from the queue to the pool
        f = api(m, 'BUF_flush')
        mon = Moves(res)
        e = eng.Engine(m, [mon], atomic=ATOMIC, shared=shared)
        e.run(f)
        engines.append(e)
        for ev, v, s, i in mon.exits:
            res.n['operations'] += 1
            if not all(x[0] in rules.LIST_MOVE and x[1] == roles.get('pool') and x[2] == roles.get('queue') for x in ev) or not ev:
                bad(e, s, i, 'BUF_flush', 'not exactly all queued frames go to the pool')
        for e in engines:
            res.take(e)


CHECK = C04()
