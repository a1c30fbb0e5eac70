from vpa import eng, ir, rules
from vpa.check import Check
from checks.c04 import Moves, ATOMIC, CHECK as C04, api, glob

TAIL = {'LIST_pushDC': 1, 'LIST_popDC': 1, 'LIST_unshiftDC': 0, 'LIST_shiftDC': 0}


class Order(Moves):
    """additionally: counters, emptiness of the pool when the queue is robbed, allocations"""

    def __init__(self, res, m, limit=None):
        Moves.__init__(self, res)
        self.limit = limit
        self.fields = {}
        for n in ('discardedCur', 'discardedAll'):
            self.fields[m.field('BUFFER_Statistics', n)] = n
        self.allocs = 0

    def call(self, e, st, name, args, i):
        if name in ('malloc', 'calloc') and self.limit is not None:
            self.res.n['allocations'] += 1
            self.allocs += 1
            ls = [x[1] for x in st.mon['m'][0] if x[0] == 'len']
            if not any(st.rng(l)[0] >= 0 and st.rng(l)[1] < self.limit for l in ls):
                e.report('limit', i, 'another dynamic pool although the maximum may have been reached', st)
        if name == 'LIST_lengthDC' and glob(args[0]):
            v = st.fresh()
            self.event(st, 'len', v)
            return [(st, v)]
        if name == 'LIST_shiftDC' and glob(args[0]):
            # which lists were known to be empty at that time
            for l, v in st.mon['m'][1]:
                if v == eng.ONE:
                    self.event(st, 'empty', l)
        return Moves.call(self, e, st, name, args, i)

    def store(self, e, st, obj, off, size, val, i):
        if obj[0] == 'g' and e.mod.globals[obj[1]].d.get('dtype') == 'BUFFER_Statistics' and off[0] == 'i':
            f = self.fields.get((off[1], size))
            if f:
                old = st.peek(obj, off[1], size)
                if val == eng.ZERO:
                    self.event(st, 'zero', f)
                elif val is not None and old is not None and val == eng.addk(old, 1):
                    self.event(st, 'inc', f)
                else:
                    self.event(st, 'other', f)


class C05(Check):
    id = 'C05'
    title = 'Frames are delivered in order; only the oldest is discarded, only when necessary, and counted'
    rule = ('Commit adds at one end of the queue, consuming and discarding take from the other end and putting back adds there; a queued frame is '
            'discarded only with the pool known to be empty, incrementing both discard counters, while a frame from the pool resets the current '
            'counter; pools are allocated only below the configured limit, none without history; the flush upon login happens iff history is disabled.')
    quick = ['rc', 'gplib']
    minimum = {'operations': 40, 'discards': 2, 'allocations': 1, 'flush_paths': 2}

    def jobs(self, tier):
        return [(p,) for p in self.products(tier)]

    def run(self, job, res):
        m = ir.load(job[0])
        shared = C04.private(m)
        ends = {}

        def run(name, args=None, mon=None, mem=None, sh=shared, atomic=ATOMIC | {'LIST_lengthDC'}):
            f = api(m, name) if isinstance(name, str) else name
            mon = mon or Order(res, m)
            e = eng.Engine(m, [mon], atomic=atomic, shared=sh)
            st = e.initial_state()
            if mem:
                st.mem = {k: dict(v) for k, v in mem.items()}
            if args == 'frame':
                args = [('p', ('h', st.fresh()[1]), eng.ZERO)]
            e.run(f, args, st)
            if not mon.exits:
                raise ir.AnalysisError('%s: %s never returns' % (m.key, f.name))
            return e, mon

        done = []
        # which end does a commit use?
        e, mon = run('BUF_commitFrame', 'frame')
        done.append(e)
        q = tail = None
        for ev, v, s, i in mon.exits:
            for x in ev:
                if x[0] in TAIL:
                    res.n['operations'] += 1
                    if q is None:
                        q, tail = x[1], TAIL[x[0]]
                    elif (q, tail) != (x[1], TAIL[x[0]]):
                        e.report('order', i, 'committed frames go to different places', s)
                elif x[0] in ('LIST_insertDC', 'LIST_unlinkDC'):
                    e.report('order', i, 'a committed frame goes to the middle of the queue', s)
        if q is None:
            raise ir.AnalysisError('BUF_commitFrame does not put anything')
        for name, arg, what in (('BUF_putFrame', 'frame', 'put back'), ('BUF_getFrame', None, 'consumed'), ('BUF_getFrameTimeout', None, 'consumed'),
                                ('BUF_newFrame', None, 'discarded')):
            e, mon = run(name, arg)
            done.append(e)
            for ev, v, s, i in mon.exits:
                fields = {'inc': set(), 'zero': set(), 'other': set()}
                robbed = taken = False
                for n, x in enumerate(ev):
                    if x[0] in TAIL and x[1] == q:
                        res.n['operations'] += 1
                        if TAIL[x[0]] == tail:
                            e.report('order', i, 'frames are %s at the end where they are committed' % what, s)
                        if name == 'BUF_newFrame':
                            robbed = True
                            res.n['discards'] += 1
                            if not any(y[0] == 'empty' and y[1] != q for y in ev[:n]):
                                e.report('discard', i, 'a queued frame is discarded without the pool being empty', s)
                    elif x[0] in ('LIST_unlinkDC', 'LIST_insertDC') and x[1] == q:
                        e.report('order', i, 'frames are %s in the middle of the queue' % what, s)
                    elif x[0] in fields:
                        fields[x[0]].add(x[1])
                    elif x[0] in ('LIST_shiftDC', 'LIST_popDC'):
                        taken = True
                if name == 'BUF_newFrame':
                    if fields['other']:
                        e.report('count', i, 'a discard counter gets something else than zero or plus one', s)
                    if robbed and fields['inc'] != {'discardedCur', 'discardedAll'}:
                        e.report('count', i, 'a discarded frame is not counted', s)
                    if robbed and fields['zero']:
                        e.report('count', i, 'a discard counter is reset although a frame is discarded', s)
                    if taken and not robbed:
                        if fields['inc']:
                            e.report('count', i, 'a discarded frame is counted although none is discarded', s)
                        if fields['zero'] != {'discardedCur'}:
                            e.report('count', i, 'the end of the overload is not noticed', s)
        # flush iff history is disabled
        ho, hoff = rules.option(m, 'BUFFER', 'History')
        keep = lambda g: shared(g) and g.name != ho[1]
        for hist in (0, 1):
            e, mon = run('BUF_flushUnlessHistoryEnabled', None, None, {ho: {hoff: (1, ('i', hist))}}, keep)
            done.append(e)
            for ev, v, s, i in mon.exits:
                res.n['flush_paths'] += 1
                mv = [x for x in ev if x[0] in rules.LIST_MOVE and x[2] == q]
                if bool(mv) == bool(hist):
                    e.report('flush', i, 'the queue is %s although history is %s' % (
                        'flushed' if mv else 'kept', 'enabled' if hist else 'disabled'), s)
        # growth
        do, doff = rules.option(m, 'BUFFER', 'DynamicIncrements')
        c = m.comps()
        con = [rules.fnop(d['onConstruct']) for k, d in c.items() if m.globals[k].dname == 'BUF_comp']
        if not con or not con[0]:
            raise ir.AnalysisError('no constructor of BUF_comp')
        lists = lambda g: (g.d.get('dtype') or '') in ('LIST_ListDC', 'BUFFER_Statistics')
        for hist, n in ((0, 5), (1, 3)):
            e, mon = run(m.fn(con[0]), None, None, {ho: {hoff: (1, ('i', hist)), doff: (4, ('i', n))}} if ho == do else
                         {ho: {hoff: (1, ('i', hist))}, do: {doff: (4, ('i', n))}}, lambda g: False)
            for ev, v, s, i in mon.exits:
                if v != eng.ONE:
                    continue
                mem = {o: {k: x for k, x in c.items() if x[1] == ('z',) or x[1][0] == 'i'} for o, c in s.mem.items()
                       if o[0] == 'g' and not lists(m.globals[o[1]])}
                e2, mon2 = run('BUF_newFrame', None, Order(res, m, n if hist else 0), mem, lists)
                done.append(e2)
                if hist and not mon2.allocs:
                    e2.report('limit', i, 'no dynamic pool is created although history is enabled', s)
        for e in done:
            res.take(e)


CHECK = C05()
