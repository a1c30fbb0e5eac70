from vpa import eng, hist, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
INVALID, CPU, GPS = 0, 1, 2
MODEAC, SHORT, LONG = 0x31, 0x32, 0x33
PREFIX = ('COMP_', 'FILTER_', 'GPS_', 'BUF_', 'LOGIN_', 'CFG_', 'SERIAL_ETH_', 'BEAST_')


class Lib(hist.History):
    """model: configured, enabled, status, synchronized, fix, position (() if unknown), events in the call"""

    def __init__(self, res, config):
        hist.History.__init__(self, res)
        self.config = config

    def begin(self, st):
        conf, run, status, sync, fix, pos, ev = self.get(st)
        op, args = st.mon['o']
        if op[0] in self.config:
            conf = T
        elif op[0] == 'status':
            status = args[0]
        self.put(st, conf, run, status, sync, fix, pos, ())

    def call(self, e, st, name, args, i):
        conf, run, status, sync, fix, pos, ev = self.get(st)
        op = self.op(st)[0]

        def put(sync=sync, fix=fix, pos=pos, ev=None):
            self.put(st, conf, run, status, sync, fix, pos, self.get(st)[6] + (ev,) if ev else self.get(st)[6])
        if name in ('FILTER_reset', 'FILTER_setSynchronized'):
            put(sync=F if name == 'FILTER_reset' else args[0])
            return [(st, None)]
        if name in ('GPS_setPosition', 'GPS_setPositionWithFix'):
            if op != 'position' or tuple(args[:3]) != tuple(self.op(st)[1:] or self.args(st)[:3]):
                e.report('position', i, 'another position than the one given is set', st)
            put(pos=tuple(args[:3]), fix=T if name == 'GPS_setPositionWithFix' else fix, ev='position')
            return [(st, None)]
        if name == 'GPS_setHasFix':
            self.res.n['fixes'] += 1
            if op == 'position' and args[0] == T and 'position' not in ev:
                e.report('position', i, 'the fix is set before the position', st)
            if op not in ('position', 'unset', 'status', 'init') and args[0] != fix:
                e.report('fix', i, 'the fix is changed although nothing was told about it', st)
            put(fix=args[0])
            return [(st, None)]
        if name == 'GPS_reset':
            put(fix=F, pos=())
            return [(st, None)]
        if name in ('BUF_flush', 'GPS_resetNeedFlag'):
            put(ev=name)
            return [(st, None)]
        if name == 'COMP_startAll':
            self.res.n['starts'] += 1
            if op != 'enable' or conf == F:
                e.report('start', i, 'the feeder is started although it is not enabled or not configured', st)
            elif run == F:
                if 'BUF_flush' not in ev:
                    e.report('flush', i, 'the feeder starts with frames from before', st)
                if 'GPS_resetNeedFlag' not in ev:
                    e.report('need', i, 'the feeder starts with an old request for the position', st)
                if self.synced(sync, status) is not True:
                    e.report('sync', i, 'the feeder starts with another state of synchronization than given', st)
            put(ev='start')
            return [(st, T)]
        if name == 'COMP_stopAll':
            if op != 'disable':
                e.report('stop', i, 'the feeder is stopped although it is not disabled', st)
            put(ev='stop')
            return [(st, None)]
        if name == 'FILTER_filter':
            self.res.n['asked'] += 1
            if conf == F or run == F:
                e.report('submit', i, 'a frame is taken although the feeder is not enabled', st)
            elif op != 'frame':
                e.report('submit', i, 'a frame is taken which is not valid', st)
            put(ev='frame')
            s2 = st.copy()
            return [(st, T), (s2, F)]
        if name == 'BUF_newFrame':
            return [(st, st.fresh((1, eng.PMAX)))]
        if name == 'BUF_commitFrame':
            if 'frame' not in ev:
                e.report('submit', i, 'a frame is buffered which was not judged', st)
            return [(st, None)]
        if name == 'SERIAL_ETH_getSerial':
            return [(st.copy(), ('i', k)) for k in range(4)]
        if name == 'BEAST_encode':
            return [(st, st.fresh((0, 60)))]

    def synced(self, sync, status):
        want = T if status == () or status != ('i', INVALID) else F
        return sync == want

    def noreturn(self, e, st, i):
        conf, run, status, sync, fix, pos, ev = self.get(st)
        if self.op(st)[0] not in ('init', 'configure') and conf == T:
            e.report('exit', i, 'the process is terminated although the feeder is configured', st)

    def end(self, e, st, v, i):
        conf, run, status, sync, fix, pos, ev = self.get(st)
        op = self.op(st)[0]
        if op == 'enable' and conf == T:
            if 'start' not in ev:
                e.report('start', i, 'the feeder is not started when it is enabled', st)
            run = T
        if op == 'disable':
            if run == T and 'stop' not in ev:
                e.report('stop', i, 'the feeder is not stopped when it is disabled', st)
            run = F
        if op == 'frame' and conf == T and run == T:
            self.res.n['frames'] += 1
            if ev.count('frame') != 1:
                e.report('submit', i, 'a valid frame is not judged once although the feeder is enabled', st)
        if op == 'status':
            self.res.n['status'] += 1
        if op == 'status' or op == 'enable' and conf == T:
            if not self.synced(sync, status):
                e.report('sync', i, 'frames count as %s although the timestamps are %s' % (('synchronized', 'not valid') if sync == T else ('not synchronized', 'valid')), st)
        if op == 'status' and fix != (T if status == ('i', GPS) else F):
            e.report('fix', i, 'the fix is not the one given by the status', st)
        if op == 'position':
            self.res.n['positions'] += 1
            if 'position' not in ev:
                e.report('position', i, 'the position given is not set', st)
            if status != () and fix != (T if status == ('i', GPS) else F):
                e.report('fix', i, 'the fix is not the one given by the status', st)
            if status == () and fix != T:
                e.report('fix', i, 'there is no fix although a position was given', st)
        if op == 'unset' and fix != F:
            e.report('fix', i, 'there still is a fix although the position is unknown', st)
        self.put(st, conf, run, status, sync, fix, (), ())


class C19(Check):
    id = 'C19'
    title = 'The feeder libraries take frames only while enabled and start in a clean state'
    rule = ('All states of the library reachable by calling its interface in any order, against a model: frames are judged by the filter exactly while enabled and configured; enabling flushes, '
            'forgets the request for the position and sets the synchronization before starting; status, fix and position are passed on.')
    quick = ['lib', 'gplib']
    minimum = {'starts': 2, 'asked': 2, 'frames': 2, 'status': 3, 'positions': 4, 'states': 8, 'fixes': 5}
    assumptions = ['starting the components does not fail', 'enabling and disabling do not happen while a frame is submitted']

    def jobs(self, tier):
        return [(p,) for p in self.products(tier)]

    def run(self, job, res):
        m = ir.load(job[0])
        api = {}
        for f in m.functions.values():
            if not f.internal and not f.decl and f.name.startswith('_ZN7OpenSky') and not f.name.startswith('_ZNK'):
                if f.dname in api:
                    raise AnalysisError('two functions %s' % f.dname)
                api[f.dname] = f
        need = {'init', 'configure', 'enable', 'disable', 'setGpsPosition'} | ({'setGpsTimeStatus', 'output_message'} if job[0] == 'lib' else {'unsetGpsPosition', 'submitFrame'})
        if need - set(api):
            raise AnalysisError('no function ' + ', '.join(sorted(need - set(api))))
        once = lambda *a: lambda st: [x(st) if callable(x) else x for x in a]
        pos = [(1 << 40) + 1, (1 << 41) + 2, (1 << 42) + 3]
        ops = [(('init',), api['init'], once()), (('enable',), api['enable'], once()), (('disable',), api['disable'], once()),
               (('position',) + tuple(('i', x) for x in pos), api['setGpsPosition'], once(*[('i', x) for x in pos]))]
        ptr = lambda st: st.fresh((1, eng.PMAX))
        any8 = lambda st: st.fresh((-128, 127))
        if job[0] == 'lib':
            ops.append((('configure',), api['configure'], once()))
            ops += [(('status',), api['setGpsTimeStatus'], once(('i', s))) for s in (INVALID, CPU, GPS)]
            ops += [(('frame' if t in (MODEAC, SHORT, LONG) else 'bad',), api['output_message'], once(ptr, ('i', t))) for t in (MODEAC, SHORT, LONG, 0x34, 0x30, 0)]
            model = (F, F, ('i', INVALID), F, F, (), ())
        else:
            ops.append((('configure',), api['configure'], once(lambda st: st.fresh(), lambda st: st.fresh())))
            ops.append((('unset',), api['unsetGpsPosition'], once()))
            ops += [(('frame' if n in (7, 14) and utc == T else 'bad',), api['submitFrame'], once(lambda st: st.fresh((0, 7 * 86400 * 10 ** 9)), utc, s, any8, ptr, ('i', n)))
                    for n in (7, 14, 2, 0, 13) for utc in (T, F) for s in (T, F)]
            model = (F, F, (), F, F, (), ())
        init = ops.pop(0)
        mon = Lib(res, ('configure', 'init') if job[0] == 'lib' else ('configure',))
        own = {x for x in m.functions if x.startswith(PREFIX) and not m.functions[x].internal}
        # initialized before anything else
        first = []

        def started(st):
            return [] if not first and not first.append(1) else None
        hist.explore(m, res, mon, model, [(init[0], init[1], started)] + ops, own)


CHECK = C19()
