import re

from vpa import eng, ir
from vpa.check import Check
from vpa.ir import AnalysisError

T, F = eng.ONE, eng.ZERO
LEVELS, EMERG = range(5), 4
FNS = ('LOG_log', 'LOG_logf', 'LOG_errno', 'LOG_errno2', 'LOG_errnet')
NAMES = ('info', 'debug', 'warn', 'warning', 'error', 'emerg', 'emergency')
ENDS = ('abort', 'exit', '_exit', '_Exit', 'quick_exit', '__assert_fail')
ERR = ('g', '*errno')
QUIET = ('pthread_', 'llvm.', '__errno_location', 'abort', 'exit', '_exit', 'strlen', '__cxa_', '_Unwind', '_ZSt9terminate', '__clang')
FLUSH = ('fflush', '_ZSt5flush', '_ZNSo5flush', '_ZSt4endl')


class Log(eng.Monitor):
    """one message.  mon: (what was written, lock regions writing, flushed, errno is still valid)"""
    key = 'm'
    init = ((), 0, F, T)

    def __init__(self, res, fn, level, prefix, text):
        self.res, self.fn, self.level = res, fn, level
        self.prefix, self.text = prefix, text
        self.names = set()

    def call(self, e, st, name, args, i):
        if name == '__errno_location':
            return [(st, ('p', ERR, F))]
        cal = i.d['callee']
        f = e.mod.functions.get(cal[1]) if cal[0] == 'f' else None
        if f is not None and not f.decl:
            return
        seen, locks, fl, ok = st.mon['m']
        if name.startswith(QUIET):
            if name in ENDS and self.level == EMERG:
                self.res.n['ended'] += 1
                if name not in ('abort', '__assert_fail') and args[0] == F:
                    e.report('end', i, 'a fatal error ends the process with success', st)
                if st.locks:
                    e.report('end', i, 'the process ends with the log locked', st)
                if fl == F:
                    e.report('flush', i, 'the process ends before the message is written', st)
                self.complete(e, st, i)
            return
        if any(x in name for x in FLUSH):
            fl = T
        self.res.n['outputs'] += 1
        what = set()
        for a in args:
            for k, x in (('prefix', self.prefix), ('text', self.text), ('error', st.mon['e'])):
                if x is not None and (a == x or k == 'text' and a in st.mon.get('t', ())):
                    what.add(k)
            if a[0] == 'p' and a[1][0] == 'g' and a[2][0] == 'i' and a[1][1] in e.mod.globals:
                s = e.mod.globals[a[1][1]].cstring(a[2][1])
                s = re.sub('[^a-z]', '', re.sub('%[-+ #0-9.*lhzjt]*[a-zA-Z]', '', s or '').lower())
                if s in NAMES:
                    what.add('level')
                    self.names.add(s)
        out = name.startswith(('vsnprintf', 'snprintf', '__vsnprintf_chk', 'strerror', '__xpg_strerror'))
        if out and 'text' in what:
            st.mon['t'] = st.mon.get('t', ()) + (args[0],)
            what.discard('text')
        if out and 'error' in what and 'strerror' not in name:
            st.mon['t'] = st.mon.get('t', ()) + (args[0],)
            what.discard('error')
        if out:
            what.discard('error')
        # the format may be written by functions which take a list of arguments
        if what and not out and not st.locks:
            e.report('mixed', i, 'a message is written without lock', st)
        if what and fl == T and not any(x in name for x in FLUSH):
            fl = F
        if what:
            for w in what & set(seen):
                if w == 'text':
                    e.report('twice', i, 'a message is written twice', st)
        st.mon['m'] = (tuple(sorted(set(seen) | what)), locks, fl, ok)
        st.kill(ERR)

    def lock(self, e, st, what, mu, i):
        seen, locks, fl, ok = st.mon['m']
        if what == 'acquire':
            if seen:
                e.report('mixed', i, 'other messages may be written within a message', st)

    def complete(self, e, st, i):
        seen = st.mon['m'][0]
        for w, x in (('level', T), ('text', self.text), ('prefix', self.prefix), ('error', st.mon['e'])):
            if x not in (None, F) and w not in seen:
                e.report('lost', i, 'a message is written without its %s' % w, st)

    def exit(self, e, st, kind, v, i):
        if kind == 'return':
            self.res.n['returned'] += 1
            if self.level == EMERG:
                e.report('return', i, 'the process continues after a fatal error', st)
            else:
                self.complete(e, st, i)
        elif kind == 'noreturn':
            if self.level != EMERG:
                e.report('end', i, 'the process ends although the error is not fatal', st)


class C27(Check):
    id = 'C27'
    title = 'A fatal error always ends the process, other messages never; none is lost'
    rule = ('All paths of all functions writing messages, for each level: the level, prefix, text and error code (of the moment of the call) are written once, within one lock region; '
            'the process ends exactly for the highest level, after flushing.')
    quick = ['rc', 'lib', 'gplib', 'dump1090', 'wd']
    minimum = {'returned': 100, 'ended': 20, 'outputs': 400}

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            have = [f for f in FNS if f in m.functions and not m.functions[f].decl]
            if 'LOG_log' not in have or 'LOG_logf' not in have:
                raise AnalysisError('%s: no log' % p)
            out += [(p, f, l) for f in have for l in LEVELS]
        return out

    def run(self, job, res):
        m = ir.load(job[0])
        f = m.functions[job[1]]
        for pre in (True, False):
            mon = Log(res, job[1], job[2], None, None)
            e = eng.Engine(m, [mon], cancel=False, shared=lambda g: False, log_inline=True)
            st = e.initial_state()
            e.set_globals_initial(st)
            err = st.fresh((-(1 << 31), (1 << 31) - 1))
            args = [('i', job[2])]
            if job[1] == 'LOG_errno2':
                args.append(err)
            prefix = ('p', ('g', '*prefix'), F)
            mon.prefix = prefix if pre else F
            mon.text = ('p', ('g', '*text'), F)
            args += [prefix if pre else F, mon.text]
            if job[1] not in ('LOG_log', 'LOG_logf'):
                st.mon['e'] = err
                st.write(ERR, 0, 4, err if job[1] != 'LOG_errno2' else st.fresh())
            st.mon['t'] = ()
            st.mon.setdefault('e', None)
            e.run(f, args, st)
            res.take(e)
            res.data = (job[0], job[1], job[2], sorted(mon.names))

    def finish(self, total, results):
        for r in results:
            p, f, l, names = getattr(r, 'data', None) or (0, 0, 0, ())
            for r2 in results:
                p2, f2, l2, n2 = getattr(r2, 'data', None) or (0, 0, 0, ())
                if p == p2 and f == f2 and l < l2 and set(names) & set(n2):
                    total.viol('level', f, 'messages of different levels look alike')
                    total.violations[-1]['product'] = p


CHECK = C27()
