"""Histories of calls: all states of the variables of a module reachable by calling its interface in any order, compared with a model of it."""
from . import eng, rules
from .ir import AnalysisError


class History(eng.Monitor):
    """The model, a tuple in mon 'h'.  mon 'o' has the operation and its arguments.
    begin() is called before an operation, end() when it returns; both may change the model by put()."""
    key = 'h'

    def __init__(self, res):
        self.res = res
        self.exits = []

    def get(self, st):
        return st.mon['h']

    def put(self, st, *x):
        st.mon['h'] = x

    def op(self, st):
        return st.mon['o'][0]

    def args(self, st):
        return st.mon['o'][1]

    def begin(self, st):
        pass

    def end(self, e, st, v, i):
        pass

    def exit(self, e, st, kind, v, i):
        if kind == 'noreturn':
            self.noreturn(e, st, i)
        if kind != 'return':
            return
        self.res.n['exits'] += 1
        self.end(e, st, v, i)
        self.exits.append(st.copy())

    def noreturn(self, e, st, i):
        pass


class Op(eng.Monitor):
    key = 'o'


def explore(m, res, mon, model, ops, noinline=(), mons=(), initial=True, limit=3000, widen=24, cancel=False, **kw):
    """ops: [(name, function, makeargs(state) -> list of arguments), ...]
    returns the number of states"""
    fns = rules.reach(m, [f.name for _, f, _ in ops], stop=noinline)
    defined = [m.functions[x] for x in fns if x in m.functions and not m.functions[x].decl]
    count = rules.counters(m, defined)
    used = {g for g in m.globals if not m.globals[g].constant and rules.users(m, {g}) & fns} - count
    e = eng.Engine(m, [mon, Op()] + list(mons), cancel=cancel, shared=lambda g: False, noinline=set(noinline), **kw)
    first = e.initial_state()
    if initial:
        e.set_globals_initial(first, lambda g: g.name in used)
    first.mon['h'] = model
    todo, done = [first], set()
    seen, wide = {}, set()
    while todo and not e.violations:
        s = todo.pop()
        st = e.initial_state()
        st.con, st.next, st.trace = dict(s.con), s.next, s.trace
        for o, cells in s.mem.items():
            if o[0] == 'h' or o[0] == 'g' and o[1] in used:
                for k, (z, v) in cells.items():
                    if v[0] == 'i':
                        # anything counting up: of any value
                        vals = seen.setdefault((o, k), set())
                        vals.add(v[1])
                        if len(vals) > widen:
                            wide.add((o, k))
                st.mem[o] = {k: c for k, c in cells.items() if (o, k) not in wide}
        st.mon['h'] = s.mon['h']
        st.mon['o'] = ()
        for x in mons:
            st.mon[x.key] = s.mon.get(x.key, x.init)
        k = e.canon(st)
        if k in done:
            continue
        if len(done) >= limit:
            raise AnalysisError('more than %d states' % limit)
        done.add(k)
        for name, f, mk in ops:
            t = st.copy()
            args = mk(t)
            if args is None:        # not in this state
                continue
            t.mon['o'] = (name, tuple(args))
            t.trace = (t.trace, 'call of ' + f.dname)
            mon.begin(t)
            mon.exits = []
            e.run(f, args, t)
            todo += mon.exits
    res.n['states'] += len(done)
    res.take(e)
    return len(done)
