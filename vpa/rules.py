"""Things several checks share: root functions, locating shared objects, small queries on the module."""
from . import eng
from .ir import AnalysisError


def refs(v):
    if v and v[0] == 'f':
        yield v[1]


def initrefs(m):
    """functions referenced from initialisers of globals (descriptors, tables)"""
    out = set()
    for g in m.globals.values():
        for c in g.cells or ():
            if c[2][0] == 'f':
                out.add(c[2][1])
    return out


def argrefs(m, callee, n):
    """functions passed as argument n of callee"""
    out = set()
    for f in m.defined.values():
        for i in f.calls():
            c = i.d['callee']
            if c[0] == 'f' and c[1] == callee and len(i.ops) > n and i.ops[n][0] == 'f':
                out.add(i.ops[n][1])
    return out


def roots(m, pred=lambda f: True):
    """functions something outside this program part calls: the exported ones, and callbacks
    registered in descriptors and tables"""
    cb = initrefs(m) | argrefs(m, 'TB_register', 2) | argrefs(m, 'scandir', 2) | argrefs(m, 'scandir', 3)
    return sorted(f.name for f in m.defined.values() if (not f.internal or f.name in cb) and pred(f))


def callers(m):
    """callee symbol -> set of (caller Function, Instr)"""
    out = {}
    for f in m.defined.values():
        for i in f.calls():
            c = i.d['callee']
            if c[0] == 'f':
                out.setdefault(c[1], []).append((f, i))
    return out


def callees(m):
    """static call graph: symbol -> set of symbols; a function whose address is taken in a body
    is taken as called by it (cleanup handlers, callbacks)"""
    g = {}
    for f in m.defined.values():
        s = set()
        for i in f.instrs():
            c = i.d.get('callee')
            if c and c[0] == 'f':
                s.add(c[1])
            for o in i.ops:
                if o and o[0] == 'f':
                    s.add(o[1])
        g[f.name] = s
    return g


def reach(m, start, stop=()):
    """functions reachable from start"""
    g = callees(m)
    seen, todo = set(), list(start)
    while todo:
        x = todo.pop()
        if x in seen or x in stop:
            continue
        seen.add(x)
        todo += g.get(x, ())
    return seen


def gname(m, obj):
    """source name of a global object"""
    return m.globals[obj[1]].dname if obj[0] == 'g' and obj[1] in m.globals else str(obj)


def gfile(m, obj):
    return m.globals[obj[1]].file if obj[0] == 'g' and obj[1] in m.globals else None


def mname(m, v):
    """name of a mutex/condition value"""
    if v[0] == 'p':
        return '%s(%s)' % (gname(m, v[1]), (gfile(m, v[1]) or '').split('/')[-1]) if v[1][0] == 'g' else 'local'
    return 'unknown'


def compmain(m, name):
    """(descriptor fields) of the component global `name`"""
    c = m.comps()
    for k, v in c.items():
        if m.globals[k].dname == name or k == name:
            return v
    raise AnalysisError('%s: no component %s' % (m.key, name))


def fnop(v):
    return v[1] if v and v[0] == 'f' else None


def strings(m):
    return {g.name: g.cstring() for g in m.globals.values()}


# list primitives on counted lists, taken as single events
LIST_GROW = {'LIST_pushDC', 'LIST_unshiftDC', 'LIST_insertDC'}
LIST_SHRINK = {'LIST_shiftDC', 'LIST_popDC', 'LIST_unlinkDC'}
LIST_MOVE = {'LIST_concatenatePushDC', 'LIST_concatenateUnshiftDC'}
LIST_OTHER = {'LIST_initDC', 'LIST_fromVectorDC', 'LIST_separateFromDC', 'LIST_separateFromFixDC',
              'LIST_separateUntilDC', 'LIST_separateUntilFixDC'}
LIST_EVENTS = LIST_GROW | LIST_SHRINK | LIST_MOVE | LIST_OTHER


def is_list(m, obj):
    return obj[0] == 'g' and obj[1] in m.globals and (m.globals[obj[1]].d.get('dtype') or '').startswith('LIST_List')


def users(m, gnames):
    """functions whose body mentions one of these globals"""
    out = set()
    for f in m.defined.values():
        for i in f.instrs():
            ops = list(i.ops) + [v for v, _ in i.d.get('vars', ())]
            if i.op == 'phi':
                ops = [v for _, v in i.ops]
            if any(o and o[0] == 'g' and o[1] in gnames for o in ops):
                out.add(f.name)
                break
    return out


def roots_reaching(m, targets, pred=lambda f: True):
    g = callees(m)
    rev = {}
    for a, s in g.items():
        for b in s:
            rev.setdefault(b, set()).add(a)
    seen, todo = set(), list(targets)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += rev.get(x, ())
    return [r for r in roots(m, pred) if r in seen]


def threads(m):
    """component name -> main function"""
    out = {}
    for k, c in m.comps().items():
        f = fnop(c['main'])
        if f:
            out[m.globals[k].dname] = f
    return out


def option(m, section, name):
    """(object, offset) an option of the configuration is stored at"""
    F = m.field
    for g in m.globals.values():
        if g.d.get('dtype') != 'CFG_Section' or g.d['decl']:
            continue
        if m.string(g.read(F('CFG_Section', 'name')[0], 8)) != section:
            continue
        o0 = F('CFG_Section', 'options')[0]
        osz = m.structs['CFG_Option']['size']
        n = g.read(*F('CFG_Section', 'n_opt'))[1]
        for k in range(n):
            b = o0 + k * osz
            if m.string(g.read(b + F('CFG_Option', 'name')[0], 8)) == name:
                v = g.read(b + F('CFG_Option', 'var')[0], 8)
                if v and v[0] == 'g':
                    return ('g', v[1]), v[2]
    raise AnalysisError('%s: no option %s.%s' % (m.key, section, name))


def cancels(m, names):
    """those of the functions which contain a cancellation point"""
    g = callees(m)
    out = set()
    for x in names:
        seen, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y in eng.CANCELPOINTS:
                out.add(x)
                break
            if y not in seen:
                seen.add(y)
                todo += g.get(y, ())
    return out


def api(m, name):
    f = m.functions.get(name)
    if f is None or f.decl:
        raise AnalysisError('%s: no function %s' % (m.key, name))
    return f


# the wire protocol, as agreed with the servers
SYNC = 0x1a
TYPE = {'mode-ac': 0x31, 'mode-s short': 0x32, 'mode-s long': 0x33, 'status': 0x34, 'serial': 0x35, 'keep-alive': 0x36, 'position': 0x37,
        'device id': 65, 'serial request': 66, 'user': 67}


class Stored(eng.Monitor):
    key = 'st'

    def __init__(self):
        self.out = None

    def exit(self, e, st, kind, v, i):
        if kind != 'return':
            return
        r = [{(o, k, s) for o, c in st.mem.items() if o[0] == 'g' for k, (s, x) in c.items() if x == a} for a in st.mon['st']]
        self.out = r if self.out is None else [x | y for x, y in zip(self.out, r)]


def stored(m, name, noinline=(), rng=None):
    """where an interface function keeps its arguments: list of sets of (object, offset, size)"""
    f = api(m, name)
    mon = Stored()
    e = eng.Engine(m, [mon], cancel=False, noinline=noinline, shared=lambda g: False)
    st = e.initial_state()
    args = [st.fresh((rng or {}).get(n, eng.tyrange(a[1]))) for n, a in enumerate(f.args)]
    st.mon['st'] = tuple(args)
    e.run(f, args, st)
    if not mon.out:
        raise AnalysisError('%s: %s does not return' % (m.key, name))
    return mon.out


def counters(m, fns):
    """global variables all members of which are only incremented in these functions"""
    ok, bad = set(), set()
    for f in fns:
        if f.decl:
            continue
        use, ins, base = {}, {}, {}
        for i in f.instrs():
            ins[i.id] = i
            for o in i.ops:
                if o[0] == 'r':
                    use.setdefault(o[1], []).append(i)
            for o, _ in i.d.get('vars', ()):
                if o[0] == 'r':
                    use.setdefault(o[1], []).append(i)

        def root(o):
            """global an address is in"""
            while o[0] == 'r' and o[1] in ins and ins[o[1]].op == 'getelementptr':
                o = ins[o[1]].ops[0]
            return o[1] if o[0] == 'g' and o[1] in m.globals else None
        for i in f.instrs():
            ops = [v for _, v in i.ops] if i.op == 'phi' else i.ops
            for k, o in enumerate(ops):
                g = root(o)
                if g is None:
                    continue
                if i.op == 'load':
                    adds = use.get(i.id, [])
                    fine = bool(adds) and all(a.op in ('add', 'sub') and all(s.op == 'store' and s.ops[1] == o for s in use.get(a.id, [])) for a in adds)
                elif i.op == 'store' and k == 1:
                    v = i.ops[0]
                    a = ins.get(v[1]) if v[0] == 'r' else None
                    fine = a is not None and a.op in ('add', 'sub') and any(x[0] == 'r' and ins.get(x[1]) is not None and ins[x[1]].op == 'load' and ins[x[1]].ops[0] == o for x in a.ops)
                elif i.op == 'getelementptr' and k == 0:
                    continue
                else:
                    fine = False
                (ok if fine else bad).add(g)
    return ok - bad
