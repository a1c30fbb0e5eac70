from checks import c13
from vpa import eng, ir, rules
from vpa.check import Check
from vpa.ir import AnalysisError

BOM, EOM = 0x10, 0x03
B, E = ('i', BOM), ('i', EOM)
ZERO = eng.ZERO
# size of the buffer for a frame, sizes of the pieces received
QUICK = ((5, (3,)), (4, (5,)), (4, (4,)), (6, (2,)), (5, (1, 2)), (7, (1,)))
THOROUGH = QUICK + ((8, (1, 2)), (6, (1, 2, 3)), (5, (4,)), (5, (6,)), (4, (8,)))


class S(c13.S):
    """as for the Radarcape, but a frame ends with BOM and EOM; typ: limit of its length; data: the frame"""

    def eat(self, b, room=0):
        if self.ph == 'hunt':
            self.ph = 'found' if b == B else 'hunt'
        elif self.ph == 'found' or self.half:
            if self.half and b == E:
                self.queue += ((0, (), self.data),)
                self.leave('hunt')
            elif self.half and b == B:
                self.data += (b,)
                self.half = False
                self.esc += 1
            elif b in (B, E):
                self.leave('hunt')
            else:
                # a frame begins
                self.leave('frame')
                self.data = (b,)
        elif b == B:
            self.half = True
        else:
            self.data += (b,)
        if self.ph == 'frame' and len(self.data) >= room and not self.half:
            self.leave('hunt')


class Stream(c13.Stream):
    READ = 'TRIMBLE_INPUT_read'

    def __init__(self, res, m, room, sizes):
        self.res, self.room, self.sizes = res, room, sizes
        self.m = m
        self.exits = []
        self.count = ()
        self.bufs = {}

    def get(self, st):
        return S(st.mon['s'])

    def choices(self, st, x, left, big):
        """next bytes: (kind, unexpected?)"""
        if x.ph == 'hunt':
            return [('bom', 0), ('data', 1), ('eom', 1)]
        if x.ph == 'found':
            return [('data', 0), ('bom', 1), ('eom', 1)]
        if x.half:
            # whether a frame just filling the buffer is delivered is not specified
            end = [('eom', 0)] if len(x.data) != self.room else []
            return end + ([('bom', 0)] if x.esc < 2 else []) + [('data', 1)]
        return [('data', 0), ('bom', 0)] + ([('eom', 1)] if len(x.data) == 1 or x.data[-1] == B else [])

    def pieces(self, st, x, n):
        out = []
        todo = [(st.copy(), x.copy(), (), 0)]
        while todo:
            s, y, vals, cost = todo.pop()
            if len(vals) == n:
                out.append((s, y, vals))
                continue
            c = [(k, u) for k, u in self.choices(s, y, n - len(vals), False) if cost + u <= (2 if n < 4 else 1)]
            for j, (k, u) in enumerate(c):
                s2 = s if j == len(c) - 1 else s.copy()
                y2 = S(y.tup())
                if k == 'data':
                    v = s2.fresh((-128, 127))
                    for b in (BOM, EOM):
                        s2.setcon(v, *eng.FULL, b)
                else:
                    v = B if k == 'bom' else E
                y2.eat(v, self.room)
                todo.append((s2, y2, vals + (v,), cost + u))
        return out

    def show(self, v):
        return {B: 'BOM', E: 'EOM'}.get(v, 'x')

    def known(self, st, val):
        return not (st.rng(val) == (-128, 127) and BOM not in st.excl(val))

    def forget(self, st, x):
        for g in self.count:
            st.kill(('g', g))
        D = ('d', x.args[0][1])
        st.kill(D, len(x.data), 1 << 30)
        for k, v in enumerate(x.data):
            if st.peek(D, k, 1) != v:
                st.kill(D, k, k + 1)
        for o in [o for o in st.mem if o[0] == 'a' and any(z == 1 and k for k, (z, v) in st.mem[o].items())]:
            st.mem[o] = {k: (z, v) for k, (z, v) in st.mem[o].items() if z != 1 or v in x.data}

    def result(self, e, st, x, v, i):
        _, _, data = x.queue[0]
        if st.rng(v) != (len(data),) * 2:
            e.report('length', i, 'the length returned is not that of the frame received', st)
        D = ('d', x.args[0][1])
        for k, w in enumerate(data):
            b = st.peek(D, k, 1)
            if b is None or not (b == w or e.cmp(st, 'eq', b, w, 8) is True):
                e.report('data', i, 'the bytes of the frame are not those received', st)
                break


class Connect(c13.Connect):
    PFX = 'TRIMBLE_INPUT'


class C14(Check):
    id = 'C14'
    title = 'Frames delivered by the Trimble GPS parser are exactly those received'
    rule = ('Value analysis of connecting and extracting frames against a stream automaton, as for the Radarcape: symbolic bytes, split into those starting and ending frames and others, '
            'are followed through the buffers; each frame delivered must be the next one of the automaton which fits. All states reachable over any number of frames '
            'are enumerated, for the sizes of the frame buffer and of pieces of the job; at most two escapes and two unexpected bytes per piece.')
    quick = ['rc']
    thorough = ['rc', 'rcnet']
    minimum = {'refills': 3, 'frames': 4, 'connects': 1, 'starts': 4}
    assumptions = ['reading yields the next bytes of the stream, or 0 if and only if the connection was lost',
                   'frames are fetched by a single thread', 'whether a frame exactly filling the buffer is delivered is not specified']

    def jobs(self, tier):
        return [(p,) + x for p in self.products(tier) for x in (THOROUGH if tier == 'thorough' else QUICK)]

    def run(self, job, res):
        m = ir.load(job[0])
        f = rules.api(m, 'TRIMBLE_PARSER_getFrame')
        mon = Stream(res, m, *job[1:])
        c13.explore(m, res, mon, Connect(res), f, rules.api(m, 'TRIMBLE_PARSER_connect'),
                    lambda st: [st.fresh((1, eng.PMAX)), ('i', job[1])])


CHECK = C14()
