"""Front end: compile the units of one product of /repo with clang (-O0), link
them, and load the resulting LLVM module as Python data (through tools/irdump)."""
import atexit, concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
INC = os.path.join(VERIF, 'vpa', 'inc')
BUILD = os.path.join(VERIF, 'build')
SRC = 'src'


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (not a verdict)."""


def tool(name):
    for n in (name + '-18', name, '/usr/lib/llvm-18/bin/' + name):
        p = shutil.which(n)
        if p:
            return p
    raise AnalysisError('missing tool ' + name)


def ensure_irdump():
    src = os.path.join(VERIF, 'tools', 'irdump.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'irdump-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    flags = subprocess.check_output([tool('llvm-config'), '--cxxflags'], text=True).split()
    r = subprocess.run([tool('clang++'), '-O1', '-fno-rtti', '-w'] + flags +
                       [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('irdump does not build: ' + r.stderr[:2000])
    os.rename(tmp, exe)
    return exe


CORE = ['relay', 'filter', 'buffer', 'network', 'tb', 'gps', 'recv', 'login', 'beast']
UTIL = ['cfgfile', 'component', 'log_stdio', 'statistics', 'util', 'net_common-posix',
        'serial_eth', 'port/mmap-posix', 'proc']
LIBUTIL = ['net_common-posix', 'statistics', 'component', 'util', 'cfgfile',
           'port/mmap-posix', 'serial_eth']


def _c(d, names, ext='.c'):
    return ['%s/%s%s' % (d, n, ext) for n in names]


DAEMON = _c('core', CORE) + _c('util', UTIL)
# the dump1090 daemons bring their own serial source: as with the archive, serial_eth is not linked
DAEMON_NOETH = [u for u in DAEMON if not u.endswith('serial_eth.c')]
SYS = ['-DSYSCONFDIR="/usr/local/etc"']
RC = SYS + ['-DFWDIR="/usr/local/lib"']
DMP = SYS + ['-DLOCALSTATEDIR="/usr/local/var"']
LIB = ['-fvisibility=hidden', '-DPREFIX="OpenSky"', '-DLIB']

# product -> (units with product flags, product flags, shared units without them)
PRODUCTS = {
    'rc': (_c('radarcape', ['main', 'rc-parser', 'uart', 'fpga', 'watchdog', 'gpio', 'tb-rshell', 'tb-misc']),
           RC + ['-DINPUT_RADARCAPE_UART', '-DSTANDALONE'],
           DAEMON + _c('trimble', ['trimble_recv', 'trimble_parser', 'trimble_input_uart'])),
    # the same for a system with systemd and pacman
    'rcsys': (_c('radarcape', ['main', 'rc-parser', 'uart', 'fpga', 'watchdog', 'gpio', 'tb-rshell', 'tb-misc']) + ['util/proc.c'],
              RC + ['-DINPUT_RADARCAPE_UART', '-DSTANDALONE', '-DWITH_SYSTEMD="/usr/bin"', '-DWITH_PACMAN=1'],
              [u for u in DAEMON if u != 'util/proc.c'] + _c('trimble', ['trimble_recv', 'trimble_parser', 'trimble_input_uart'])),
    'rcnet': (_c('radarcape', ['main', 'rc-parser', 'network']),
              RC + ['-DINPUT_RADARCAPE_NETWORK'],
              DAEMON + _c('trimble', ['trimble_recv', 'trimble_parser', 'trimble_input_network'])),
    'rcdummy': (_c('radarcape', ['main', 'rc-parser', 'dummy']),
                RC + ['-DINPUT_RADARCAPE_DUMMY'],
                DAEMON + _c('trimble', ['trimble_recv', 'trimble_parser', 'trimble_input_dummy'])),
    'wd': (_c('radarcape', ['wd-main', 'gpio', 'watchdog']), ['-DWD_ONLY'], DAEMON),
    'lib': (_c('radarcape/lib', ['opensky', 'log_lib'], '.cc'), LIB,
            _c('core', CORE) + _c('util', LIBUTIL)),
    'gplib': (_c('gplib', ['opensky', 'log_lib'], '.cc'), LIB,
              _c('core', CORE) + _c('util', LIBUTIL)),
    'dump1090': (_c('dump1090', ['dump1090', 'req-serial', 'position', 'devtype']) +
                 _c('radarcape', ['rc-parser', 'network']), DMP, DAEMON_NOETH),
    'dump1090-donated': (_c('dump1090', ['dump1090', 'req-serial', 'position']) +
                         _c('radarcape', ['rc-parser', 'network', 'tb-rshell']),
                         DMP + ['-DDUMP1090_DONATED'], DAEMON_NOETH),
    'dump1090-kit': (_c('dump1090', ['dump1090', 'req-serial', 'position']) +
                     _c('radarcape', ['rc-parser', 'network', 'tb-rshell']),
                     DMP + ['-DDUMP1090_KIT'], DAEMON_NOETH),
}

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vpa-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_srchash = None


def src_hash():
    """Hash of every source file of the tree and of the front end itself."""
    global _srchash
    if _srchash is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, SRC), INC):
            for d, dn, fn in sorted(os.walk(base)):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith(('.c', '.h', '.cc', '.hh')):
                        p = os.path.join(d, f)
                        h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
        for p in (os.path.join(VERIF, 'tools', 'irdump.cc'), os.path.abspath(__file__)):
            h.update(open(p, 'rb').read())
        _srchash = h.hexdigest()[:24]
    return _srchash


def compile_unit(unit, flags, out):
    src = os.path.join(REPO, SRC, unit)
    cxx = unit.endswith('.cc')
    cmd = [tool('clang++' if cxx else 'clang'), '-std=' + ('c++11' if cxx else 'gnu11'),
           '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names',
           '-fno-inline', '-pthread', '-w', '-DHAVE_CONFIG_H',
           '-I', INC, '-I', os.path.join(REPO, SRC),
           '-emit-llvm', '-c', src, '-o', out] + (['-fno-exceptions'] if cxx else []) + flags
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('cannot compile %s: %s' % (unit, r.stderr[:2000]))


def load_units(key, units):
    """units: list of (unit, flags).  Returns a Module."""
    cdir = os.environ.get('VP_CACHE') or os.path.join(BUILD, 'ir')
    cache = os.path.join(cdir, '%s-%s.json' % (key, src_hash()))
    if not os.path.exists(cache):
        exe = ensure_irdump()
        d = tempfile.mkdtemp(dir=scratch())
        outs = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fs = []
            for n, (u, fl) in enumerate(units):
                o = os.path.join(d, '%d.bc' % n)
                outs.append(o)
                fs.append(ex.submit(compile_unit, u, fl, o))
            for f in fs:
                f.result()
        bc = os.path.join(d, 'all.bc')
        r = subprocess.run([tool('llvm-link'), '-o', bc] + outs, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot link %s: %s' % (key, r.stderr[:2000]))
        r = subprocess.run([exe, bc], capture_output=True)
        if r.returncode:
            raise AnalysisError('irdump failed on %s: %s' % (key, r.stderr[:2000]))
        shutil.rmtree(d)
        os.makedirs(cdir, exist_ok=True)
        for old in os.listdir(cdir):
            if old.startswith(key + '-') and src_hash() not in old and old[len(key)+1:].count('-') == 0:
                try:
                    p = os.path.join(cdir, old)
                    if time.time() - os.stat(p).st_mtime > 1800:
                        os.unlink(p)
                except OSError:
                    pass
        tmp = cache + '.%d' % os.getpid()
        open(tmp, 'wb').write(r.stdout)
        os.rename(tmp, cache)
    return Module(key, json.load(open(cache)), [u for u, _ in units])


_mods = {}


def load(product):
    if product not in _mods:
        own, fl, shared = PRODUCTS[product]
        units = [(u, fl) for u in own]
        units += [(u, fl if product in ('lib', 'gplib') else []) for u in shared]
        _mods[product] = load_units(product, units)
    return _mods[product]


class Instr:
    __slots__ = ('id', 'op', 'ty', 'loc', 'ops', 'd', 'idx', 'blk')

    def __init__(self, d, blk, idx):
        self.id = d['id']
        self.op = d['op']
        self.ty = d['ty']
        l = d.get('loc')
        self.loc = (relpath(l[0]), l[1], l[2]) if l else None
        self.ops = [freeze(o) for o in d['ops']]
        self.d = d
        self.blk = blk
        self.idx = idx
        if 'callee' in d:
            d['callee'] = freeze(d['callee'])
        if 'vars' in d:
            d['vars'] = [(freeze(v), s) for v, s in d['vars']]


def freeze(o):
    return tuple(freeze(x) for x in o) if isinstance(o, list) else o


def relpath(p):
    if p.startswith(REPO + '/'):
        p = p[len(REPO) + 1:]
    return os.path.normpath(p)


TERM = ('br', 'switch', 'ret', 'unreachable', 'invoke')


class Function:
    def __init__(self, mod, name, d):
        self.mod = mod
        self.name = name
        self.decl = d['decl']
        self.internal = d['internal']
        self.noreturn = d['noreturn']
        self.vararg = d['vararg']
        self.ret = d['ret']
        self.file = relpath(d['file']) if 'file' in d else None
        self.line = d.get('line', 0)
        self.dname = d.get('dname', name)
        self.sig = d.get('sig', [])
        self.hidden = d['hidden']
        self.args = d.get('args', [])
        self.names = {int(k): v for k, v in d.get('names', {}).items()}
        self.blocks = [[Instr(i, b, n) for n, i in enumerate(blk)] for b, blk in enumerate(d.get('blocks', []))]
        self._live = None

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self):
        for i in self.instrs():
            if i.op == 'call':
                yield i

    @staticmethod
    def succs(i):
        if i.op == 'br':
            return i.d['succ']
        if i.op == 'switch':
            return [i.d['dflt']] + [b for _, b in i.d['cases']]
        if i.op == 'call' and i.d.get('invoke'):
            return i.d['succ']
        return []

    def liveness(self):
        """live-in register sets per block; regs used per instruction."""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]
        for b, blk in enumerate(self.blocks):
            for i in blk:
                if i.op == 'phi':
                    for pb, v in i.ops:
                        if v[0] == 'r':
                            phiuse[pb].setdefault(b, set()).add(v[1])
                else:
                    for r in uses(i):
                        if r not in dfn[b]:
                            use[b].add(r)
                dfn[b].add(i.id)
        livein = [set() for _ in range(n)]
        liveout = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(range(n)):
                out = set()
                if self.blocks[b]:
                    for s in self.succs(self.blocks[b][-1]):
                        out |= livein[s]
                        out |= phiuse[b].get(s, set())
                # phi defs of the block itself are not live-in
                inn = use[b] | (out - dfn[b])
                if out != liveout[b] or inn != livein[b]:
                    liveout[b], livein[b] = out, inn
                    ch = True
        self._live = (livein, liveout)
        return self._live

    def live_after(self, b, idx):
        """registers needed after instruction idx of block b"""
        key = (b, idx)
        c = self.__dict__.setdefault('_la', {})
        if key in c:
            return c[key]
        live = set(self.liveness()[1][b])
        for i in reversed(self.blocks[b][idx + 1:]):
            live.discard(i.id)
            if i.op != 'phi':
                live.update(uses(i))
        c[key] = live
        return live


def uses(i):
    for o in i.ops:
        if o and o[0] == 'r':
            yield o[1]
    for o, _ in i.d.get('vars', ()):
        if o[0] == 'r':
            yield o[1]
    c = i.d.get('callee')
    if c and c[0] == 'r':
        yield c[1]


class Global:
    def __init__(self, name, d):
        self.name = name
        self.__dict__.update(d)
        self.d = d
        self.constant = d['const']
        self.dname = d.get('dname', name)
        self.file = relpath(d['file']) if 'file' in d else None
        self.scope = d.get('scope')
        self.cells = None
        if 'init' in d:
            c = []
            for e in d['init']:
                if e[1] == 'zero':
                    c.append((e[0], e[2], ('zero',)))
                elif e[1] == 'bytes':
                    c.append((e[0], len(e[2]) // 2, ('bytes', bytes.fromhex(e[2]))))
                else:
                    c.append((e[0], e[3], freeze(e[2])))
            self.cells = c

    def read(self, off, size):
        """constant initial value at byte offset, as an operand tuple, or None"""
        if self.cells is None:
            return ('i', 0, size * 8) if not self.d['decl'] else None
        for o, s, v in self.cells:
            if o <= off and off + size <= o + s:
                if v[0] == 'zero':
                    return ('i', 0, size * 8)
                if v[0] == 'bytes':
                    x = int.from_bytes(v[1][off - o:off - o + size], 'little')
                    if x >= 1 << (size * 8 - 1) and size > 1:
                        x -= 1 << (size * 8)
                    return ('i', x, size * 8)
                if o == off and s == size:
                    return v
                if v[0] == 'i':
                    x = (v[1] >> (8 * (off - o))) & ((1 << (8 * size)) - 1)
                    return ('i', x, size * 8)
                if v[0] == 'null':
                    return ('i', 0, size * 8)
                return None
        # padding
        return ('i', 0, size * 8)

    def cstring(self, off=0):
        if self.cells is None:
            return None
        for o, s, v in self.cells:
            if o <= off < o + s:
                if v[0] == 'bytes':
                    b = v[1][off - o:]
                    return b.split(b'\0')[0].decode('latin1')
                if v[0] == 'zero':
                    return ''
        return None


class Module:
    def __init__(self, key, d, units):
        self.key = key
        self.units = units
        self.structs = d['structs']
        self.enums = d['enums']
        self.globals = {k: Global(k, v) for k, v in d['globals'].items()}
        self.functions = {k: Function(self, k, v) for k, v in d['functions'].items()}
        self.defined = {k: f for k, f in self.functions.items() if not f.decl}

    def fn(self, name):
        """function by symbol or by source name (C++, renamed internals)"""
        f = self.functions.get(name)
        if f:
            return f
        c = [f for f in self.functions.values() if f.dname == name]
        if len(c) == 1:
            return c[0]
        raise AnalysisError('%s: no unique function %s' % (self.key, name))

    def in_file(self, suffix):
        return [f for f in self.defined.values() if f.file and f.file.endswith(suffix)]

    def field(self, struct, name):
        for m in self.structs[struct]['members']:
            if m[0] == name:
                return m[1], m[2]
            for s in m[4]:
                if s[0] == name:
                    return m[1] + s[1], s[2]
        raise AnalysisError('struct %s has no member %s' % (struct, name))

    def enumval(self, name):
        for e in self.enums.values():
            if name in e:
                return e[name]
        raise AnalysisError('no enumerator ' + name)

    def string(self, opv):
        """constant C string an operand points to"""
        if opv and opv[0] == 'g' and opv[1] in self.globals:
            return self.globals[opv[1]].cstring(opv[2])
        return None

    def comps(self):
        """component descriptors: global -> dict of fields"""
        if 'Component' not in self.structs:
            return {}
        out = {}
        for g in self.globals.values():
            if g.d.get('dtype') == 'Component' and not g.d['decl']:
                o = {}
                for m in self.structs['Component']['members']:
                    if m[0] == 'dependencies':
                        deps = []
                        off = m[1]
                        while off + 8 <= g.d['size']:
                            deps.append(g.read(off, 8))
                            off += 8
                        o['dependencies'] = deps
                    else:
                        o[m[0]] = g.read(m[1], m[2])
                out[g.name] = o
        return out

    def locstr(self, i):
        return '%s:%d' % (i.loc[0], i.loc[1]) if i.loc else '?'
