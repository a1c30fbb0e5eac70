from vpa import bounds, eng, ir, rules
from vpa.check import Check


class C09(Check):
    id = 'C09'
    title = 'No data of the server and no configuration file can overflow a buffer'
    rule = ('Relational value analysis (intervals, differences of offsets and lengths) of everything reachable from the functions receiving from the server '
            'and from the functions reading configuration files: the end of each access to an object of known size is within the object '
            '(for server data also its beginning).')
    quick = ['rc']
    thorough = ['rc', 'lib', 'rcnet', 'gplib']
    minimum = {'roots': 3, 'accesses': 1500, 'receives': 1, 'stores': 300}
    assumptions = ['objects of unknown size (mapped files, C library data) are not checked', 'values read from shared variables are unconstrained',
                   'config option tables are consistent (C19)']

    def jobs(self, tier):
        out = []
        for p in self.products(tier):
            m = ir.load(p)
            for r in rules.roots_reaching(m, {'recv'}):
                if m.functions[r].name != 'main':
                    out.append((p, r, 'server'))
            for f in sorted(argh(m)):
                out.append((p, f, 'server'))
            for n in ('CFG_readFile', 'CFG_readDirectory', 'CFG_loadDefaults', 'CFG_setString'):
                out.append((p, rules.api(m, n).name, 'config'))
        return sorted(set(out))

    def run(self, job, res):
        p, r, what = job
        m = ir.load(p)
        b = bounds.Bounds(res, before=what == 'server', m=m)
        nocall = {'LOGIN_login'}
        if r.startswith('CFG_readDirectory'):
            # analysed on its own
            nocall |= {'CFG_readFile'}
        e = eng.Engine(m, [b], relational=True, K=4, cancel=False, noinline=nocall, partition=bounds.signs, ulen=what == 'config')
        e.run(m.functions[r])
        res.take(e)
        res.n['roots'] += 1


def argh(m):
    """handlers of messages of the server"""
    return rules.argrefs(m, 'TB_register', 2)


CHECK = C09()
