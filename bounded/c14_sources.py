"""C14 bounded stand-in: sources of params in random hierarchies against an independent union of names."""
import io
import numpy as np
from pyvc.contract import Bounded
from bounded import gen
from openmdao.api import Problem, Group, Component, IndepVarComp, ScipyGMRES


class Thing(Component):
    def __init__(self, params, outs):
        super(Thing, self).__init__()
        for p in params:
            self.add_param(p, 0.0)
        for o in outs:
            self.add_output(o, 0.0)

    def solve_nonlinear(self, params, unknowns, resids):
        pass


class Node(object):
    def __init__(self, name, params=None, outs=None):
        self.name, self.params, self.outs = name, params, outs
        self.kids, self.prom, self.links, self.parent = [], [], [], None

    def names(self):
        """abs name (relative to this node) -> promoted name, and kind"""
        if self.params is not None:
            return [((x,), x, 'p') for x in self.params] + [((x,), x, 'u') for x in self.outs]
        r = []
        for k in self.kids:
            for a, n, kd in k.names():
                n2 = n if gen.matches(n, k.prom) else k.name + '.' + n
                r.append(((k.name,) + a, n2, kd))
        return r


class Sources(Bounded):
    prop = 'C14'
    covers = ('openmdao.core.problem: Problem._setup_connections, _add_implicit_connections, _check_dangling_params; '
              'Group.connect, _get_explicit_connections')
    samples = 4000
    parts = 4

    def sample(self, t, rng):
        cnt = [0]

        def mk(depth):
            g = Node('')
            names = rng.sample(['a', 'ab', 'b', 's', 's1', 'sub', 'c', 'c1'], rng.randint(2, 4))
            for nm in names:
                if depth > 0 and rng.random() < 0.45:
                    k = mk(depth - 1)
                    k.name = nm
                else:
                    ps = rng.sample(['p', 'q', 'r', 'pq'], rng.randint(0, 2))
                    os_ = []
                    for _ in range(rng.randint(0 if ps else 1, 1)):
                        cnt[0] += 1
                        if rng.random() < 0.25 and 'p' not in ps and not used:
                            os_.append('p')
                            used.append(1)
                        else:
                            os_.append('y%d' % cnt[0])
                    k = Node(nm, ps, os_)
                k.parent = g
                g.kids.append(k)
                vis = sorted(set(n for _, n, _ in k.names()))
                for n in vis:
                    if rng.random() < 0.4:
                        k.prom.append(n)
            return g
        used = []
        root = mk(2)
        groups = []

        def coll(g):
            if g.params is None:
                groups.append(g)
                for k in g.kids:
                    coll(k)
        coll(root)
        for g in groups:
            nm = g.names()
            un = [n for _, n, kd in nm if kd == 'u']
            pn = sorted(set(n for _, n, kd in nm if kd == 'p'))
            if len(un) != len(set(un)):
                return
            for _ in range(rng.randint(0, 3)):
                if not pn:
                    continue
                s = rng.choice(un) if un and rng.random() < 0.6 else rng.choice(pn)
                tg = rng.sample(pn, min(len(pn), rng.randint(1, 2)))
                tg = [x for x in tg if x != s and not (x in un)]
                if tg:
                    g.links.append((s, tg))
        t.note(self.show(root))
        # ---- oracle
        par = {}

        def find(x):
            while par[x] != x:
                x = par[x]
            return x

        def union(a, b):
            par[find(a)] = find(b)
        allv = root.names()
        kind = {}
        for a, n, kd in allv:
            par['.'.join(a)] = '.'.join(a)
            kind['.'.join(a)] = kd
        top = {}
        for a, n, kd in allv:
            top.setdefault(n, []).append('.'.join(a))
        for n, l in top.items():
            for x in l[1:]:
                union(l[0], x)

        def path(g):
            r = []
            while g.parent is not None:
                r.append(g.name)
                g = g.parent
            return tuple(reversed(r))
        for g in groups:
            pre = path(g)
            nm = {}
            for a, n, kd in g.names():
                nm.setdefault(n, []).append(('.'.join(pre + a), kd))
            for s, tg in g.links:
                src = [x for x, kd in nm[s] if kd == 'u'] or [x for x, kd in nm[s]]
                for x in tg:
                    for ta, kd in nm[x]:
                        for sa in src:
                            union(sa, ta)
        sets = {}
        for x in par:
            sets.setdefault(find(x), []).append(x)
        bad = [s for s in sets.values() if sum(kind[x] == 'u' for x in s) > 1]
        if not bad:
            for s in sets.values():
                u = [x for x in s if kind[x] == 'u']
                if u and any(x != u[0] and x.rsplit('.', 1)[0] == u[0].rsplit('.', 1)[0] for x in s):
                    return      # a component feeding itself directly is outside the framework's model
        # ---- real
        p = Problem()
        p.root = self.build(root)
        try:
            p.setup(check=False)
            err = None
        except (RuntimeError, NameError, KeyError) as ex:
            err = '%s: %s' % (type(ex).__name__, ex)
        if bad:
            # setup records 'multiple unknowns' and goes on; building the vectors may then stop with a KeyError first
            t.check('a param with two different sources is an error', err is not None)
            return
        t.check('a model in which every param has at most one source is accepted (%s)' % err, err is None)
        if err is not None:
            return
        conns = p.root.connections
        want = {}
        for s in sets.values():
            u = [x for x in s if kind[x] == 'u']
            for x in s:
                if kind[x] == 'p' and u:
                    want[x] = u[0]
        t.check('every connected param has its source, and no other param has one',
                {k: v[0] for k, v in conns.items()} == want)
        t.check('no element selection appears by itself', all(v[1] is None for v in conns.values()))
        dang = sorted(set(n for a, n, kd in allv if kd == 'p' and '.'.join(a) not in want))
        t.check('params without a source are reported as unconnected', p._check_dangling_params(io.StringIO()) == dang)

    def build(self, g):
        if g.params is not None:
            return Thing(g.params, g.outs)
        G = Group()
        G.ln_solver = ScipyGMRES()
        for k in g.kids:
            G.add(k.name, self.build(k), promotes=list(k.prom))
        for s, tg in g.links:
            G.connect(s, tg)
        return G

    def show(self, g, ind=0):
        out = []
        for k in g.kids:
            out.append('%s%s prom=%s %s %s' % ('  ' * ind, k.name, k.prom, k.params or '', k.outs or ''))
            if k.params is None:
                out.append(self.show(k, ind + 1))
        for l in g.links:
            out.append('%sconnect %s' % ('  ' * ind, l))
        return '\n'.join(out)


class Selected(Bounded):
    """sources and element selections of full random models"""
    prop = 'C14'
    covers = 'openmdao.core.problem: Problem._setup_connections (src_indices); openmdao.core._checks'
    samples = 1500
    parts = 2

    def sample(self, t, rng):
        m = gen.model(rng, depth=3)
        t.note(m.describe())
        bad = rng.choice([None, None, 'shape', 'nosrc', 'notgt', 'outout', 'index', 'negindex', 'size', 'second', 'type', 'units'])
        p = m.build()
        expect = None
        num = [v for v in m.unknowns.values() if not v.pbo]
        con = [q for q in m.params.values() if q.source is not None and not q.pbo]
        t.note('injected', bad)
        if bad in ('shape', 'size', 'index', 'negindex', 'type', 'units'):
            from openmdao.api import IndepVarComp
            src = IndepVarComp('srcv', np.zeros(4), units='m')
            p.root.add('zsrc', src)
            c = Component()
            c.solve_nonlinear = lambda a, b, d: None
            kw = {}
            sh = (3,)
            idx = None
            if bad == 'shape':
                sh = rng.choice([(3,), (2, 2), (4, 1), (5,)])
            elif bad == 'size':
                idx = [0, 1]
            elif bad == 'index':
                idx = [0, rng.choice([4, 5, 9]), 2]
                rng.shuffle(idx)
            elif bad == 'negindex':
                idx = [0, -1, 2]
                rng.shuffle(idx)
            elif bad == 'units':
                sh = (4,)
                kw['units'] = 's'
            val = np.zeros(sh) if bad != 'type' else rng.choice([0.0, 'str'])
            if bad == 'type' and val == 'str':
                kw['pass_by_obj'] = True
            if idx is not None and rng.random() < 0.5:
                kw['src_indices'] = idx
                idx = None
            c.add_param('ztgt', val, **kw)
            c.add_output('zout', 0.0)
            p.root.add('zc', c)
            if idx is None:
                p.root.connect('zsrc.srcv', 'zc.ztgt')
            else:
                p.root.connect('zsrc.srcv', 'zc.ztgt', src_indices=idx)
            expect = True
        elif bad == 'nosrc':
            q = rng.choice(list(m.params.values()))
            p.root.connect(rng.choice(['nowhere', m.comps[0].path + '.nope', q.top + 'x']), q.top)
            expect = True
        elif bad == 'notgt':
            p.root.connect(num[0].top, rng.choice(['nowhere', m.comps[-1].path + '.nope'])) if num else None
            expect = bool(num)
        elif bad == 'outout':
            tops = set(q.top for q in m.params.values())
            cand = [v for v in num if v.top not in tops]
            if len(num) < 2 or not cand:
                return
            a = rng.choice(cand)
            b = rng.choice([v for v in num if v is not a])
            p.root.connect(b.top, a.top)
            expect = True
        elif bad == 'second':
            if not con:
                return
            q = rng.choice(con)
            other = [v for v in num if v is not q.source and v.top != q.top]
            if not other:
                return
            p.root.connect(rng.choice(other).top, q.top)
            expect = True
        try:
            p.setup(check=False)
            err = None
        except (RuntimeError, NameError, TypeError, ValueError, KeyError) as ex:
            err = ex
        if expect:
            t.check('a %s connection is reported as an error' % bad, err is not None)
            return
        t.check('a consistent model is accepted (%s)' % err, err is None)
        if err is not None:
            return
        conns = p.root.connections
        t.check('sources of all params', {k: v[0] for k, v in conns.items()} == {a: s for a, (s, i) in m.conns.items()})
        for q in m.params.values():
            if q.source is not None and q.idx is not None:
                t.check('element selection of %s' % q.abs, list(q.comp.system._init_params_dict[q.name]['src_indices']) == list(q.idx))
