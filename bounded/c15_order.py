"""C15 bounded stand-in: execution order of random models and random dependency graphs."""
import itertools
import networkx as nx
from openmdao.api import Group, ExecComp, Problem, IndepVarComp, ScipyGMRES
from openmdao.util.graph import break_strongly_connected
from pyvc.contract import Bounded
from bounded import gen


def closure(nodes, edges):
    """pairs (a, b) with a path of at least one edge from a to b"""
    r = set(edges)
    for k in nodes:
        for i in nodes:
            if (i, k) in r:
                for j in nodes:
                    if (k, j) in r:
                        r.add((i, j))
    return r


def acyclic(nodes, edges):
    r = closure(nodes, edges)
    return not any((n, n) in r for n in nodes)


def cyclic_edges(nodes, edges):
    r = closure(nodes, edges)
    return set((a, b) for a, b in edges if (b, a) in r)


def child(g, path):
    """name of the child of the group at path g that contains the component at path"""
    pre = g + '.' if g else ''
    if not path.startswith(pre):
        return None
    return path[len(pre):].split('.')[0]


def group_edges(m, g):
    e = set()
    for tgt, (src, _) in m.conns.items():
        a, b = child(g.path, src.rsplit('.', 1)[0]), child(g.path, tgt.rsplit('.', 1)[0])
        if a is not None and b is not None and a != b:
            e.add((a, b))
    return e


class OrderRun(Bounded):
    prop = 'C15'
    covers = ('openmdao.core.group: Group.list_auto_order, set_order, _get_sys_graph, _break_cycles; Relevance._setup_sys_graph; '
              'openmdao.util.graph: collapse_nodes, break_strongly_connected; Problem.setup; Group.children_solve_nonlinear')
    samples = 1800
    parts = 4

    def sample(self, t, rng):
        m = gen.model(rng, ncomp=rng.randint(3, 9), depth=3, cyclic=rng.random() < 0.6, quad=False, units=False,
                      unconnected=rng.choice([0.1, 0.3]), pbo=rng.random() < 0.3, arrays=rng.random() < 0.3)
        p = m.build()
        for g in m.groups:
            g.system.ln_solver = ScipyGMRES()
            # the order of declaration is not that of the data flow
            names = [c.name for c in g.children]
            rng.shuffle(names)
            if rng.random() < 0.7:
                g.system.set_order(names)
                g.system._order_set = False
            g.given = None
            if rng.random() < 0.2:
                rng.shuffle(names)
                g.given = list(names)
                g.system.set_order(names)
            g.declared = list(g.system.list_order())
        t.note(m.describe())
        log = []
        for c in m.comps:
            if c.kind != 'indep':
                def wrap(orig, path):
                    def f(params, unknowns, resids):
                        log.append(path)
                        return orig(params, unknowns, resids)
                    return f
                c.system.solve_nonlinear = wrap(c.system.solve_nonlinear, c.path)
        p.setup(check=False)
        for g in m.groups:
            nodes = [c.name for c in g.children]
            order = g.system.list_order()
            E = group_edges(m, g)
            free = cyclic_edges(nodes, E)
            t.note('%r: order %s edges %s' % (g.path, order, sorted(E)))
            t.check('every subsystem exactly once', sorted(order) == sorted(nodes))
            t.check('the order of the children is the order reported', [s.name for s in g.system.subsystems()] == order)
            auto, broken = g.system.list_auto_order()
            pre = g.path + '.' if g.path else ''
            t.check('the automatic order names every subsystem exactly once', sorted(auto) == sorted(nodes))
            t.check('ignored connections are reported by path', all(a.startswith(pre) and b.startswith(pre) for a, b in broken))
            br = [(a[len(pre):], b[len(pre):]) for a, b in broken]
            t.check('no connection is ignored twice', len(br) == len(set(br)))
            t.check('only connections inside a cycle are ignored', set(br) <= free)
            t.check('what is left has no cycle', acyclic(nodes, E - set(br)))
            for a, b in sorted(E - set(br)):
                t.check('%s comes before %s in the automatic order' % (a, b), auto.index(a) < auto.index(b))
            if g.given is not None:
                t.check('a given order is used as given', order == g.given)
            else:
                t.check('the automatic order is used', order == auto)
                for a, b in sorted(E - free):
                    t.check('%s runs before %s' % (a, b), order.index(a) < order.index(b))
        # the components execute in that order
        for g in m.groups:
            g.system.nl_solver.options['iprint'] = -1
        p.run()
        want = []

        def walk(g):
            by = {c.name: c for c in g.children}
            for n in g.system.list_order():
                c = by[n]
                if isinstance(c, gen.GroupSpec):
                    walk(c)
                elif c.kind != 'indep':
                    want.append(c.path)
        walk(m.root)
        t.check('components run in the order of their groups', log == want)
        # setting the order again
        g = rng.choice(m.groups)
        now = list(g.system.list_order())
        bad = list(now)
        kind = rng.choice(['omit', 'repeat', 'invent', 'replace', 'ok'])
        if kind == 'omit':
            bad.pop(rng.randrange(len(bad)))
        elif kind == 'repeat':
            bad.insert(rng.randint(0, len(bad)), rng.choice(bad))
        elif kind == 'invent':
            bad.insert(rng.randint(0, len(bad)), rng.choice(['zz', now[0] + '1x', '']))
        elif kind == 'replace':
            bad[rng.randrange(len(bad))] = 'other'
        else:
            rng.shuffle(bad)
        t.note('set_order(%s) of %r' % (bad, g.path))
        try:
            g.system.set_order(bad)
            t.check('a wrong order is rejected', kind == 'ok')
            t.check('the order set is the order', g.system.list_order() == bad)
        except ValueError:
            t.check('a right order is accepted', kind != 'ok')
            t.check('a rejected order changes nothing', g.system.list_order() == now)


class OutOfOrder(Bounded):
    prop = 'C15'
    covers = 'openmdao.core.problem: Problem._get_ubc_vars, _check_graph (reports of cycles and misplaced subsystems)'
    samples = 700
    parts = 2

    def sample(self, t, rng):
        m = gen.model(rng, ncomp=rng.randint(3, 8), depth=2, cyclic=rng.random() < 0.4, quad=False, units=False, unconnected=0.15)
        p = m.build()
        for g in m.groups:
            g.system.ln_solver = ScipyGMRES()
            if rng.random() < 0.5:
                names = [c.name for c in g.children]
                rng.shuffle(names)
                g.system.set_order(names)
        t.note(m.describe())
        p.setup(check=False)
        seq = []

        def walk(g):
            by = {c.name: c for c in g.children}
            for n in g.system.list_order():
                c = by[n]
                if isinstance(c, gen.GroupSpec):
                    walk(c)
                else:
                    seq.append(c.path)
        walk(m.root)
        for c in m.comps:
            late = any(seq.index(m.conns[q.abs][0].rsplit('.', 1)[0]) >= seq.index(c.path) for q in c.params if q.abs in m.conns)
            t.check('%s is marked as fed by a later component exactly when it is' % c.path, bool(c.system._run_apply) == late)
        import io
        cycles, ooo = p._check_graph(out_stream=io.StringIO())
        want = []
        for g in m.groups:
            nodes = [c.name for c in g.children]
            E = group_edges(m, g)
            r = closure(nodes, E)
            comps, seen = [], set()
            for n in g.system.list_order():
                if n not in seen and (n, n) in r:
                    scc = [k for k in g.system.list_order() if k == n or ((n, k) in r and (k, n) in r)]
                    seen.update(scc)
                    comps.append(scc)
            if comps:
                want.append(sorted(comps))
        t.note('cycles', cycles, want)
        t.check('every cycle is reported', sorted(sorted(c) for c in cycles) == sorted(want))
        ooo = dict(ooo)
        for g in m.groups:
            nodes = [c.name for c in g.children]
            order = g.system.list_order()
            br = set((child(g.path, a), child(g.path, b)) for a, b in g.system.list_auto_order()[1])
            r = closure(nodes, group_edges(m, g) - br)
            exp = {}
            for v in nodes:
                before = sorted(u for u in nodes if (u, v) in r and order.index(u) > order.index(v))
                if before:
                    exp[v] = before
            t.note(g.path, ooo.get(g.path), exp)
            t.check('misplaced subsystems of %r are reported' % g.path, dict(ooo.get(g.path, {})) == exp)


class BreakRun(Bounded):
    prop = 'C15'
    covers = 'openmdao.util.graph: break_strongly_connected (all digraphs of 3 nodes, samples of up to 8)'
    samples = 3000
    parts = 2

    def sample(self, t, rng):
        n = rng.choice([2, 3, 3, 4, 5, 6, 8])
        nodes = ['n%d' % k for k in range(n)]
        rng.shuffle(nodes)
        d = rng.choice([0.15, 0.3, 0.5, 0.9])
        E = [(a, b) for a in nodes for b in nodes if a != b and rng.random() < d]
        self.one(t, rng, nodes, E)

    def one(self, t, rng, nodes, E):
        G = nx.DiGraph()
        G.add_nodes_from(nodes)
        for a, b in E:
            G.add_edge(a, b, weight=rng.choice([1, 1, 2, 5]))
        t.note('edges %s' % E)
        g = Group()
        H, broken = g._break_cycles(nodes, G)
        E = set(E)
        t.check('the graph given is not changed', set(G.edges()) == E and sorted(G.nodes()) == sorted(nodes))
        t.check('the connections left are those not ignored', set(H.edges()) == E - set(broken) and sorted(H.nodes()) == sorted(nodes))
        t.check('connections are ignored once', len(broken) == len(set(broken)))
        t.check('only connections inside a cycle are ignored', set(broken) <= cyclic_edges(nodes, E))
        t.check('what is left has no cycle', acyclic(nodes, set(H.edges())))


class SmallGraphs(BreakRun):
    covers = 'openmdao.util.graph: break_strongly_connected (every digraph of 3 nodes)'
    samples = 3
    parts = 1

    def sample(self, t, rng):
        nodes = ['a', 'b', 'c']
        pairs = [(a, b) for a in nodes for b in nodes if a != b]
        for k in range(64):
            self.one(t, rng, nodes, [e for i, e in enumerate(pairs) if k >> i & 1])
