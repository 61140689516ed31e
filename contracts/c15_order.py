"""C15: the connections that are ignored leave a graph without cycles (openmdao/util/graph.py, openmdao/core/group.py).

Graphs are sets of edges over any number of nodes. Acyclicity is certified by a strict partial order that contains the
edges: the contract of the recursive function gives its caller such an order on each component, and the caller's order
is built from them and the order of the components.
"""
import itertools
import z3
import networkx as nx
from pyvc.contract import *
from pyvc.core import SInt, SBool, SymList, T as term
from pyvc.core import _sb
from pyvc.objs import SymIter
from openmdao.core.group import Group
from openmdao.core.problem import Problem
from openmdao.util.graph import break_strongly_connected


class Gr(object):
    """stands for a networkx.DiGraph"""


class Log(object):
    """stands for the list of ignored edges"""


class Nx(object):
    """stands for the networkx module"""


def fa(c, n, k, f):
    """for all k nodes"""
    xs = [z3.Int(c.e.fresh_name('n')) for _ in range(k)]
    saved, c.e.in_spec = c.e.in_spec, True
    try:
        b = f(*[SInt(x) for x in xs])
    finally:
        c.e.in_spec = saved
    rng = z3.And([z3.And(0 <= x, x < term(n)) for x in xs])
    return SBool(z3.ForAll(xs, z3.Implies(rng, _sb(b))))


def closure(nodes, edges):
    r = set(edges)
    for k in nodes:
        for i in nodes:
            if (i, k) in r:
                for j in nodes:
                    if (k, j) in r:
                        r.add((i, j))
    return r


def components(nodes, edges):
    r = closure(nodes, edges)
    out, seen = [], set()
    for n in nodes:
        if n not in seen:
            s = [k for k in nodes if k == n or ((n, k) in r and (k, n) in r)]
            seen.update(s)
            out.append(s)
    return out


class Cycles(Contract):
    """the ghost graphs shared by the contracts of this file"""
    prop = 'C15'
    rac = 150
    weight = 2

    # ---- concrete graphs
    def digraph(self, c, single):
        n = c.int('n', 2, 6)
        nodes = list(range(n))
        E = [(a, b) for a in nodes for b in nodes if a != b and c.bool('e')]
        G = nx.DiGraph()
        G.add_nodes_from(nodes)
        for a, b in E:
            G.add_edge(a, b, weight=c.int('w', 1, 4))
        return nodes, E, G

    # ---- ghost graphs
    def graph(self, c, S, name, get, put, inside):
        """a DiGraph whose edges are get()(u, v)"""
        g = c.obj(Gr)

        def degree(node, weight=None):
            return c.real('degree', lo=0.0)

        def remove(u, v):
            c.check('an edge is removed from %s only if it is there' % name, get()(u, v))
            old = get()
            put(lambda a, b: And(old(a, b), Or(a != u, b != v)))

        def adj(pred):
            def f(m):
                if m is None:
                    c.throw(TypeError, 'no node')
                # a list of the neighbours, each once
                n = c.int('deg', 0, small=None)
                lst = c.symlist('adj', n, 'int')
                pos = c.func('pos', 1, 'int')
                E = get()
                has = (lambda u: E(u, m)) if pred else (lambda u: E(m, u))
                c.assume(c.forall(0, n, lambda i: And(0 <= c.at(lst, i), c.at(lst, i) < S.n, has(c.at(lst, i)), pos(c.at(lst, i)) == i)))
                c.assume(fa(c, S.n, 1, lambda u: Implies(has(u), And(0 <= pos(u), pos(u) < n, c.at(lst, pos(u)) == u))))
                S.cut = NS(m=m, pred=pred, pos=pos, s=S.sE, p=S.pE, b=S.B)
                return lst
            return f
        for nm, f in (('in_degree', degree), ('out_degree', degree), ('remove_edge', remove), ('predecessors', adj(True)),
                      ('successors', adj(False))):
            c.put_attr(g, nm, c.method(f))
        return g

    def ghost(self, c, S):
        """parent graph pE over nodes 0..n-1, broken edges B"""
        S.n = c.int('n', 1, small=None)
        S.p0 = c.func('E', 2, 'bool')
        S.b0 = c.func('B', 2, 'bool')
        S.pE, S.B, S.sE = S.p0, S.b0, None
        S.heads = set()
        S.R, S.done = (lambda u, v: SBool(z3.BoolVal(False))), False
        c.assume(fa(c, S.n, 1, lambda u: Not(S.p0(u, u))))

        def put_p(f):
            S.pE = f
        S.parent = self.graph(c, S, 'the graph', lambda: S.pE, put_p, None)

        def append(e):
            u, v = e
            old = S.B
            S.B = lambda a, b: Or(old(a, b), And(a == u, b == v))
        S.log = c.obj(Log, append=c.method(append))

    def scc_model(self, c, S, get, member):
        """networkx.strongly_connected_components: numbered components (t is a topological number of each)"""
        m = c.int('components', 0, small=None)
        comp, t, size, elem = c.func('comp', 1, 'int'), c.func('topo', 1, 'int'), c.func('size', 1, 'int'), c.func('elem', 2, 'int')
        E = get()
        S.comp, S.topo, S.member, S.n_comp = comp, t, member, m
        same = lambda u, v: comp(u) == comp(v)
        S.scc_edges = E
        c.assume(fa(c, S.n, 1, lambda u: Implies(member(u), And(0 <= comp(u), comp(u) < m))))
        c.assume(fa(c, S.n, 2, lambda u, v: Implies(And(member(u), member(v), E(u, v)), Or(same(u, v), t(comp(u)) < t(comp(v))))))
        c.assume(c.forall(0, m, lambda i: c.forall(0, m, lambda j: Implies(i != j, t(i) != t(j)))))
        c.assume(fa(c, S.n, 2, lambda u, v: Implies(And(member(u), member(v), same(u, v), size(comp(u)) == 1), u == v)))
        S.p1, S.b1 = S.pE, S.B

        def get_k(k):
            l = SymList(None, size(SInt(term(k))), lambda i: elem(SInt(term(k)), SInt(term(i))), 'int', 'scc')
            c.assume(size(SInt(term(k))) >= 1)
            l.component = SInt(term(k))
            return l
        return SymIter(m, get_k)

    def recursion(self, c, S):
        """the contract of break_strongly_connected, as its callers see it"""
        def f(parent, log, scc):
            c.check('the graph that was searched is the one to be changed', parent is S.parent)
            c.check('the ignored edges go to the same list', log is S.log)
            j = scc.component
            inside = lambda u, v: And(S.member(u), S.member(v), S.comp(u) == j, S.comp(v) == j)
            E, B, old = S.pE, S.B, S.R
            c.check('the nodes are still strongly connected in the graph', fa(c, S.n, 2, lambda u, v: Implies(inside(u, v), Iff(E(u, v), S.scc_edges(u, v)))))
            c.check('no node depends on itself', fa(c, S.n, 1, lambda u: Not(E(u, u))))
            E2, P = c.func('E', 2, 'bool'), c.func('order', 2, 'bool')
            c.assume(fa(c, S.n, 2, lambda u, v: Implies(E2(u, v), E(u, v))))
            c.assume(fa(c, S.n, 2, lambda u, v: Implies(Not(inside(u, v)), Iff(E2(u, v), E(u, v)))))
            c.assume(fa(c, S.n, 2, lambda u, v: Implies(And(inside(u, v), E2(u, v)), P(u, v))))
            c.assume(fa(c, S.n, 1, lambda u: Not(P(u, u))))
            c.assume(fa(c, S.n, 3, lambda u, v, w: Implies(And(P(u, v), P(v, w)), P(u, w))))
            S.pE = E2
            S.B = lambda u, v: Or(B(u, v), And(E(u, v), Not(E2(u, v))))
            S.R = lambda u, v: Or(And(inside(u, v), P(u, v)), And(Not(S.comp(u) == j), old(u, v)))
            S.done = True
        return c.model(f, 'break_strongly_connected')

    def components_loop(self, c, S, name):
        """invariant of the loop over the components"""
        def inv(L, k, S_):
            if isinstance(k, int):
                S.R = lambda u, v: SBool(z3.BoolVal(False))
                S.done = False
            elif name not in S.heads:
                S.heads.add(name)
                S.pE, S.B, S.R = c.func('E', 2, 'bool'), c.func('B', 2, 'bool'), c.func('R', 2, 'bool')
                S.done = False
            elif not S.done:
                old = S.R
                S.R = lambda u, v: And(S.comp(u) != k - 1, old(u, v))
            E, B, R, E1, B1, cm, mem = S.pE, S.B, S.R, S.p1, S.b1, S.comp, S.member
            done = lambda u, v: And(mem(u), mem(v), cm(u) == cm(v), cm(u) < k)
            return [('edges elsewhere are kept', fa(c, S.n, 2, lambda u, v: Implies(Not(done(u, v)), And(Iff(E(u, v), E1(u, v)), Iff(B(u, v), B1(u, v)))))),
                    ('edges are only removed', fa(c, S.n, 2, lambda u, v: Implies(E(u, v), E1(u, v)))),
                    ('removed edges are reported', fa(c, S.n, 2, lambda u, v: Iff(B(u, v), Or(B1(u, v), And(E1(u, v), Not(E(u, v))))))),
                    ('the components seen are ordered', fa(c, S.n, 2, lambda u, v: Implies(And(done(u, v), E(u, v)), R(u, v)))),
                    ('strictly', fa(c, S.n, 1, lambda u: Implies(And(mem(u), cm(u) < k), Not(R(u, u))))),
                    ('transitively', fa(c, S.n, 3, lambda u, v, w: Implies(And(done(u, v), done(v, w), R(u, v), R(v, w)), R(u, w))))]
        return LoopSpec(inv=inv)

    def acyclic(self, c, S, E):
        mem = S.member
        lt = lambda u, v: Or(S.topo(S.comp(u)) < S.topo(S.comp(v)), And(S.comp(u) == S.comp(v), S.R(u, v)))
        c.check('the connections left go up in an order', fa(c, S.n, 2, lambda u, v: Implies(And(mem(u), mem(v), E(u, v)), lt(u, v))))
        c.check('which is strict', fa(c, S.n, 1, lambda u: Implies(mem(u), Not(lt(u, u)))))
        c.check('and transitive', fa(c, S.n, 3, lambda u, v, w: Implies(And(mem(u), mem(v), mem(w), lt(u, v), lt(v, w)), lt(u, w))))


class Break(Cycles):
    """break_strongly_connected"""
    target = 'openmdao.util.graph:break_strongly_connected'

    def build(self, c, case):
        S = NS()
        if not c.sym:
            nodes, E, G = self.digraph(c, True)
            sccs = [s for s in components(nodes, E) if len(s) > 1]
            if not sccs:
                raise Reject()
            S.scc = c.choice('which', sccs)
            S.nodes, S.E, S.G, S.broken = nodes, set(E), G, [('kept', 'edge')]
            S.args = (G, S.broken, list(S.scc))
            return S
        self.ghost(c, S)
        mem, inn, out = c.func('scc', 1, 'bool'), c.func('some_source', 1, 'int'), c.func('some_target', 1, 'int')
        S.mem = mem
        # strongly connected, so every node has an edge in and one out
        for f, e in ((inn, lambda u: S.p0(inn(u), u)), (out, lambda u: S.p0(u, out(u)))):
            c.assume(fa(c, S.n, 1, lambda u: Implies(mem(u), And(0 <= f(u), f(u) < S.n, mem(f(u)), e(u)))))
        S.inn, S.out = inn, out
        S.m = c.int('size', 2, small=None)
        S.scc = c.symlist('nodes', S.m, 'int')
        c.assume(c.forall(0, S.m, lambda i: And(0 <= c.at(S.scc, i), c.at(S.scc, i) < S.n, mem(c.at(S.scc, i)))))

        def subgraph(nodes):
            c.check('the subgraph of the component', nodes is S.scc)
            p = S.pE
            S.sE = lambda u, v: And(mem(u), mem(v), p(u, v))
            S.s0 = S.sE

            def put_s(f):
                S.sE = f
            S.sub = self.graph(c, S, 'the subgraph', lambda: S.sE, put_s, None)
            return S.sub
        c.put_attr(S.parent, 'subgraph', c.method(subgraph))
        S.args = (S.parent, S.log, S.scc)
        return S

    def uses(self, c, S):
        return {'break_strongly_connected': self.recursion(c, S)}

    def overrides(self, c, S):
        def sccs(g):
            c.check('components of the subgraph', g is S.sub)
            c.check('at least one edge was removed, so the recursion ends', Or(
                fa(c, S.n, 1, lambda u: Implies(u == S.cut.m, And(S.s0(S.inn(u), u), Not(S.sE(S.inn(u), u))))),
                fa(c, S.n, 1, lambda u: Implies(u == S.cut.m, And(S.s0(u, S.out(u)), Not(S.sE(u, S.out(u))))))))
            return self.scc_model(c, S, lambda: S.sE, S.mem)
        return {'nx': c.obj(Nx, strongly_connected_components=c.method(sccs))}

    def loopspecs(self, c, S):
        def node():
            return c.int('max_node') if c.flag('seen') else None

        def choose(L, k, S_):
            m = L.max_node
            if m is None:
                return [('no node chosen yet', c.eq(k, 0))]
            return [('a node of the component is chosen', And(lift_gt(k), 0 <= m, m < S.n, S.mem(m)))]

        def lift_gt(k):
            return k > 0

        def cut(name):
            def inv(L, k, S_):
                q = S.cut
                if not isinstance(k, int) and name not in S.heads:
                    S.heads.add(name)
                    S.sE, S.pE, S.B = c.func('Es', 2, 'bool'), c.func('E', 2, 'bool'), c.func('B', 2, 'bool')
                gone = (lambda u, v: And(v == q.m, q.s(u, v), q.pos(u) < k)) if q.pred else (lambda u, v: And(u == q.m, q.s(u, v), q.pos(v) < k))
                return [('edges removed so far from the subgraph', fa(c, S.n, 2, lambda u, v: Iff(S.sE(u, v), And(q.s(u, v), Not(gone(u, v)))))),
                        ('edges removed so far from the graph', fa(c, S.n, 2, lambda u, v: Iff(S.pE(u, v), And(q.p(u, v), Not(gone(u, v)))))),
                        ('edges reported so far', fa(c, S.n, 2, lambda u, v: Iff(S.B(u, v), Or(q.b(u, v), gone(u, v)))))]
            return LoopSpec(inv=inv)
        return {0: LoopSpec(inv=choose, hints={'max_node': node, 'max_score': lambda: c.real('max_score'), 'in_smaller': lambda: c.bool('in_smaller'),
                                               'din': lambda: None, 'dout': lambda: None, 'score': lambda: None}),
                1: cut('pred'), 2: cut('succ'), 3: self.components_loop(c, S, 'components')}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        if not c.sym:
            left = set(S.G.edges())
            br = S.broken[1:]
            c.check('what was ignored before is kept', S.broken[0] == ('kept', 'edge'))
            c.check('removed edges are reported once', len(br) == len(set(br)) and left == S.E - set(br) and set(br) <= S.E)
            c.check('only edges of the component', all(a in S.scc and b in S.scc for a, b in br))
            inner = [(a, b) for a, b in left if a in S.scc and b in S.scc]
            r = closure(S.scc, inner)
            c.check('no cycle is left in the component', not any((a, a) in r for a in S.scc))
            return
        E, B, mem = S.pE, S.B, S.mem
        self.acyclic(c, S, E)
        c.check('only edges of the component are removed', fa(c, S.n, 2, lambda u, v: Implies(Not(And(mem(u), mem(v))), Iff(E(u, v), S.p0(u, v)))))
        c.check('edges are only removed', fa(c, S.n, 2, lambda u, v: Implies(E(u, v), S.p0(u, v))))
        c.check('removed edges are reported', fa(c, S.n, 2, lambda u, v: Iff(B(u, v), Or(S.b0(u, v), And(S.p0(u, v), Not(E(u, v)))))))


class BreakAll(Cycles):
    """Group._break_cycles"""
    target = 'openmdao.core.group:Group._break_cycles'

    def build(self, c, case):
        S = NS()
        g = c.obj(Group, name='g')
        if not c.sym:
            S.nodes, S.E, S.G = self.digraph(c, True)
            S.E = set(S.E)
            S.args = (g, list(S.nodes), S.G)
            return S
        self.ghost(c, S)
        S.orig = c.obj(Gr, copy=c.method(lambda: S.parent))
        S.args = (g, c.list([]), S.orig)
        return S

    def uses(self, c, S):
        rec = self.recursion(c, S)

        def first(parent, log, scc):
            # the list is created by the function itself
            if not hasattr(S, 'list'):
                S.list = log
            c.check('one list', log is S.list)
            return rec.f(parent, S.log, scc)
        return {'break_strongly_connected': c.model(first, 'break_strongly_connected')}

    def overrides(self, c, S):
        def sccs(g):
            c.check('components of the graph', Or(g is S.orig, g is S.parent))
            return self.scc_model(c, S, lambda: S.pE, lambda u: SBool(z3.BoolVal(True)))
        return {'nx': c.obj(Nx, strongly_connected_components=c.method(sccs))}

    def loopspecs(self, c, S):
        return {0: self.components_loop(c, S, 'components')}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        H, br = out.value
        if not c.sym:
            left = set(H.edges())
            c.check('the graph given is unchanged', set(S.G.edges()) == S.E)
            c.check('connections are ignored once', len(br) == len(set(br)) and left == S.E - set(br) and set(br) <= S.E)
            r0, r = closure(S.nodes, S.E), closure(S.nodes, left)
            c.check('only connections in a cycle', all((b, a) in r0 for a, b in br))
            c.check('no cycle is left', not any((a, a) in r for a in S.nodes))
            return
        c.check('the graph returned', H is S.parent)
        c.check('the ignored edges are returned', Or(not hasattr(S, 'list'), lambda: br is S.list))
        E = S.pE
        self.acyclic(c, S, E)
        cm = S.comp
        c.check('only connections in a cycle are ignored', fa(c, S.n, 2, lambda u, v: Implies(And(S.p0(u, v), Not(E(u, v))), cm(u) == cm(v))))
        c.check('connections are only removed', fa(c, S.n, 2, lambda u, v: Implies(E(u, v), S.p0(u, v))))


class Order(Contract):
    """the automatic order is the sorted graph without the ignored connections, by name"""
    prop = 'C15'
    target = 'openmdao.core.group:Group.list_auto_order'
    cases = tuple(itertools.product(('top', 'inside'), (0, 1, 3)))

    def build(self, c, case):
        where, n = case
        S = NS(names=[c.str('name%d' % k, ('a', 'a1', 'b')) for k in range(n)])
        for x in S.names:
            c.assume(x != '')
        path = ''
        if where == 'inside':
            path = c.str('path', ('g', 'a.g', 'a1'))
            c.assume(path != '')
        full = [(path + '.' if where == 'inside' else '') + x for x in S.names]
        S.g = c.obj(Group, pathname=path, _subsystems=c.odict([(x, 1) for x in ('p', 'q')]), name='g')
        S.graph, S.left, S.broken = c.obj(Gr), c.obj(Gr), c.list([('u', 'v')])
        S.topo = full
        S.log = []
        S.args = (S.g,)
        return S

    def stubs(self, c, S):
        def breaks(self_, order, graph):
            c.check('the graph of the group is searched', graph is S.graph)
            S.log.append('break')
            return S.left, S.broken

        def graph(self_):
            return S.graph

        def topo(g):
            c.check('the graph without the ignored connections is sorted', g is S.left)
            return c.list(S.topo)
        return breaks, graph, topo

    def uses(self, c, S):
        b, g, t = self.stubs(c, S)
        return {'Group._break_cycles': c.model(b, '_break_cycles'), 'Group._get_sys_graph': c.model(g, '_get_sys_graph')}

    def overrides(self, c, S):
        return {'nx': c.obj(Nx, topological_sort=c.method(self.stubs(c, S)[2]))}

    def patches(self, c, S):
        b, g, t = self.stubs(c, S)
        return [(Group, '_break_cycles', b), (Group, '_get_sys_graph', g), (nx, 'topological_sort', t)]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        order, broken = out.value
        c.check('every subsystem once, in the sorted order', c.len(order) == len(S.names))
        for k, x in enumerate(S.names):
            c.check('name %d' % k, c.at(order, k) == x)
        c.check('the ignored connections', broken is S.broken)


class SetOrder(Contract):
    """an order is used exactly as given or rejected"""
    prop = 'C15'
    target = 'openmdao.core.group:Group.set_order'
    names = ('b', 'a', 'ab')
    cases = tuple(itertools.product((0, 1, 2, 3), (0, 1, 2, 3, 4)))
    rac = 40

    def build(self, c, case):
        have, n = case
        S = NS(have=list(self.names[:have]))
        pool = S.have + ['zz']
        S.order = [c.choice('order%d' % k, pool) for k in range(n)]
        S.subs = {x: c.obj(Group, name=x) for x in S.have}
        S.g = c.obj(Group, name='g', _subsystems=c.odict([(x, S.subs[x]) for x in S.have]), _local_subsystems=c.list([S.subs[x] for x in S.have]),
                    _order_set=False)
        S.args = (S.g, c.list(S.order))
        return S

    def overrides(self, c, S):
        def count(l):
            l = c.keys_(l)
            return c.dict([(x, l.count(x)) for x in dict.fromkeys(l)], label='Counter')
        return {'Counter': c.model(count, 'Counter')}

    def ensures(self, c, S, out):
        good = sorted(S.order) == sorted(S.have)
        c.check('accepted exactly when it has every subsystem once', out.ok == good)
        if not out.ok:
            c.check('rejected as a wrong value', out.raised(ValueError))
        want = S.order if good else S.have
        d = c.attr(S.g, '_subsystems')
        got = c.keys(d)
        c.check('the order', list(got) == list(want))
        for x in S.have:
            c.check('subsystem %s is kept' % x, c.has(d, x) and c.item(d, x) is S.subs[x])
        loc = c.keys_(c.attr(S.g, '_local_subsystems'))
        c.check('the local subsystems are kept', len(loc) == len(S.have) and all(any(x is s for x in loc) for s in S.subs.values()))
        c.check('the automatic order is not used then', c.eq(c.attr(S.g, '_order_set'), good))


class Children(Contract):
    """a group runs its subsystems one after another in its order, each with its data transferred first"""
    prop = 'C15'
    target = 'openmdao.core.group:Group.children_solve_nonlinear'
    cases = (0, 1, 2, 3)

    def build(self, c, case):
        S = NS(log=[])
        S.kind = [c.choice('kind%d' % k, ['component', 'group']) for k in range(case)]
        S.active = [c.flag('active%d' % k) for k in range(case)]
        subs = []
        from openmdao.core.component import Component

        def sub(k):
            p, u, r = c.obj(Log), c.obj(Log), c.obj(Log)

            def run(params, unknowns, resids, metadata=None):
                c.check('run with its own vectors', params is p and unknowns is u and resids is r)
                S.log.append(('run', k))
            isc = S.kind[k] == 'component'
            o = c.obj(Component if isc else Group, name='s%d' % (case - k), params=p, unknowns=u, resids=r, _dircontext=c.obj(Ctx),
                      is_active=c.method(lambda: S.active[k]))
            c.put_attr(o, '_sys_solve_nonlinear' if isc else 'solve_nonlinear', c.method(run))
            return o
        subs = [sub(k) for k in range(case)]
        S.g = c.obj(Group, name='g', _subsystems=c.odict([('s%d' % (case - k), s) for k, s in enumerate(subs)]),
                    _transfer_data=c.method(lambda name, *a, **k: S.log.append(('transfer', case - int(name[1:])))))
        S.args = (S.g, None)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        want = []
        for k in range(len(S.kind)):
            want.append(('transfer', k))
            if S.active[k]:
                want.append(('run', k))
        c.check('in the order of the group', S.log == want)


class Ctx(object):
    """stands for a directory context"""
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Late(Contract):
    """exactly the inputs whose source runs later are listed, with the systems that hold them"""
    prop = 'C15'
    target = 'openmdao.core.problem:Problem._get_ubc_vars'
    weight = 2
    rac = 60
    systems = ('a', 'g', 'g.a', 'g.ab', 'b')
    cases = (0, 1, 2)

    def build(self, c, case):
        S = NS(conn=[])
        homes = ('a', 'g.a', 'g.ab', 'b')
        for k in range(case):
            t, s = c.choice('target %d' % k, homes), c.choice('source %d' % k, homes)
            v = c.choice('name %d' % k, ['x', 'a']) if not k else 'x'
            S.conn.append(('%s.%s%d' % (t, v, k), '%s.y' % s, t, s))
        subs = [c.obj(Group, pathname=p) for p in self.systems]
        root = c.obj(Group, subsystems=c.method(lambda recurse=False: c.list(subs)))
        S.args = (c.obj(Problem, root=root), c.odict([(t, (s, None)) for t, s, _, _ in S.conn]))
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        vs, sy = out.value
        at = self.systems.index
        late = [(t, h) for t, s, h, hs in S.conn if at(hs) > at(h)]
        c.check('exactly the inputs that are used before they are computed', c.keys_(vs) == [t for t, h in late])
        c.check('and the systems that hold them', set(c.keys_(sy)) == set(h for t, h in late))
