"""C16: what lies on a path from an input to an output is relevant to both (openmdao/core/relevance.py)."""
import itertools
import networkx as nx
from collections import OrderedDict
from pyvc.contract import *
from openmdao.core.relevance import Relevance
from openmdao.core.group import Group

R = 'openmdao.core.relevance:Relevance.'


class Graph(object):
    """stands for the graph of the components"""
    def __contains__(self, n):
        return n in self.names


class Data(object):
    """stands for the name tables of a group"""


class Nx(object):
    """stands for networkx"""


COMPS = ('g.a', 'g.h.b', 'c')


class Compute(Contract):
    """_compute_relevant_vars over three components whose reachability is arbitrary; two inputs or two outputs"""
    prop = 'C16'
    target = R + '_compute_relevant_vars'
    rac = 60
    weight = 2
    # homes of the inputs, homes of the outputs, grouping
    cases = tuple([(ins, outs) for ins in (('g.a',), ('g.a', 'g.h.b'), ('c', 'c')) for outs in (('c',), ('g.h.b', 'c'), ('g.h.b',))])

    def build(self, c, case):
        ins, outs = case
        S = NS(ins=['i%d' % k for k in range(len(ins))], outs=['o%d' % k for k in range(len(outs))])
        S.home = dict(zip(S.ins + S.outs, ins + outs))
        # succ: components that can be reached from a component; pred: those that reach it
        S.succ = {h: [h] + [x for x in COMPS if x != h and c.flag('%s reaches %s' % (h, x))] for h in dict.fromkeys(ins)}
        S.pred = {h: [h] + [x for x in COMPS if x != h and c.flag('%s reached from %s' % (h, x))] for h in dict.fromkeys(outs)}
        S.conns = [(a, b) for a in COMPS for b in COMPS]
        rev = c.obj(Graph, names=c.list(COMPS), back=True)
        S.graph = c.obj(Graph, names=c.list(COMPS), back=False, reverse=c.method(lambda: rev))
        conn = c.odict([(b + '.p_' + a[-1], (a + '.u_' + b[-1], None)) for a, b in S.conns])
        S.prom_u = {(a, b): 'src_%s_%s' % (a[-1], b[-1]) for a, b in S.conns}
        S.prom_p = {(a, b): 'tgt_%s_%s' % (a[-1], b[-1]) for a, b in S.conns}
        prom = [(a + '.u_' + b[-1], S.prom_u[a, b]) for a, b in S.conns] + [(b + '.p_' + a[-1], S.prom_p[a, b]) for a, b in S.conns]
        sd = c.obj(Data, to_prom_name=c.odict(prom), to_abs_uname=c.odict([(v, S.home[v] + '.' + v) for v in S.ins + S.outs]))
        g = c.obj(Group, _sysdata=sd)
        grp = lambda xs: c.list([tuple(xs)] if c.flag('together') else [(x,) for x in xs])
        S.r = c.obj(Relevance, inputs=grp(S.ins), outputs=grp(S.outs), _sgraph=S.graph)
        S.args = (S.r, g, conn)
        return S

    def dfs(self, c, S):
        def f(g, source):
            d = S.pred if c.attr(g, 'back') else S.succ
            return c.list([('x', v) for v in d[source] if v != source])
        return f

    def overrides(self, c, S):
        return {'nx': c.obj(Nx, dfs_edges=c.method(self.dfs(c, S)))}

    def patches(self, c, S):
        return [(nx, 'dfs_edges', self.dfs(c, S))]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        rel = {}
        for v in S.ins:
            rel[v] = set(x for o in S.outs for x in S.succ[S.home[v]] if x in S.pred[S.home[o]])
        for v in S.outs:
            rel.setdefault(v, set()).update(x for i in S.ins for x in S.succ[S.home[i]] if x in S.pred[S.home[v]])
        names, systems = c.attr(S.r, 'relevant'), c.attr(S.r, '_relevant_systems')
        for v, cs in rel.items():
            sy = set(cs)
            for x in cs:
                p = x.split('.')
                sy.update('.'.join(p[:k]) for k in range(1, len(p)))
            got = set(c.keys_(c.item(systems, v))) if c.sym else set(systems[v])
            c.check('exactly the systems on a path and their parents', got == sy)
            want = set(u for u in S.home if S.home[u] in cs)
            for a, b in S.conns:
                if a in cs and b in cs:
                    want |= {S.prom_u[a, b], S.prom_p[a, b]}
            got = set(c.keys_(c.item(names, v))) if c.sym else set(names[v])
            c.check('exactly the variables on a path', got == want)


class Query(Contract):
    """is_relevant, is_relevant_system, vars_of_interest, item access"""
    prop = 'C16'
    target = R + 'is_relevant'

    def build(self, c, case):
        S = NS(has=c.flag('name is relevant'), hs=c.flag('system is relevant'), known=c.flag('known variable'), none=c.flag('no variable of interest'),
               mode=c.choice('mode', ['fwd', 'rev']), ask=c.choice('ask', [None, 'fwd', 'rev', 'other']))
        rel = [('v', c.set(['y'] + (['x'] if S.has else []))), (None, c.set(['x', 'y']))]
        S.rs = c.set(['t'] + (['s'] if S.hs else []))
        S.vin, S.vout = c.list([('i',)]), c.list([('o', 'p')])
        S.r = c.obj(Relevance, relevant=c.dict(rel, label='relevant'), _relevant_systems=c.dict([('v', S.rs)], label='systems'),
                    inputs=S.vin, outputs=S.vout, mode=S.mode)
        S.voi = None if S.none else ('v' if S.known else 'w')
        S.sys = c.obj(Group, pathname='s')
        S.args = (S.r, S.voi, S.sys, S.ask)
        return S

    @staticmethod
    def program(r, voi, system, ask):
        a = r.is_relevant(voi, 'x')
        try:
            b = r.is_relevant_system(voi, system)
        except KeyError:
            b = 'KeyError'
        return a, b, r.vars_of_interest(ask), r[voi]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        a, b, v, g = out.value
        c.check('a variable is relevant when it is listed, or nothing is known', c.eq(a, S.has if S.voi == 'v' else True))
        if S.voi != 'w':
            c.check('a system is relevant when it is listed', c.eq(b, True if S.none else S.hs))
        m = S.ask or S.mode
        if m == 'fwd':
            c.check('the inputs in forward mode', v is S.vin)
        elif m == 'rev':
            c.check('the outputs in reverse mode', v is S.vout)
        else:
            c.check('inputs and outputs otherwise', c.keys_(v) == [('i',), ('o', 'p')])


class SysGraph(Contract):
    """the component graph has an edge for every connection, weighted by what flows"""
    prop = 'C16'
    target = R + '_setup_sys_graph'
    cases = (0, 1, 2, 3)

    def build(self, c, case):
        S = NS(pairs=[(c.choice('src%d' % k, COMPS[:2]), c.choice('tgt%d' % k, COMPS[1:])) for k in range(case)],
               size=[c.int('size%d' % k, 0) for k in range(case)])
        S.edges, S.nodes, S.order = {}, [], []
        sub = [c.obj(Group, pathname=p) for p in COMPS + ('g', 'g.h')]
        pd = c.odict([('%s.p%d' % (t, k), c.odict([('size', S.size[k])])) for k, (s, t) in enumerate(S.pairs)])
        conn = c.odict([('%s.p%d' % (t, k), ('%s.u' % s, None)) for k, (s, t) in enumerate(S.pairs)])
        g = c.obj(Group, _params_dict=pd, subsystems=c.method(lambda recurse=False: c.list(sub)))
        S.sub = sub

        def edge(a, b, weight=None):
            c.check('an edge is added once', (a, b) not in S.edges)
            S.edges[a, b] = c.dict([('weight', weight)], label='edge')

        def nodes(ns):
            S.nodes.extend(c.keys_(ns) if c.sym else list(ns))
        if c.sym:
            S.made = c.obj(Wg, edges=S.edges, add_nodes_from=c.method(nodes), add_edge=c.method(edge),
                           has_edge=c.method(lambda a, b: (a, b) in S.edges), row=c.method(lambda a: c.dict([(q, e) for (p, q), e in S.edges.items() if p == a])))
        S.args = (c.obj(Relevance), g, conn)
        return S

    def overrides(self, c, S):
        return {'OrderedDigraph': c.model(lambda: S.made, 'OrderedDigraph')}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        if c.sym:
            nodes, edges = S.nodes, S.edges
        else:
            nodes, edges = list(out.value.nodes()), {(a, b): d for a, b, d in out.value.edges(data=True)}
        c.check('a node for every system', all(p in nodes for p in COMPS + ('g', 'g.h')) and len(set(nodes)) == len(COMPS) + 2)
        c.check('an edge for every connection', set(edges) == set(S.pairs))
        for p in set(S.pairs):
            w = 0
            for k, q in enumerate(S.pairs):
                if q == p:
                    w = w + S.size[k]
            c.check('its weight is the size of all that flows', c.eq(c.item(edges[p], 'weight'), w))


class Wg(object):
    """stands for a weighted graph"""
    def __getitem__(self, a):
        return self.row(a)
