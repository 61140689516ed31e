"""C14: every input has exactly one, compatible source."""
import itertools
from collections import OrderedDict
from pyvc.contract import *
from openmdao.core.fileref import FileRef
from openmdao.core.group import Group
from openmdao.core.problem import Problem
from openmdao.core.system import _SysData

K = 'openmdao.core._checks:'


def shp(c, name, kind):
    if kind == 'scalar':
        return 1, 1
    if kind == 'flat':
        n = c.int(name + '_n', 1)
        return (n,), n
    n, m = c.int(name + '_n', 1), c.int(name + '_m', 1)
    return (n, m), n * m


def same_shape(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int)
    if len(a) != len(b):
        return False
    return And([x == y for x, y in zip(a, b)])


class Shapes(Contract):
    """different shapes, or source indices outside the source, are reported"""
    prop = 'C14'
    target = K + '_check_shapes_match'
    cases = tuple(itertools.product(('scalar', 'flat', 'matrix'), ('scalar', 'flat', 'matrix'), (False, True)))

    def build(self, c, case):
        s, t, idx = case
        S = NS(has=idx)
        S.s, S.sn = shp(c, 'src', s)
        S.t, S.tn = shp(c, 'tgt', t)
        sm = [('shape', S.s), ('size', S.sn), ('pathname', 'a.y')]
        tm = [('shape', S.t), ('size', S.tn), ('pathname', 'b.x')]
        if idx:
            S.k = c.int('k', 1)
            S.idx = c.array('idx', S.k, 'int', lo=-1, hi=6)
            tm.append(('src_indices', S.idx))
        S.args = (c.dict(sm), c.dict(tm), c.dict([('a.y', 'y'), ('b.x', 'b.x')]))
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        n = c.len(out.value)
        if S.has:
            inside = c.forall(0, S.k, lambda i: And(0 <= c.at(S.idx, i), c.at(S.idx, i) < S.sn))
            c.check('nothing reported: as many indices as elements, all inside the source', Implies(n == 0, And(S.k == S.tn, inside)))
            c.check('reported only with a reason', Implies(And(S.k == S.tn, inside), n == 0))
        else:
            c.check('reported exactly when the shapes differ', Iff(n == 0, same_shape(S.s, S.t)))


class Data(object):
    """stands for the name tables of a problem"""


class Sub(Group):
    """a subgroup that has already collected its own connections"""

    def _get_explicit_connections(self):
        return self.given


class Explicit(Contract):
    """explicit connections are listed under the absolute names; unknown names are refused"""
    prop = 'C14'
    target = 'openmdao.core.group:Group._get_explicit_connections'
    cases = tuple(itertools.product((0, 1, 2), (False, True)))
    unames = (('y', 'g.a.y'), ('a.z', 'g.a.z'))
    pnames = (('x', ('g.a.x', 'g.b.x')), ('b.p', ('g.b.p',)), ('q', ('g.s.q',)))

    def build(self, c, case):
        n, sub = case
        S = NS(conns=[])
        src = OrderedDict()
        for k in range(n):
            t = c.choice('tgt%d' % k, ['x', 'b.p', 'q', 'y', 'none'])
            s = c.choice('src%d' % k, ['y', 'a.z', 'q', 'x', 'none'])
            idx = c.opaque('idx%d' % k, lambda cls: False) if c.flag('idx%d?' % k) else None
            S.conns.append((t, s, idx))
            src.setdefault(t, []).append((s, idx))
        S.given = [('g.s.q', [('g.s.y', None)])] if sub else []
        sd = c.obj(_SysData, to_abs_uname=c.odict(list(self.unames)), to_abs_pnames=c.odict([(k, c.list(v)) for k, v in self.pnames]))
        subs = [('s', c.obj(Sub, name='s', given=c.dict([(k, c.list(v)) for k, v in S.given])))] if sub else []
        g = c.obj(Group, name='g', _sysdata=sd, _src=c.odict([(k, c.list(v)) for k, v in src.items()]), _subsystems=c.odict(subs))
        S.order = list(src.items())
        S.args = (g,)
        return S

    def ensures(self, c, S, out):
        un, pn = dict(self.unames), dict(self.pnames)
        if any(s == 'none' or t not in pn for t, s, _ in S.conns):
            c.check('a source that does not exist or a target that is no param is refused', out.raised(NameError))
            return
        c.check('no error', out.ok)
        if not out.ok:
            return
        want = OrderedDict((k, list(v)) for k, v in S.given)
        for t, srcs in S.order:
            for s, idx in srcs:
                for tp in pn[t]:
                    for sp in ([un[s]] if s in un else pn[s]):
                        want.setdefault(tp, []).append((sp, idx))
        c.check('exactly these targets', And([c.len(out.value) == len(want)] + [c.has(out.value, t) for t in want]))
        for t, srcs in want.items():
            got = c.item(out.value, t)
            c.check('sources of a target', And(c.len(got) == len(srcs), len(srcs) and And([And(c.at(got, k)[0] == s, c.same(c.at(got, k)[1], i))
                                               for k, (s, i) in enumerate(srcs)])))


class Implicit(Contract):
    """a param is linked to the unknown of the same promoted name, and only to that"""
    prop = 'C14'
    target = 'openmdao.core.problem:Problem._add_implicit_connections'
    cases = (0, 1, 2)

    def build(self, c, case):
        names = ('x', 'a.y', 'z')
        S = NS(un={}, pn={}, names=names, idx=c.opaque('idx', lambda cls: False))
        u, p = [], []
        for n in names:
            if c.flag('unknown ' + n):
                S.un[n] = 'u.' + n
                u.append((n, 'u.' + n))
            k = c.choice('params ' + n, [0, 1, 2])
            if k:
                S.pn[n] = ['p%d.%s' % (j, n) for j in range(k)]
                p.append((n, c.list(S.pn[n])))
        S.old = [('p0.x', [('w.x', S.idx)])] if case == 1 else [('r.x', [('w.x', None)])] if case == 2 else []
        S.conn = c.dict([(k, c.list(v)) for k, v in S.old])
        sd = c.obj(_SysData, to_abs_uname=c.odict(u), to_abs_pnames=c.odict(p))
        S.args = (c.obj(Problem, root=c.obj(Group, _sysdata=sd)), S.conn)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        want = OrderedDict((k, list(v)) for k, v in S.old)
        for n in S.names:
            if n in S.un:
                for p in S.pn.get(n, ()):
                    want.setdefault(p, []).append((S.un[n], None))
        c.check('exactly these targets', And([c.len(S.conn) == len(want)] + [c.has(S.conn, t) for t in want]))
        for t, srcs in want.items():
            got = c.item(S.conn, t)
            c.check('sources of a target', And(c.len(got) == len(srcs), And([And(c.at(got, k)[0] == s, c.same(c.at(got, k)[1], i)) for k, (s, i) in enumerate(srcs)])))
        left = [n for n in S.names if n in S.pn and n not in S.un]
        c.check('the names without an unknown are returned', And([c.len(out.value) == len(left)] + [c.has(out.value, n) for n in left]))


class Connect(Contract):
    """a connection is recorded for every target, after the earlier ones; indices that are no integers are refused"""
    prop = 'C14'
    target = 'openmdao.core.group:Group.connect'
    cases = tuple(itertools.product(('one', 'list', 'tuple'), ('none', 'array', 'real', 'list', 'mixed', 'str')))

    def build(self, c, case):
        how, ik = case
        S = NS(ik=ik)
        S.src = c.str('source', ('y', 'a.y', 'x'))
        S.idx = None if ik == 'none' else c.array('idx', c.int('n', 1), 'int') if ik == 'array' else c.array('idx', c.int('n', 1)) if ik == 'real' else \
            c.list([c.int('i0'), c.int('i1')]) if ik == 'list' else c.list([c.int('i0'), c.real('i1')]) if ik == 'mixed' else 'b.x'
        S.tgts = ['x'] if how == 'one' else ['x', 'b.x']
        S.old = c.flag('x connected before')
        S.g = c.obj(Group, name='g', _src=c.dict([('x', c.list([('w', None)]))] if S.old else []))
        S.args = (S.g, S.src, 'x' if how == 'one' else c.list(S.tgts) if how == 'list' else tuple(S.tgts), S.idx)
        return S

    def ensures(self, c, S, out):
        src = c.attr(S.g, '_src')
        if S.ik in ('real', 'mixed', 'str'):
            c.check('refused', out.raised(TypeError))
            c.check('nothing is recorded', c.len(src) == (1 if S.old else 0))
            return
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('exactly the targets', c.len(src) == len(set(S.tgts) | ({'x'} if S.old else set())))
        for t in S.tgts:
            l = c.item(src, t)
            n = 2 if t == 'x' and S.old else 1
            c.check('the connection to %s is recorded last' % t, And(c.len(l) == n, c.at(l, n - 1)[0] == S.src, c.same(c.at(l, n - 1)[1], S.idx)))


class CheckConns(Contract):
    """every connection between numeric variables is checked for its types and shapes"""
    prop = 'C14'
    target = K + 'check_connections'
    cases = tuple(itertools.product(('flat', 'matrix', 'scalar'), ('flat', 'scalar'), (False, True), (None, False, True)))

    def build(self, c, case):
        s, t, idx, pbo = case
        S = NS(has=idx, kinds=(s, t), pbo=pbo)
        S.s, S.sn = shp(c, 'src', s)
        S.t, S.tn = shp(c, 'tgt', t)
        sm = [('val', c.real('sv') if s == 'scalar' else c.array('sv', S.s)), ('shape', S.s), ('size', S.sn), ('pathname', 'a.y')]
        tm = [('val', c.real('tv') if t == 'scalar' else c.array('tv', S.t)), ('shape', S.t), ('size', S.tn), ('pathname', 'b.x')]
        if pbo is not None:
            sm.append(('pass_by_obj', pbo))
        if idx:
            S.k = c.int('k', 1)
            S.idx = c.array('idx', S.k, 'int', lo=-1, hi=6)
            tm.append(('src_indices', S.idx))
        other = c.dict([('val', c.real('ov')), ('shape', 1), ('size', 1), ('pathname', 'b.o')])
        S.args = (c.odict([('b.x', ('a.y', S.idx if idx else None))]), c.odict([('b.o', other), ('b.x', c.dict(tm))]), c.odict([('a.y', c.dict(sm))]),
                  c.dict([('a.y', 'y'), ('b.x', 'b.x'), ('b.o', 'b.o')]))
        return S

    def ensures(self, c, S, out):
        a, b = [('s' if k == 'scalar' else 'a') for k in S.kinds]
        if a != b and not (S.has and b == 's'):
            c.check('a number is not an array', out.raised(TypeError))
            return
        if a != b and bool(S.k != 1):
            c.check('a number is not several elements', out.raised(TypeError))
            return
        c.check('no error', out.ok)
        if not out.ok:
            return
        n = c.len(out.value)
        if S.pbo:
            c.check('objects have no shape', n == 0)
        elif S.has:
            inside = c.forall(0, S.k, lambda i: And(0 <= c.at(S.idx, i), c.at(S.idx, i) < S.sn))
            c.check('as many indices as elements, all inside the source', Iff(n == 0, And(S.k == S.tn, inside)))
        else:
            c.check('reported exactly when the shapes differ', Iff(n == 0, same_shape(S.s, S.t)))


class ConnUnits(Contract):
    """a connected param with other units than its source gets the conversion; incompatible units are reported"""
    prop = 'C14'
    target = 'openmdao.core.problem:Problem._setup_units'
    cases = tuple(itertools.product((False, True), repeat=2))

    def build(self, c, case):
        S = NS(has=case, same=c.flag('same'), bad=c.flag('incompatible'), f=c.real('factor', nonzero=True, pool=(1.0, 2.0, 0.5)), o=c.real('offset', pool=(0.0, 1.0)))
        sm = [('val', 1.0), ('pathname', 'a.y')] + ([('units', 'm')] if case[0] else [])
        tm = [('val', 1.0), ('pathname', 'b.x')] + ([('units', 'm' if S.same else 'u')] if case[1] else [])
        S.tm, S.sm = c.dict(tm), c.dict(sm)
        S.errs = c.list([])
        S.calls = []
        S.other = c.dict([('val', 1.0), ('pathname', 'b.q'), ('units', 'm')])
        sd = c.obj(_SysData, to_prom_name=c.dict([('a.y', 'y'), ('b.x', 'b.x'), ('b.q', 'q')]))
        S.args = (c.obj(Problem, root=c.obj(Group, _sysdata=sd), _setup_errors=S.errs), c.odict([('b.x', ('a.y', None))]),
                  c.odict([('b.q', S.other), ('b.x', S.tm)]), c.odict([('a.y', S.sm)]))
        return S

    def tup(self, S):
        def f(a, b):
            if a == b:
                return (1.0, 0.0)
            if S.bad:
                raise TypeError('Incompatible units')
            return (S.f, S.o)
        return f

    def overrides(self, c, S):
        return {}

    def uses(self, c, S):
        def f(a, b):
            if a == b:
                return (1.0, 0.0)
            if S.bad:
                raise PyRaise(TypeError, 'Incompatible units')
            return (S.f, S.o)
        return {'get_conversion_tuple': c.model(f)}

    def patches(self, c, S):
        import openmdao.core.problem as P
        return [(P, 'get_conversion_tuple', self.tup(S))]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        active = all(S.has) and not S.same
        c.check('reported exactly when the units are incompatible', c.len(S.errs) == (1 if active and S.bad else 0))
        conv = c.has(S.tm, 'unit_conv')
        if active and not S.bad:
            trivial = And(S.f == 1.0, S.o == 0.0)
            c.check('the conversion is recorded', Or(conv, trivial))
            if conv:
                got = c.item(S.tm, 'unit_conv')
                c.check('the conversion', And(got[0] == S.f, got[1] == S.o))
        else:
            c.check('no conversion', Not(conv))
        c.check('the source and other params have none', And(Not(c.has(S.sm, 'unit_conv')), Not(c.has(S.other, 'unit_conv'))))


class Files(Contract):
    """files: the params that read one file have one source, all or none of them"""
    prop = 'C14'
    target = K + 'check_connections'
    cases = tuple(itertools.combinations_with_replacement(tuple((s, f) for s in (None, 'a.o', 'a.q') for f in ('F', 'G')), 3))
    rac = 1

    def build(self, c, case):
        S = NS(case=case)
        ref = lambda f, d: c.obj(FileRef, fname=f, parent_dir=d, meta=c.dict())
        # (one param's file is given by its full name, the others' by a folder and a name)
        files = [ref('/w/' + f, '/elsewhere') if k == 1 else ref(f, '/w') for k, (s, f) in enumerate(case)]
        params = [('b.p%d' % k, c.dict([('val', v), ('pathname', 'b.p%d' % k), ('pass_by_obj', True)])) for k, v in enumerate(files)]
        outs = [(n, c.dict([('val', ref(n, '/w')), ('pathname', n), ('pass_by_obj', True)])) for n in ('a.o', 'a.q')]
        other = c.dict([('val', c.real('ov')), ('shape', 1), ('size', 1), ('pathname', 'b.z')])
        conns = [('b.p%d' % k, (s, None)) for k, (s, f) in enumerate(case) if s]
        S.args = (c.odict(conns), c.odict(params + [('b.z', other)]), c.odict(outs),
                  c.dict([(n, n) for n in ('a.o', 'a.q', 'b.p0', 'b.p1', 'b.p2', 'b.z')]))
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        bad = False
        for f in 'FG':
            srcs = [s for s, g in S.case if g == f]
            bad = bad or len(set(s for s in srcs if s)) > 1 or (None in srcs and len(set(srcs)) > 1)
        c.check('reported exactly when a file has several sources, or is connected for some params only', (c.len(out.value) > 0) == bad)


class FileKinds(Contract):
    """a file is connected to a file of the same kind only"""
    prop = 'C14'
    target = 'openmdao.core.fileref:FileRef.validate'
    cases = (('number', None),) + tuple(itertools.product((None, False, True), repeat=2))
    rac = 2

    def build(self, c, case):
        S = NS(case=case)
        ref = lambda b: c.obj(FileRef, fname='f', parent_dir='', meta=c.dict([] if b is None else [('binary', b)]))
        S.args = (ref(case[1]), c.real('src') if case[0] == 'number' else ref(case[0]))
        return S

    def ensures(self, c, S, out):
        a, b = S.case
        if a == 'number':
            c.check('a number is not a file', out.raised(TypeError))
        elif bool(a) != bool(b):
            c.check('a binary file is not a text file', out.raised(ValueError))
        else:
            c.check('no error', out.ok)


class Adj(object):
    """stands for the neighbours of every node"""
    def __getitem__(self, n):
        return self.of(n)


class Links(object):
    """stands for the graph of the connections"""
    def __getitem__(self, n):
        return self.row(n)


class Nx(object):
    """stands for networkx"""


class Resolve(Contract):
    """every input gets the unknown it is reached from, with the elements selected on the way; two unknowns are an error"""
    prop = 'C14'
    target = 'openmdao.core.problem:Problem._setup_connections'
    weight = 3
    rac = 60
    unknowns = ('u.y', 'v.y')
    params = ('a.p', 'b.p', 'c.p')
    # connections (target, source), names shared by inputs
    cases = (((), ()), ((('a.p', 'u.y'),), ()), ((('a.p', 'u.y'), ('b.p', 'u.y')), ()), ((('a.p', 'u.y'), ('b.p', 'v.y')), ()),
             ((('a.p', 'u.y'), ('a.p', 'v.y')), ()), ((('a.p', 'u.y'), ('b.p', 'a.p')), ()), ((('b.p', 'a.p'),), ()),
             ((('a.p', 'u.y'), ('b.p', 'a.p'), ('c.p', 'b.p')), ()), ((('b.p', 'u.y'), ('b.p', 'a.p')), ()),
             ((('b.p', 'a.p'), ('c.p', 'b.p')), ()), ((), (('a.p', 'b.p'),)), ((('c.p', 'a.p'),), (('a.p', 'b.p'),)),
             ((('b.p', 'u.y'), ('b.p', 'a.p'), ('c.p', 'a.p')), ()), ((('b.p', 'u.y'), ('c.p', 'v.y'), ('b.p', 'a.p'), ('c.p', 'a.p')), ()),
             ((('b.p', 'u.y'), ('b.p', 'a.p')), (('a.p', 'c.p'),)), ((('b.p', 'a.p'), ('b.p', 'c.p')), ()),
             ((('c.p', 'u.y'), ('c.p', 'b.p'), ('b.p', 'a.p')), ()), ((('c.p', 'u.y'), ('b.p', 'a.p'), ('c.p', 'a.p')), ()))

    def build(self, c, case):
        links, shared = case
        S = NS(links=links, shared=shared, size=c.int('size', 1, 5), idx={}, n={})
        conn = OrderedDict()
        for k, (t, s) in enumerate(links):
            if c.flag('indices %d' % k):
                S.n[t, s] = c.int('n%d' % k, 1, 4)
                S.idx[t, s] = c.array('idx%d' % k, S.n[t, s], 'int', lo=0, hi=3)
            else:
                S.idx[t, s] = None
            conn.setdefault(t, []).append((s, S.idx[t, s]))
        names = OrderedDict()
        for grp in shared:
            names[grp[0][-1] + '_all'] = list(grp)
        for p in self.params:
            if not any(p in g for g in shared):
                names['prom_' + p] = [p]
        S.prom = {p: k for k, ps in names.items() for p in ps}
        S.noconn = list(names)
        S.sel = self.selections(c, S)
        for (t, s), x in S.idx.items():
            if x is not None and S.sel.get(s) is not None:
                c.assume(c.forall(0, S.n[t, s], lambda i, x=x, n=S.sel[s][0]: And(0 <= c.at(x, i), c.at(x, i) < n)))
        root = c.obj(Group, _get_explicit_connections=c.method(lambda: c.odict([(k, c.list(v)) for k, v in conn.items()])),
                     _sysdata=c.obj(_SysData, to_abs_pnames=c.odict([(k, c.list(v)) for k, v in names.items()])))
        pd = c.obj(Data, to_prom_name=c.odict([(p, S.prom[p]) for p in self.params]))
        S.errors = c.list([])
        S.p = c.obj(Problem, root=root, _probdata=pd, _setup_errors=S.errors, _add_implicit_connections=c.method(lambda x: c.list(S.noconn)))
        S.args = (S.p, c.odict([(p, c.dict([])) for p in self.params]), c.odict([(u, c.dict([])) for u in self.unknowns]))
        if c.sym:
            self.graph(c, S)
        return S

    def graph(self, c, S):
        S.nodes, S.edges = [], {}

        def node(n):
            if n not in S.nodes:
                S.nodes.append(n)

        def edge(a, b, idxs=None):
            node(a)
            node(b)
            S.edges[a, b] = c.dict([('idxs', idxs)])
        S.succ = lambda n: [b for (a, b) in S.edges if a == n]
        S.pred = lambda n: [a for (a, b) in S.edges if b == n]
        S.made = c.obj(Links, add_edge=c.method(edge), add_nodes_from=c.method(lambda ns: [node(n) for n in c.keys_(ns)] and None),
                       add_edges_from=c.method(lambda es, idxs=None: [edge(a, b, idxs) for a, b in c.keys_(es)] and None),
                       nodes_iter=c.method(lambda: c.list(S.nodes)), row=c.method(lambda n: c.dict([(b, e) for (a, b), e in S.edges.items() if a == n])),
                       succ=c.obj(Adj, of=c.method(lambda n: c.list(S.succ(n)))), pred=c.obj(Adj, of=c.method(lambda n: c.list(S.pred(n)))))

    def overrides(self, c, S):
        def dfs(g, src):
            out, seen = [], {src}

            def walk(n):
                for t in S.succ(n):
                    if t not in seen:
                        seen.add(t)
                        out.append((n, t))
                        walk(t)
            walk(src)
            return c.list(out)
        return {'OrderedDigraph': c.model(lambda: S.made, 'OrderedDigraph'), 'nx': c.obj(Nx, dfs_edges=c.method(dfs))} if c.sym else {}

    def chain(self, c, S, link, sel):
        """what a link hands on: length and elements of the unknown (None: all)"""
        x = S.idx.get(link)
        if x is None:
            return sel
        return S.n[link], lambda i: c.at(x, i) if sel is None else sel[1](c.at(x, i))

    def selections(self, c, S):
        """what every input with a source gets"""
        links, paths, sets = self.reach(S)
        sel = {}
        for p in self.params:
            for u, path in paths[p].items():
                r = None
                for l in path:
                    r = self.chain(c, S, l, r)
                sel[p] = r
        more = True
        while more:
            more = False
            for t, s in links:
                if s in self.params and t in sel and s not in sel:
                    # the source of a link gets what its target gets, unless the target selects from it
                    sel[s] = sel[t] if S.idx.get((t, s)) is None else None
                    more = True
                elif s in sel and t not in sel:
                    sel[t] = self.chain(c, S, (t, s), sel[s])
                    more = True
        return sel

    def reach(self, S):
        """the paths of links from an unknown to every input"""
        links = [l for l in S.links] + [(b, g[0]) for g in S.shared for b in g[1:]]
        paths = {p: {} for p in self.params}

        def walk(u, n, path):
            for t, s in links:
                if s == n:
                    paths[t].setdefault(u, path + [(t, s)])
                    walk(u, t, path + [(t, s)])
        for u in self.unknowns:
            walk(u, u, [])
        # the inputs that are linked to one another
        sets = {p: {p} for p in self.params}
        for t, s in links:
            if s in sets:
                m = sets[t] | sets[s]
                for p in m:
                    sets[p] = m
        return links, paths, sets

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        links, paths, sets = self.reach(S)
        srcs = {}
        for p in self.params:
            if paths[p]:
                srcs[p] = set(paths[p])
            else:
                free = [q for q in self.params if not paths[q]]
                near, more = {p}, True
                while more:
                    new = near | {a for t, s in links for a, b in ((t, s), (s, t)) if b in near and a in free}
                    near, more = new, new != near
                srcs[p] = set(u for t, s in links for a, b in ((t, s), (s, t)) if b in near and a in paths for u in paths[a])
        fed = [p for p in self.params if srcs[p]]
        got = c.keys(out.value)
        c.check('exactly the inputs linked to an unknown are connected, in order', got == sorted(fed))
        c.check('an input of two unknowns is an error, nothing else is', c.len(S.errors) == len([p for p in fed if len(srcs[p]) > 1]))
        for p in fed:
            if len(srcs[p]) > 1:
                continue
            u = list(srcs[p])[0]
            s, idx = c.item(out.value, p)
            c.check('the source of an input', s == u)
            want = S.sel[p]
            c.check('a selection exactly where a link selects', (idx is None) == (want is None))
            if idx is not None and want is not None:
                c.check('as many as the last selection', c.len(idx) == want[0])
                if c.sym or c.len(idx) == want[0]:
                    c.check('the elements of the source selected by all links', c.forall(0, want[0], lambda i: c.at(idx, i) == want[1](i)))
        lost = c.attr(S.p, '_dangling')
        names = set(S.prom[p] for p in self.params if not srcs[p])
        c.check('exactly the names without a source are reported', set(c.keys(lost)) == names)
        for p in self.params:
            if not srcs[p]:
                g = c.item(lost, S.prom[p])
                c.check('with the inputs they are linked to', set(c.keys_(g) if c.sym else g) == sets[p])


class Dangling(Contract):
    """exactly the names without a source are reported, once each, in order"""
    prop = 'C14'
    target = 'openmdao.core.problem:Problem._check_dangling_params'
    cases = (1, 2, 3, 4)

    def build(self, c, case):
        S = NS(fed={}, prom={})
        for k in range(case):
            p = 'g.c%d.x' % k
            S.prom[p] = c.choice('name %d' % k, ['x', 'g.c%d.x' % k, 'a'][:2 if case > 2 else 3])
            S.fed[p] = c.flag('source %d' % k)
        S.lines = []
        pd = c.odict([(p, c.dict([])) for p in S.prom])
        sd = c.obj(_SysData, to_prom_name=c.dict(list(S.prom.items())))
        root = c.obj(Group, _sysdata=sd, _params_dict=pd, connections=c.dict([(p, ('u.y', None)) for p in S.fed if S.fed[p]]))
        S.out = c.obj(Data, write=c.method(lambda s: S.lines.append(s)), flush=c.method(lambda: None))
        S.args = (c.obj(Problem, root=root), S.out)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        want = sorted(set(S.prom[p] for p in S.prom if not S.fed[p]))
        c.check('exactly the names without a source', c.keys_(out.value) == want)
