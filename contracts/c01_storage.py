"""C01: variable storage is faithful and isolated (openmdao/core/vec_wrapper.py)."""
import itertools
from pyvc.contract import *
from openmdao.core.component import Component
from openmdao.core.vec_wrapper import SrcVecWrapper, TgtVecWrapper, VecWrapper, Accessor, _ByObjWrapper
from openmdao.core.problem import _ProbData
from openmdao.core.system import _SysData
from openmdao.core.fileref import FileRef

M = 'openmdao.core.vec_wrapper:'
KINDS = ('scalar', 'flat', 'matrix', 'object')


def plain(cls):
    """an object of no class the repository tests for"""
    return cls is object


def var(c, name, kind, **extra):
    """one declared variable: metadata as recorded by the declaration functions"""
    if kind == 'scalar':
        v = c.real(name + '_val')
        size, shape = 1, 1
    elif kind == 'flat':
        size = c.int(name + '_n', 1)
        v = c.array(name + '_val', size)
        shape = (size,)
    elif kind == 'matrix':
        n, m = c.int(name + '_n', 1), c.int(name + '_m', 1)
        v = c.array(name + '_val', (n, m))
        size, shape = n * m, (n, m)
    else:
        v = c.opaque(name + '_val', plain)
        size, shape = 0, None
    pairs = [('val', v), ('shape', shape), ('size', size), ('pathname', name), ('top_promoted_name', name)]
    if kind == 'object':
        pairs.append(('pass_by_obj', True))
    else:
        k = c.choice(name + '_pbokey', [None, False])
        if k is False:
            pairs.append(('pass_by_obj', False))
    for k, x in extra.items():
        if x is not None:
            pairs.append((k, x))
    m = c.dict(pairs, label=name)
    return NS(name=name, m=m, kind=kind, shape=shape, size=size, val=v, v0=c.snap(v) if kind in ('flat', 'matrix') else v)


def value_for(c, v, name='new'):
    if v.kind == 'scalar':
        return c.real(name)
    if v.kind == 'object':
        return c.opaque(name, plain)
    return c.array(name, v.shape, layout=True)


def has_value(c, got, v, want):
    """got reads as the value `want` in v's declared shape"""
    if v.kind == 'object':
        return c.same(got, want)
    if v.kind == 'scalar':
        return And(c.isfloat(got), c.eq(got, want))
    return And(c.isarray(got), c.ndim(got) == len(v.shape), c.eq(got, want))


def block(c, vec, start, v, want):
    """elements start.. of the flat vector are those of `want`, row by row"""
    if v.kind == 'object':
        return True
    if v.kind == 'scalar':
        return c.eq(c.at(vec, start), want)
    if v.kind == 'flat':
        return c.forall(0, v.size, lambda i: c.eq(c.at(vec, start + i), c.at(want, i)))
    n, m = v.shape
    return c.forall(0, n, lambda i: c.forall(0, m, lambda j: c.eq(c.at(vec, start + i * m + j), c.at(want, i, j))))


def sysdata(c, names):
    return c.obj(_SysData, pathname='', to_prom_name=c.dict([(n, n) for n in names]))


def srcvec(c, names, cs=False):
    pd = c.obj(_ProbData, in_complex_step=False)
    return c.obj(SrcVecWrapper, comm=None, vec=None, _dat=c.odict(), deriv_units=False, vectype=None,
                 alloc_complex=False, _sysdata=sysdata(c, names), _probdata=pd, scale_cache=None, units_cache=None)


NAMES = ('p.a', 'b', 'b1')


class SrcSetup(Contract):
    """set up the storage of three variables, write one, read all"""
    prop = 'C01'
    target = M + 'SrcVecWrapper.setup'
    cases = tuple(itertools.product(KINDS, ('scalar', 'matrix', 'object'), ('scalar', 'flat')))
    weight = 3

    def build(self, c, case):
        vs = [var(c, n, k) for n, k in zip(NAMES, case)]
        vec = srcvec(c, NAMES)
        ud = c.odict([(v.name, v.m) for v in vs])
        i = c.choice('written', [0, 1, 2])
        new = value_for(c, vs[i])
        cs = c.flag('complex')
        return NS(vs=vs, vec=vec, i=i, new=new, n0=c.snap(new) if c.isarray(new) else new,
                  args=(vec, ud, NAMES, NAMES[i], new, cs))

    @staticmethod
    def program(vec, ud, names, name, new, cs):
        vec.setup(ud, None, None, True, None, cs, 'u')
        first = [vec[n] for n in names]
        order = list(vec.keys())
        start = vec.vec.copy()
        vec[name] = new
        return first, order, start, [vec[n] for n in names], vec.vec, [vec._dat[n].slice for n in names], \
            [vec.metadata(n) for n in names], [n in vec for n in names]

    def ensures(self, c, S, out):
        c.check('storage is set up, written and read without an error', out.ok)
        if not out.ok:
            return
        first, order, start, after, vec, slices, metas, inside = out.value
        c.check('names are those declared, in declaration order', And(len(c.keys_(order)) == 3, And([a == b for a, b in zip(c.keys_(order), NAMES)])))
        pos = 0
        for k, v in enumerate(S.vs):
            f, a = c.at(first, k), c.at(after, k)
            want = S.n0 if k == S.i else v.v0
            c.check('variable %d reads the value written, every other one its own value' % k, has_value(c, a, v, want))
            sl = c.at(slices, k)
            if v.kind == 'object':
                c.check('an object has no place in the flat vector', c.isnone(sl))
            else:
                c.check('variable %d has its own block, right after the previous one' % k,
                        And(c.eq(sl[0], pos), c.eq(sl[1], pos + v.size)))
                c.check('the block holds the declared value (%d)' % k, block(c, start, pos, v, v.v0))
                c.check('the block holds the written value (%d)' % k, block(c, vec, pos, v, want))
                pos = pos + v.size
            c.check('metadata is the declared record', c.same(c.at(metas, k), v.m))
            c.check('the name is known', c.at(inside, k))
        c.check('the blocks fill the vector', And(c.eq(c.len(vec), pos), c.eq(c.len(start), pos)))


class View(Contract):
    """a subsystem's view of a group's variables is the same storage"""
    prop = 'C01'
    target = M + 'VecWrapper.get_view'
    cases = tuple(itertools.product(('scalar', 'flat', 'object'), ('scalar', 'matrix', 'object'), ('scalar', 'flat'),
                                    ((0, 1), (1, 2), (0, 1, 2), (1,), ())))
    weight = 2

    def build(self, c, case):
        vs = [var(c, n, k) for n, k in zip(NAMES, case[:3])]
        vec = srcvec(c, NAMES)
        part = case[3]
        vm = c.odict([(NAMES[i], 'local%d' % i) for i in part] + [('gone', 'other')])
        system = c.obj(object if c.sym else NS)
        sd = sysdata(c, ())
        if c.sym:
            system.attrs.update(_sysdata=sd, _probdata=c.attr(vec, '_probdata'))
        else:
            system._sysdata, system._probdata = sd, vec._probdata
        i = c.choice('written', list(part) or [0])
        here = c.flag('through the view') if part else False
        new = value_for(c, vs[i])
        cs = c.flag('complex')
        return NS(vs=vs, i=i, part=part, n0=c.snap(new) if c.isarray(new) else new, here=here,
                  args=(vec, c.odict([(v.name, v.m) for v in vs]), system, vm, NAMES, ['local%d' % k for k in part],
                        NAMES[i], 'local%d' % i, here, new, cs))

    @staticmethod
    def program(vec, ud, system, varmap, names, local, name, lname, here, new, cs):
        vec.setup(ud, None, None, True, None, cs, 'u')
        view = vec.get_view(system, None, varmap)
        if here:
            view[lname] = new
        else:
            vec[name] = new
        return list(view.keys()), [vec[n] for n in names], [view[n] for n in local], view.vec, \
            [view._dat[n].slice for n in local], view.vectype

    def ensures(self, c, S, out):
        c.check('a contiguous part can be viewed', out.ok)
        if not out.ok:
            return
        keys, full, local, vvec, slices, vt = out.value
        ks = c.keys_(keys)
        c.check('the view holds the mapped variables, in order, under their local names',
                And(len(ks) == len(S.part), And([a == 'local%d' % i for a, i in zip(ks, S.part)])))
        c.check('the view is of the same kind', vt == 'u')
        pos = 0
        for k, v in enumerate(S.vs):
            want = S.n0 if k == S.i else v.v0
            c.check('the group reads variable %d' % k, has_value(c, c.at(full, k), v, want))
            if k in S.part:
                j = S.part.index(k)
                c.check('the subsystem reads the same value of variable %d' % k, has_value(c, c.at(local, j), v, want))
                sl = c.at(slices, j)
                if v.kind != 'object':
                    c.check('block of the view', And(c.eq(sl[0], pos), c.eq(sl[1], pos + v.size), block(c, vvec, pos, v, want)))
                    pos = pos + v.size
        c.check('the view is exactly its blocks', c.eq(c.len(vvec), pos))


class SharedVec(Contract):
    """derivative storage carved out of a shared array: the same layout, in the shared array, nothing initialised"""
    prop = 'C01'
    target = M + 'SrcVecWrapper.setup'
    cases = tuple(itertools.product(('scalar', 'flat', 'object'), ('scalar', 'matrix', 'object'), ('scalar', 'flat')))

    def build(self, c, case):
        vs = [var(c, n, k) for n, k in zip(NAMES, case)]
        vec = srcvec(c, NAMES)
        tot = sum([v.size for v in vs], 0)
        extra = c.int('extra', 0)
        sh = c.array('shared', tot + extra)
        i = c.choice('written', [k for k in range(3) if case[k] != 'object'])
        new = value_for(c, vs[i])
        return NS(vs=vs, i=i, s0=c.snap(sh), sh=sh, n0=c.snap(new) if c.isarray(new) else new, tot=tot,
                  args=(vec, c.odict([(v.name, v.m) for v in vs]), NAMES, NAMES[i], new, sh))

    @staticmethod
    def program(vec, ud, names, name, new, shared):
        vec.setup(ud, None, None, False, shared, False, 'du')
        vec[name] = new
        return [vec._dat[n].slice for n in names], vec.vec

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        slices, vec = out.value
        pos = 0
        for k, v in enumerate(S.vs):
            if v.kind == 'object':
                continue
            sl = c.at(slices, k)
            c.check('block %d in order' % k, And(c.eq(sl[0], pos), c.eq(sl[1], pos + v.size)))
            if k == S.i:
                c.check('the shared array holds the value written', block(c, S.sh, pos, v, S.n0))
                lo, hi = pos, pos + v.size
            pos = pos + v.size
        c.check('nothing else of the shared array changes', And(c.eq(c.len(vec), pos),
                c.forall(0, c.len(S.s0), lambda q: Or(And(q >= lo, q < hi), c.eq(c.at(S.sh, q), c.at(S.s0, q))))))


class Units(Contract):
    """unit-converted access to a param: the stored value times its factor, storage untouched"""
    prop = 'C01'
    target = M + 'Accessor._setup_get_funct'
    cases = tuple(itertools.product(('scalar', 'flat', 'matrix', 'int-shape'), ('units', 'none'), ('deriv', 'value'), ('real', 'complex')))

    def build(self, c, case):
        kind, units, deriv, cs = case
        v = var(c, 'x', 'flat' if kind == 'int-shape' else kind)
        if kind == 'int-shape':
            c.assume(v.size >= 2)        # the shape 1 is a scalar
        pairs = [('val', v.val), ('shape', v.size if kind == 'int-shape' else v.shape), ('size', v.size), ('pathname', 'g.x')]
        S = NS(v=v, sc=c.real('scale', nonzero=True), of=c.real('offset'), kind=kind)
        if units == 'units':
            pairs.append(('unit_conv', (S.sc, S.of)))
        vec = c.obj(TgtVecWrapper, deriv_units=deriv == 'deriv', vectype='p')
        pd = c.obj(_ProbData, in_complex_step=False)
        S.store = c.array('store', v.size)
        S.s0 = c.snap(S.store)
        S.new = value_for(c, NS(kind=v.kind, shape=v.shape))
        S.n0 = c.snap(S.new) if c.isarray(S.new) else S.new
        S.args = (vec, (0, v.size), S.store, c.dict(pairs), pd, cs == 'complex', S.new)
        S.conv = units == 'units' and deriv == 'value'
        return S

    @staticmethod
    def program(vec, slc, store, meta, pd, cs, new):
        acc = Accessor(vec, slc, store, meta, pd, cs)
        acc.val = store
        got = acc.get()
        if not isinstance(got, float):
            got = got.copy()
        fl = acc.flat().copy()
        keep = store.copy()
        acc.set(new)
        return got, fl, keep, acc.get()

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        got, fl, keep, again = out.value
        v = S.v
        cv = (lambda x: S.sc * (x + S.of)) if S.conv else (lambda x: x)
        c.check('reading does not touch the storage', c.eq(keep, S.s0))
        c.check('the flat form is the converted value of every element', And(c.eq(c.len(fl), v.size),
                c.forall(0, v.size, lambda i: c.eq(c.at(fl, i), cv(c.at(S.s0, i))))))
        for nm, g, src in (('reads the stored value converted', got, S.s0), ('reads the value written, converted', again, None)):
            if v.kind == 'scalar':
                c.check(nm, And(c.isfloat(g), c.eq(g, cv(c.at(S.s0, 0) if src is not None else S.n0))))
            elif v.kind == 'flat':
                c.check(nm, And(c.isarray(g), c.ndim(g) == 1, c.eq(c.len(g), v.size),
                                c.forall(0, v.size, lambda i: c.eq(c.at(g, i), cv(c.at(src if src is not None else S.n0, i))))))
            else:
                n, m = v.shape
                rd = (lambda i, j: c.at(S.s0, i * m + j)) if src is not None else (lambda i, j: c.at(S.n0, i, j))
                c.check(nm, And(c.isarray(g), c.ndim(g) == 2, c.eq(c.dim(g, 0), n), c.eq(c.dim(g, 1), m),
                                c.forall(0, n, lambda i: c.forall(0, m, lambda j: c.eq(c.at(g, i, j), cv(rd(i, j)))))))


class Scaled(Contract):
    """scaled residual access divides every residual by its declared scaler, and nothing else"""
    prop = 'C01'
    target = M + 'SrcVecWrapper._scale_values'
    cases = tuple(itertools.product(('_scale_values', '_scale_derivatives'), ('u', 'r', 'du', 'dr'), ('flat', 'matrix', 'scalar')))

    def build(self, c, case):
        s1, s2 = c.real('scaler_a', nonzero=True), c.real('scaler_c', nonzero=True)
        sc = [s1, None, c.choice('third', [s2, None])]
        vs = [var(c, n, k, resid_scaler=s) for n, k, s in zip(NAMES, (case[2], 'flat', 'scalar'), sc)]
        vec = srcvec(c, NAMES)
        x = c.array('x', sum([v.size for v in vs], 0))
        return NS(vs=vs, sc=sc, x=x, vt=case[1], args=(vec, c.odict([(v.name, v.m) for v in vs]), x, case[1], case[0]))

    @staticmethod
    def program(vec, ud, x, vectype, method):
        vec.setup(ud, None, None, False, None, False, vectype)
        vec.vec[:] = x
        if method == '_scale_values':
            vec._scale_values()
        else:
            vec._scale_derivatives()
        once = vec.vec.copy()
        if method == '_scale_values':
            vec._scale_values()
        else:
            vec._scale_derivatives()
        return once, vec.vec

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        once, twice = out.value
        pos = 0
        for v, s in zip(S.vs, S.sc):
            f = s if s is not None and S.vt not in ('u', 'du') else 1.0
            c.check('residuals are divided by their scaler', c.forall(pos, pos + v.size, lambda i: c.eq(c.at(once, i) * f, c.at(S.x, i))))
            c.check('and again on the next evaluation', c.forall(pos, pos + v.size, lambda i: c.eq(c.at(twice, i) * f, c.at(once, i))))
            pos = pos + v.size


class Unconnected(Contract):
    """a param without a source is stored under its own name with its declared value, shared with nobody"""
    prop = 'C01'
    target = M + 'TgtVecWrapper._add_unconnected_var'
    cases = KINDS

    def build(self, c, case):
        v = var(c, 'g.x', case)
        other = c.opaque('other', plain)
        sd = c.obj(_SysData, pathname='g', to_prom_name=c.dict([('g.x', 'x')]))
        vec = c.obj(TgtVecWrapper, comm=None, vec=c.array('store', c.int('n', 0)), _dat=c.odict([('y', other)]), deriv_units=c.flag('deriv'),
                    vectype='p', alloc_complex=False, _sysdata=sd, _probdata=None, scale_cache=None, units_cache=None, _rel_inputs=None)
        new = value_for(c, v)
        return NS(v=v, other=other, vec=vec, x0=c.snap(c.attr(vec, 'vec')), new=new, args=(vec, 'g.x', v.m, new))

    @staticmethod
    def program(vec, path, meta, new):
        vec._add_unconnected_var(path, meta)
        got = vec['x']
        vec['x'] = new
        return got, vec['x'], list(vec.keys()), vec._dat['x'].slice, vec._dat['y']

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        got, again, keys, sl, other = out.value
        c.check('reads its declared value', c.same(got, S.v.val) if S.v.kind == 'object' else c.eq(got, S.v.v0))
        c.check('reads the value written', c.eq(again, S.new) if S.v.kind != 'object' else c.same(again, S.new))
        c.check('it takes no space in the flat vector', And(c.isnone(sl), c.eq(c.attr(S.vec, 'vec'), S.x0)))
        c.check('the other variable stays', And(c.same(other, S.other), len(c.keys_(keys)) == 2))


class Parts(object):
    """stands for anything with attributes"""


class Own(Contract):
    """a component looks into its parent's vectors, and keeps every param that is connected to nothing"""
    prop = 'C01'
    target = 'openmdao.core.component:Component._setup_vectors'
    rac = 60
    cases = tuple(itertools.product((False, True), ((), (('a',),), (('a', 'b'), ('c',))), (0, 1, 2)))

    def build(self, c, case):
        lin, groups, n = case
        S = NS(log=[], vois=[None] + ([v for g in groups for v in g] if lin else []), all=[v for g in groups for v in g], conn={})
        for k in range(n):
            S.conn['x%d' % k] = c.flag('x%d connected' % k)
        cut = max(1, len(groups) - 1)
        rel = c.obj(Parts, groups=c.list([tuple(g) for g in groups]), inputs=c.list([tuple(g) for g in groups[:cut]]), outputs=c.list([tuple(g) for g in groups[cut:]]))
        S.meta = {x: c.dict([('pathname', 'p.s.' + x)]) for x in S.conn}
        S.top, S.impl, S.par = c.obj(Parts), c.obj(Parts), c.obj(Parts, _sysdata=c.obj(_SysData, to_prom_name=c.dict([])))

        def add(path, meta):
            S.log.append(('add', path, any(meta is m and path == 'p.s.' + x for x, m in S.meta.items())))

        def views(top, parent, mine, voi=None):
            S.log.append(('views', voi, top is S.top and parent is S.par and c.len(mine) == 0))
            if voi is None:
                c.put_attr(S.s, 'params', c.obj(Held, has=c.method(lambda k: S.conn[k]), _add_unconnected_var=c.method(add)))
        S.conns = c.dict([])
        S.s = c.obj(Component, pathname='p.s', _sysdata=c.obj(_SysData, pathname='p.s'), _probdata=c.obj(_ProbData, relevance=rel, connections=S.conns, top_lin_gs=lin),
                    _params_dict=c.odict([('p.s.' + x, S.meta[x]) for x in S.conn]), is_active=c.method(lambda: True),
                    _get_relname_map=c.method(lambda d: c.dict([])), _create_views=c.method(views))
        S.args = (S.s, c.dict([]), S.par, S.top, S.impl)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        vs = [x for x in S.log if x[0] == 'views']
        c.check('views for every quantity of interest, once', vs[:1] == [('views', None, True)] and len(vs) == len(S.vois) and set(vs) == set(('views', v, True) for v in S.vois))
        added = [x for x in S.log if x[0] == 'add']
        c.check('exactly the params connected to nothing are added', sorted(added) == [('add', 'p.s.' + x, True) for x in sorted(S.conn) if not S.conn[x]])
        offs = c.attr(S.s, '_shared_p_offsets')
        c.check('a place for the params of every quantity of interest', set(c.keys(offs)) == set([None] + S.all) and all(c.item(offs, v) == 0 for v in c.keys(offs)))
        c.check('the connections of the problem', c.attr(S.s, 'connections') is S.conns)


class Held(object):
    """stands for the params of a component"""
    def __contains__(self, n):
        return self.has(n)
