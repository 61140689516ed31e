"""C03: reverse linear operators are the transpose of forward ones.

The forward contract says dr += J dp (block by block), the reverse one dp += J^T dr, on the same blocks; with the
frame conditions this is adjointness (the identity <w, J v> = <J^T w, v> of finite sums is assumed)."""
import itertools
import numpy as np
from pyvc.contract import *
from openmdao.components.indep_var_comp import IndepVarComp
from openmdao.components.linear_system import LinearSystem
from openmdao.components.unit_comp import UnitComp
from contracts.c01_storage import plain
from contracts.c02_transfer import Scatters, TransferFwd, vec, FORMS
from openmdao.core.component import Component
from openmdao.core.data_transfer import DataTransfer
from openmdao.core.group import Group
from openmdao.core.problem import _ProbData
from openmdao.core.relevance import Relevance
from openmdao.core.vec_wrapper import VecWrapper, SrcVecWrapper, TgtVecWrapper, Accessor
from openmdao.core.system import System, _SysData

S_ = 'openmdao.core.system:'


def meta(c, name, size, **kw):
    return c.dict([('val', c.array(name + '_val', size)), ('shape', (size,)), ('size', size), ('pathname', 'c.' + name),
                   ('top_promoted_name', name)] + list(kw.items()), label=name)


def dvec(c, cls, name, n, vt):
    return c.obj(cls, vec=c.array(name, n), _dat=c.odict(), deriv_units=True, vectype=vt, alloc_complex=False,
                 _probdata=None, _sysdata=None, scale_cache=None, units_cache=None, _rel_inputs=None, comm=None)


def fill(v, metas):
    pos = 0
    for name, m in metas:
        n = m['size']
        v._dat[name] = Accessor(v, (pos, pos + n), v.vec[pos:pos + n], m, None, False)
        pos = pos + n


def elemwise(c, vec, start, n, want, v0):
    """vec[start+i] == v0[start+i] + want(i)"""
    return c.forall(0, n, lambda i: c.eq(c.at(vec, start + i), c.at(v0, start + i) + want(i)))


class ApplyJac(Contract):
    """y and z (a state) of sizes n, m; params p and q of sizes k, l; r is a param that is not relevant here"""
    prop = 'C03'
    target = S_ + 'System._apply_linear_jac'
    cases = tuple((mode, e) for mode in ('fwd', 'rev') for e in (
        (('y', 'p'),), (('y', 'p'), ('y', 'q')), (('y', 'p'), ('z', 'p')), (('y', 'z'), ('z', 'z')), (('z', 'q'), ('z', 'z'), ('y', 'r')),
        (('w', 'p'), ('y', 'q')), ()))
    weight = 2
    timeout_ms = 20000

    def build(self, c, case):
        mode, ents = case
        S = NS(mode=mode, ents=ents)
        S.n = {v: c.int('n_' + v, 1) for v in 'yzpqrw'}
        S.pos = {'y': 0, 'z': S.n['y'], 'p': 0, 'q': S.n['p']}
        S.J = {e: c.array('J_%s_%s' % e, (S.n[e[0]], S.n[e[1]])) for e in ents}
        S.dp = dvec(c, TgtVecWrapper, 'dp', S.n['p'] + S.n['q'], 'dp')
        S.du = dvec(c, SrcVecWrapper, 'du', S.n['y'] + S.n['z'], 'du')
        S.dr = dvec(c, SrcVecWrapper, 'dr', S.n['y'] + S.n['z'], 'dr')
        S.o = {k: c.snap(c.attr(getattr(S, k), 'vec')) for k in ('dp', 'du', 'dr')}
        S.J0 = {e: c.snap(J) for e, J in S.J.items()}
        comp = c.obj(Component, pathname='c', states=c.set(['z']), rel_inputs=c.choice('rel', [None, ('p', 'q', 'z')]),
                     _jacobian_cache=c.dict([(e, J) for e, J in S.J.items()], label='jac'))
        pm = [(v, meta(c, v, S.n[v])) for v in 'pq']
        um = [(v, meta(c, v, S.n[v])) for v in 'yz']
        S.args = (comp, S.dp, S.du, S.dr, pm, um, mode)
        return S

    @staticmethod
    def program(comp, dp, du, dr, pm, um, mode):
        fill(dp, pm)
        fill(du, um)
        fill(dr, um)
        comp._apply_linear_jac(None, None, dp, du, dr, mode)

    def part(self, c, S, which, v):
        a = S.o[which]
        return c.part(a, S.pos[v], S.n[v])

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        v = {k: c.attr(getattr(S, k), 'vec') for k in ('dp', 'du', 'dr')}
        live = [e for e in S.ents if e[0] in 'yz' and e[1] in 'pqz']
        src = lambda x: 'du' if x == 'z' else 'dp'
        if S.mode == 'fwd':
            c.check('the direction is not changed', And(c.eq(v['dp'], S.o['dp']), c.eq(v['du'], S.o['du'])))
            for o in 'yz':
                prods = [c.dot(S.J0[e], self.part(c, S, src(e[1]), e[1])) for e in live if e[0] == o]
                c.check('residual %s accumulates the products of its own blocks' % o,
                        elemwise(c, v['dr'], S.pos[o], S.n[o], lambda i: sum((c.at(p, i) for p in prods), 0.0), S.o['dr']))
        else:
            c.check('the residual direction is not changed', c.eq(v['dr'], S.o['dr']))
            for i_, wh in (('p', 'dp'), ('q', 'dp'), ('z', 'du'), ('y', 'du')):
                prods = [c.dot(c.T(S.J0[e]), self.part(c, S, 'dr', e[0])) for e in live if e[1] == i_]
                c.check('input %s accumulates the transposed products of its own blocks' % i_,
                        elemwise(c, v[wh], S.pos[i_], S.n[i_], lambda i: sum((c.at(p, i) for p in prods), 0.0), S.o[wh]))
        c.check('the jacobian is not changed', And([c.eq(S.J[e], S.J0[e]) for e in S.ents] or [True]))


class ApplyJacDict(Contract):
    """the same operator on plain dictionaries of arrays (derivative checking)"""
    prop = 'C03'
    target = S_ + 'System._apply_linear_jac'
    cases = tuple((mode, k) for mode in ('fwd', 'rev') for k in ('flat', 'matrix'))

    def build(self, c, case):
        mode, kind = case
        S = NS(mode=mode)
        n = c.int('n', 1)
        if kind == 'flat':
            k, shp = c.int('k', 1), None
            shp = (k,)
            S.k = k
        else:
            shp = (2, 2)
            S.k = 4
        S.n = n
        S.J = c.array('J', (n, S.k))
        S.p = c.array('p', shp)
        S.y = c.array('y', n)
        S.z = c.array('z', n)
        S.K = c.array('K', (n, n))
        S.r = c.array('r', n)
        S.o = {k: c.snap(getattr(S, k)) for k in 'pyzrJK'}
        comp = c.obj(Component, pathname='c', states=c.set(['z']), rel_inputs=None,
                     _jacobian_cache=c.dict([(('y', 'p'), S.J), (('y', 'z'), S.K)], label='jac'))
        S.shp = shp
        S.d = c.dict([('p', S.p)], label='dp'), c.dict([('z', S.z)], label='du'), c.dict([('y', S.y)], label='dr')
        S.args = (comp,) + S.d + (mode,)
        return S

    @staticmethod
    def program(comp, dp, du, dr, mode):
        comp._apply_linear_jac(None, None, dp, du, dr, mode)
        return dp['p'], du['z'], dr['y']

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        p, z, y = out.value
        flat = (lambda i: (i,)) if len(S.shp) == 1 else (lambda i: (i // 2, i % 2))
        fp = S.o['p'] if len(S.shp) == 1 else c.flat(S.o['p'])
        if S.mode == 'fwd':
            c.check('the direction is not changed', And(c.eq(p, S.o['p']), c.eq(z, S.o['z'])))
            a, b = c.dot(S.o['J'], fp), c.dot(S.o['K'], S.o['z'])
            c.check('the residual accumulates', c.forall(0, S.n, lambda i: c.eq(c.at(y, i), c.at(S.o['y'], i) + c.at(a, i) + c.at(b, i))))
        else:
            c.check('the residual direction is not changed', c.eq(y, S.o['y']))
            a, b = c.dot(c.T(S.o['J']), S.o['y']), c.dot(c.T(S.o['K']), S.o['y'])
            if len(S.shp) == 1:
                c.check('the input accumulates', c.forall(0, S.k, lambda i: c.eq(c.at(p, i), c.at(S.o['p'], i) + c.at(a, i))))
            else:
                c.check('the input accumulates', And([c.eq(c.at(p, *flat(i)), c.at(S.o['p'], *flat(i)) + c.at(a, i)) for i in range(4)]))
            c.check('the state accumulates', c.forall(0, S.n, lambda i: c.eq(c.at(z, i), c.at(S.o['z'], i) + c.at(b, i))))


class Apply(Contract):
    """a component's operator with units and residual scalers: explicit y, state z, params p (with a unit factor) and q"""
    prop = 'C03'
    target = S_ + 'System._sys_apply_linear'
    cases = tuple(itertools.product(('fwd', 'rev'), ('user', 'fd'), (True, False), ('all', 'none', 'y')))
    weight = 2
    timeout_ms = 30000
    ents = (('y', 'p'), ('y', 'z'), ('z', 'p'), ('z', 'q'), ('z', 'z'))

    def build(self, c, case):
        S = NS()
        S.mode, S.kind, S.applied, S.gs = case
        S.n = {v: c.int('n_' + v, 1) for v in 'yzpq'}
        S.pos = {'y': 0, 'z': S.n['y'], 'p': 0, 'q': S.n['p']}
        S.J = {e: c.array('J_%s_%s' % e, (S.n[e[0]], S.n[e[1]])) for e in self.ents}
        S.dp = dvec(c, TgtVecWrapper, 'dp', S.n['p'] + S.n['q'], 'dp')
        S.du = dvec(c, SrcVecWrapper, 'du', S.n['y'] + S.n['z'], 'du')
        S.dr = dvec(c, SrcVecWrapper, 'dr', S.n['y'] + S.n['z'], 'dr')
        S.o = {k: c.snap(c.attr(getattr(S, k), 'vec')) for k in ('dp', 'du', 'dr')}
        S.f = c.real('unit_factor', nonzero=True)
        S.sc = {'y': 1.0, 'z': c.real('scaler_z', nonzero=True)}     # only states may have one
        S.relevant = c.flag('relevant')
        rel = c.obj(Relevance)
        pd = c.obj(_ProbData, relevance=rel, in_complex_step=False)
        voi = c.choice('voi', [None, 'v'])
        comp = c.obj(Component, pathname='c', states=c.set(['z']), rel_inputs=None, _local_subsystems=c.list([]),
                     deriv_options=c.dict([('type', S.kind)], label='deriv_options'), _probdata=pd,
                     dpmat=c.dict([(voi, S.dp)], label='dpmat'), dumat=c.dict([(voi, S.du)], label='dumat'), drmat=c.dict([(voi, S.dr)], label='drmat'),
                     params=None, unknowns=None,
                     _jacobian_cache=c.dict([(e, J) for e, J in S.J.items()], label='jac'))
        S.voi = voi
        pm = [('p', meta(c, 'p', S.n['p'], unit_conv=(S.f, 0.0))), ('q', meta(c, 'q', S.n['q']))]
        um = [('y', meta(c, 'y', S.n['y'])), ('z', meta(c, 'z', S.n['z'], resid_scaler=S.sc['z']))]
        do = c.dict([(('c', voi), S.applied)], label='do_apply')
        gs = {'all': None, 'none': c.dict([(voi, ())]), 'y': c.dict([(voi, ('y',))])}[S.gs]
        S.args = (comp, S.dp, S.du, S.dr, pm, um, S.mode, do, (voi,), gs)
        return S

    def uses(self, c, S):
        return {'Relevance.is_relevant_system': c.model(lambda self, voi, s: S.relevant, 'is_relevant_system')}

    def patches(self, c, S):
        return [(Relevance, 'is_relevant_system', lambda self, voi, s: S.relevant)]

    @staticmethod
    def program(comp, dp, du, dr, pm, um, mode, do, vois, gs):
        fill(dp, pm)
        fill(du, um)
        fill(dr, um)
        dp._cache_units()
        comp._sys_apply_linear(mode, do, vois, gs)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        v = {k: c.attr(getattr(S, k), 'vec') for k in ('dp', 'du', 'dr')}
        o, n, pos = S.o, S.n, S.pos
        if not S.relevant:
            c.check('a system that is not relevant is left alone', And([c.eq(v[k], o[k]) for k in v]))
            return
        user = S.kind == 'user'
        f = S.f if user else 1.0
        sc = S.sc if user else {'y': 1.0, 'z': 1.0}
        y_in = S.gs != 'none'
        if S.mode == 'fwd':
            c.check('unknown direction is not changed', c.eq(v['du'], o['du']))
            pp = c.arr(n['p'], lambda i: c.at(o['dp'], i) * f)
            parts = {'p': pp, 'q': c.part(o['dp'], pos['q'], n['q']), 'z': c.part(o['du'], pos['z'], n['z'])}
            for r in 'yz':
                prods = [c.dot(S.J[e], parts[e[1]]) for e in self.ents if e[0] == r] if S.applied else []
                own = r == 'y' and y_in
                c.check('residual direction of %s' % r, c.forall(0, n[r], lambda i: c.eq(
                    c.at(v['dr'], pos[r] + i),
                    sum((c.at(p, i) for p in prods), 0.0) / sc[r] - (c.at(o['du'], pos[r] + i) if own else 0.0))))
        else:
            c.check('residual direction is not changed', c.eq(v['dr'], o['dr']))
            rs = {r: c.arr(n[r], lambda i, r=r: c.at(o['dr'], pos[r] + i) / sc[r]) for r in 'yz'}
            for x, wh in (('p', 'dp'), ('q', 'dp'), ('z', 'du'), ('y', 'du')):
                prods = [c.dot(c.T(S.J[e]), rs[e[0]]) for e in self.ents if e[1] == x] if S.applied else []
                own = x == 'y' and y_in
                g = f if x == 'p' else 1.0
                c.check('direction of %s is the transposed product' % x, c.forall(0, n[x], lambda i: c.eq(
                    c.at(v[wh], pos[x] + i),
                    sum((c.at(p, i) for p in prods), 0.0) * g - (c.at(o['dr'], pos[x] + i) if own else 0.0))))


class UnitDerivs(Contract):
    """unit factors multiply the params they belong to, once, and no others"""
    prop = 'C03'
    target = 'openmdao.core.vec_wrapper:TgtVecWrapper._apply_unit_derivatives'
    cases = (None, ('p',), ('q', 'r'))

    def build(self, c, case):
        S = NS(rel=case)
        S.n = [c.int('n%d' % k, 1) for k in range(3)]
        S.dp = dvec(c, TgtVecWrapper, 'dp', S.n[0] + S.n[1] + S.n[2], 'dp')
        S.f = [c.real('f0'), None, c.real('f2')]
        S.v0 = c.snap(c.attr(S.dp, 'vec'))
        S.on = c.flag('deriv_units')
        pm = [(nm, meta(c, nm, n, **({} if f is None else {'unit_conv': (f, c.real('off' + nm))}))) for nm, n, f in zip('pqr', S.n, S.f)]
        S.args = (S.dp, pm, case, S.on)
        return S

    @staticmethod
    def program(dp, pm, rel, on):
        fill(dp, pm)
        dp._cache_units()
        dp.deriv_units = on
        dp._apply_unit_derivatives(rel)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        pos = 0
        v = c.attr(S.dp, 'vec')
        for nm, n, f in zip('pqr', S.n, S.f):
            g = 1.0 if f is None or not S.on or (S.rel is not None and nm not in S.rel) else f
            c.check('param %s' % nm, c.forall(pos, pos + n, lambda i: c.eq(c.at(v, i), c.at(S.v0, i) * g)))
            pos = pos + n


class RevScatters(Scatters):
    prop = 'C03'
    cases = tuple(itertools.product(('any', 'one'), ('any', 'one'), ('rev',)))


class TransferRev(TransferFwd):
    """reverse transfer adds every param's contribution to the source elements that feed it"""
    prop = 'C03'
    target = 'openmdao.core.data_transfer:DataTransfer.transfer'
    cases = tuple(itertools.product((('array', 'array'), ('array', 'run'), ('run', 'array'), ('run', 'run'), ('step', 'run'), ('one', 'one')),
                                    (('array', 'run'), ('run', 'run')), ('unique', 'repeated')))
    weight = 2
    timeout_ms = 30000

    def build(self, c, case):
        pd = c.obj(_ProbData, in_complex_step=False)
        ns, nt = c.int('nsrc', 1), c.int('ntgt', 1)
        L = []
        for k in (0, 1):
            f, g = case[k]
            n = 1 if 'one' in (f, g) else c.int('n%d' % k, 1)
            uniq = case[2] == 'unique' or f != 'array'
            si, sf, shit = self.index(c, 'src%d' % k, f, n, ns, uniq)
            ti, tf, hit = self.index(c, 'tgt%d' % k, g, n, nt, False)
            L.append(NS(n=n, si=si, ti=ti, sf=sf, tf=tf, shit=shit, uniq=uniq))
        S = NS(L=L, ns=ns, nt=nt, src=vec(c, 'u', ns, pd), tgt=vec(c, 'p', nt, pd))
        S.s0, S.t0 = c.snap(c.attr(S.src, 'vec')), c.snap(c.attr(S.tgt, 'vec'))
        S.args = (c.list([(x.si, x.ti, x.uniq) for x in L]), S.src, S.tgt)
        return S

    @staticmethod
    def program(scatters, srcvec, tgtvec):
        d = DataTransfer([], [], [], [], 'rev', None)
        d.scatters = scatters
        d.transfer(srcvec, tgtvec, 'rev', True)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        t, s = c.attr(S.tgt, 'vec'), c.attr(S.src, 'vec')
        c.check('the params are not changed', c.eq(t, S.t0))
        cur = S.s0
        a, b = S.L
        # what each scatter contributes to source element q: the sum of the target elements fed by it
        A = c.scatter(S.ns, a.n, a.sf, lambda k: c.at(S.t0, a.tf(k)))
        B = c.scatter(S.ns, b.n, b.sf, lambda k: c.at(S.t0, b.tf(k)))
        for x, X in ((a, A), (b, B)):
            if x.uniq:
                # a distinct index contributes a single element
                c.unique_scatter(X, S.ns, x.n, x.sf, lambda k, x=x: c.at(S.t0, x.tf(k)), x.shit)
        c.check('every source element accumulates the params it feeds', c.forall(0, S.ns, lambda q: c.eq(
            c.at(s, q), c.at(S.s0, q) + X_(c, A, q) + X_(c, B, q))))


def X_(c, A, q):
    return A(q)


class LinearProducts(Contract):
    """the reverse products of a LinearSystem are the transposes of its forward ones: A dx + dA x - db, and
    A' dr, (dr_i x_j)_ij, -dr; either way they are added to what is there"""
    prop = 'C03'
    target = 'openmdao.components.linear_system:LinearSystem.apply_linear'
    cases = tuple((m, s) for m in ('fwd', 'rev') for k in range(0, 4) for s in itertools.combinations('Abx', k))

    def build(self, c, case):
        mode, there = case
        n = c.int('n', 1)
        S = NS(mode=mode, there=there, n=n)
        sh = {'A': (n, n), 'b': n, 'x': n}
        S.v = {k: c.array(k, sh[k]) for k in 'Abx'}
        S.d = {k: c.array('d' + k, sh[k]) for k in there}
        S.d['r'] = c.array('dr', n)
        S.v0, S.d0 = {k: c.snap(a) for k, a in S.v.items()}, {k: c.snap(a) for k, a in S.d.items()}
        S.p, S.u = c.odict([(k, S.v[k]) for k in 'Ab']), c.odict([('x', S.v['x'])])
        S.dp = c.odict([(k, S.d[k]) for k in 'Ab' if k in there])
        S.du = c.odict([('x', S.d['x'])] if 'x' in there else [])
        S.dr = c.odict([('x', S.d['r'])])
        S.args = (c.obj(LinearSystem, size=n, lup=None, rhs_cache=None), S.p, S.u, S.dp, S.du, S.dr, mode)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        now = {'r': c.item(S.dr, 'x')}
        for k in S.there:
            now[k] = c.item(S.du if k == 'x' else S.dp, k)
        if S.mode == 'fwd':
            for k in S.there:
                c.check('the direction stays', c.eq(now[k], S.d0[k]))
            ax = c.dot(S.v0['A'], S.d0['x']) if 'x' in S.there else None
            xa = c.dot(S.d0['A'], S.v0['x']) if 'A' in S.there else None

            def want(i):
                v = c.at(S.d0['r'], i)
                v = v + c.at(ax, i) if 'x' in S.there else v
                v = v + c.at(xa, i) if 'A' in S.there else v
                return v - c.at(S.d0['b'], i) if 'b' in S.there else v
            c.check('the product is added to the residual direction', c.forall(0, S.n, lambda i: c.eq(c.at(now['r'], i), want(i))))
        else:
            c.check('the residual direction stays', c.eq(now['r'], S.d0['r']))
            at, r0, x0 = c.dot(c.T(S.v0['A']), S.d0['r']), S.d0['r'], S.v0['x']
            if 'x' in S.there:
                c.check('the product is added to the direction of x',
                        c.forall(0, S.n, lambda i: c.eq(c.at(now['x'], i), c.at(S.d0['x'], i) + c.at(at, i))))
            if 'b' in S.there:
                c.check('the product is added to the direction of b',
                        c.forall(0, S.n, lambda i: c.eq(c.at(now['b'], i), c.at(S.d0['b'], i) - c.at(r0, i))))
            if 'A' in S.there:
                c.check('the product is added to the direction of A', c.forall(0, S.n, lambda i: c.forall(0, S.n, lambda j: c.eq(
                    c.at(now['A'], i, j), c.at(S.d0['A'], i, j) + c.at(r0, i) * c.at(x0, j)))))
        c.check('values stay', And([c.eq(S.v[k], S.v0[k]) for k in 'Abx']))
        c.check('nothing else is there', tuple(c.keys(S.dp)) == tuple(k for k in 'Ab' if k in S.there) and
                tuple(c.keys(S.du)) == tuple(k for k in 'x' if k in S.there) and tuple(c.keys(S.dr)) == ('x',))


class UnitProducts(Contract):
    """the products of a UnitComp are those of the identity, added to what is there"""
    prop = 'C03'
    target = 'openmdao.components.unit_comp:UnitComp.apply_linear'
    cases = tuple((m, d) for m in ('fwd', 'rev') for d in (1, 2))

    def build(self, c, case):
        mode, d = case
        sh = tuple(c.int('n%d' % k, 1) for k in range(d))
        S = NS(mode=mode, sh=sh)
        S.a = {k: c.array(k, sh) for k in ('dp', 'dr', 'du', 'other')}
        S.a0 = {k: c.snap(v) for k, v in S.a.items()}
        S.dp, S.dr = c.odict([('in', S.a['dp'])]), c.odict([('out', S.a['dr']), ('other', S.a['other'])])
        S.du = c.odict([('out', S.a['du'])])
        S.args = (c.obj(UnitComp, param_name='in', out_name='out', shape=sh), c.odict(), c.odict(), S.dp, S.du, S.dr, mode)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        now = {'dp': c.item(S.dp, 'in'), 'dr': c.item(S.dr, 'out'), 'du': c.item(S.du, 'out'), 'other': c.item(S.dr, 'other')}
        to, frm = ('dr', 'dp') if S.mode == 'fwd' else ('dp', 'dr')
        if len(S.sh) == 1:
            ok = c.forall(0, S.sh[0], lambda i: c.eq(c.at(now[to], i), c.at(S.a0[to], i) + c.at(S.a0[frm], i)))
        else:
            ok = c.forall(0, S.sh[0], lambda i: c.forall(0, S.sh[1], lambda j: c.eq(
                c.at(now[to], i, j), c.at(S.a0[to], i, j) + c.at(S.a0[frm], i, j))))
        c.check('the direction is added', ok)
        for k in ('dp', 'dr', 'du', 'other'):
            if k != to:
                c.check('the rest stays', c.eq(now[k], S.a0[k]))


class IndepProducts(Contract):
    """an IndepVarComp's operator is minus the identity in both directions, on the outputs that are asked for"""
    prop = 'C03'
    target = 'openmdao.components.indep_var_comp:IndepVarComp._sys_apply_linear'
    cases = tuple(itertools.product(('fwd', 'rev'), ('all', 'none', 'b'), (1, 2)))

    def build(self, c, case):
        mode, gs, k = case
        S = NS(mode=mode, gs=gs, vois=(None,) if k == 1 else ('u', 'v'))
        S.n = {x: c.int('n_' + x, 1) for x in 'ab'}
        S.pos = {'a': 0, 'b': S.n['a']}
        S.v, S.o = {}, {}
        for w in ('du', 'dr'):
            for voi in S.vois:
                S.v[w, voi] = dvec(c, SrcVecWrapper, '%s_%s' % (w, voi), S.n['a'] + S.n['b'], w)
                S.o[w, voi] = c.snap(c.attr(S.v[w, voi], 'vec'))
        mats = {w: c.dict([(voi, S.v[w, voi]) for voi in S.vois], label=w + 'mat') for w in ('du', 'dr')}
        comp = c.obj(IndepVarComp, pathname='c', dumat=mats['du'], drmat=mats['dr'])
        um = [('a', meta(c, 'a', S.n['a'])), ('b', meta(c, 'b', S.n['b']))]
        outs = {'all': None, 'none': c.dict([(voi, ()) for voi in S.vois]), 'b': c.dict([(voi, ('b', 'other')) for voi in S.vois])}[gs]
        S.args = (comp, [S.v[x] for x in sorted(S.v, key=str)], um, mode, c.dict(), S.vois, outs)
        return S

    @staticmethod
    def program(comp, vecs, um, mode, do, vois, outs):
        for v in vecs:
            fill(v, um)
        comp._sys_apply_linear(mode, do, vois, outs)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        src, dst = ('du', 'dr') if S.mode == 'fwd' else ('dr', 'du')
        for voi in S.vois:
            c.check('the direction stays', c.eq(c.attr(S.v[src, voi], 'vec'), S.o[src, voi]))
            now, was = c.attr(S.v[dst, voi], 'vec'), S.o[src, voi]
            for x in 'ab':
                on = S.gs == 'all' or S.gs == x
                c.check('minus the direction of what is asked for, nothing else', c.forall(0, S.n[x], lambda i: c.eq(
                    c.at(now, S.pos[x] + i), -c.at(was, S.pos[x] + i) if on else 0.0)))


class GroupApply(Contract):
    """a group's operator: forward, the directions are handed on and then every subsystem is applied once;
    in reverse, the subsystems are applied first and then the directions are handed back"""
    prop = 'C03'
    target = 'openmdao.core.group:Group._sys_apply_linear'
    cases = tuple(itertools.product(('fwd', 'rev'), ('user', 'fd'), (1, 2), (0, 1, 3)))

    def build(self, c, case):
        mode, kind, k, nsub = case
        S = NS(mode=mode, kind=kind, nsub=nsub, vois=(None,) if k == 1 else ('u', 'v'))
        S.log = c.list([])
        S.outs, S.rel, S.do = c.choice('outs', [None, 'some']), c.choice('rel', [None, 'names']), c.dict()
        S.active = c.flag('active')

        def sub(i):
            def apply(mode, do, vois=None, gs_outputs=None, rel_inputs=None):
                c.append(S.log, ('sub', i, mode))
                c.check('in the mode and for the quantities asked for', And(c.same(do, S.do), vois == S.vois, gs_outputs == S.outs, rel_inputs == S.rel))
            return c.obj(Component, name='s%d' % i, _sys_apply_linear=c.method(apply))

        def transfer(target_sys='', mode='fwd', deriv=False, var_of_interest=None):
            c.append(S.log, ('move', var_of_interest, mode))
            c.check('the derivatives of the whole group', And(target_sys == '', deriv is True))
        S.grp = c.obj(Group, pathname='g', deriv_options=c.dict([('type', kind)], label='deriv_options'), _local_subsystems=c.list([sub(i) for i in range(nsub)]),
                      is_active=c.method(lambda: S.active), _transfer_data=c.method(transfer))
        S.args = (S.grp, mode, S.do, S.vois, S.outs, S.rel)
        return S

    def own(self, c, S, mode, do, vois, outs):
        c.append(S.log, ('own', 0, mode))
        c.check('in the mode and for the quantities asked for', And(c.same(do, S.do), vois == S.vois, outs == S.outs))

    def uses(self, c, S):
        return {'System._sys_apply_linear': c.model(lambda self_, mode, do_apply, vois=(None,), gs_outputs=None, rel_inputs=None: self.own(c, S, mode, do_apply, vois, gs_outputs), '_sys_apply_linear')}

    def patches(self, c, S):
        return [(System, '_sys_apply_linear', lambda self_, mode, do_apply, vois=(None,), gs_outputs=None, rel_inputs=None: self.own(c, S, mode, do_apply, vois, gs_outputs))]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        log = [tuple(c.keys_(x)) if not isinstance(x, tuple) else x for x in c.keys_(S.log)]
        moves = [('move', v, S.mode) for v in S.vois]
        subs = [('own', 0, S.mode)] if S.kind == 'fd' else [('sub', i, S.mode) for i in range(S.nsub)]
        want = (moves + subs if S.mode == 'fwd' else subs + moves) if S.active else []
        c.check('handed on and applied, each once and in this order', log == want)
