"""C11: total derivatives (Problem._calc_gradient_ln_solver, _calc_gradient_fd, Driver.calc_gradient).

The linear solver is a stub: for the right hand side -e_q of the quantity of interest v it returns row q of an arbitrary
matrix SOL[v] (C10 says that this is column q, or row q in reverse mode, of the derivatives of the model); it checks that
it is given nothing else. Two inputs and two outputs of any size, anywhere in vectors of any size, with any indices."""
import itertools
import numpy as np
from pyvc.contract import *
from pyvc.core import Unsupported
from contracts.c03_adjoint import meta, fill
from openmdao.core.driver import Driver
from openmdao.core.group import Group
from openmdao.core.problem import Problem
from openmdao.core.vec_wrapper import SrcVecWrapper
from openmdao.solvers.ln_gauss_seidel import LinearGaussSeidel

M = 'openmdao.core.problem:Problem.'


class Box(object):
    """stands for anything with attributes"""


def either(a, b):
    return a if a is not None else b


class Entries(Contract):
    """placement, selection and scaling of what the linear solver gives"""
    prop = 'C11'
    target = M + '_calc_gradient_ln_solver'
    # mode, format, vectors (of the whole problem, one for each quantity of interest, or two at once), indices, scaling,
    # what is left out
    cases = tuple((m, f) + k for m in ('fwd', 'rev') for f in ('array', 'dict') for k in (
        ('one', '', '', ''), ('one', 'xy', '', ''), ('one', 'xy', 'real', ''), ('each', 'y', 'array', ''), ('each', 'x', '', 'irrelevant'),
        ('group', '', '', ''), ('group', 'xwyz', 'real', '')) + ((('one', '', 'array', 'sparse'),) if f == 'dict' else ()) +
        ((('one', 'y', '', 'inactive'), ('group', '', '', 'inactive')) if m == 'rev' else ()))
    weight = 2
    timeout_ms = 15000

    def build(self, c, case):
        mode, fmt, kind, ind, sc, drop = case
        S = NS(mode=mode, fmt=fmt, kind=kind, drop=drop)
        fwd = S.fwd = mode == 'fwd'
        ins, outs = ('x', 'w'), ('y', 'z')
        S.ins, S.outs = ins, outs
        S.seeds, S.gets = (ins, outs) if fwd else (outs, ins)
        n = S.n = {v: c.int('n_' + v, 1) for v in 'bxwyz'}
        metas = {v: meta(c, v, n[v]) for v in 'bxwyz'}
        lay = ['b', 'y', 'x', 'z', 'w']
        keys = [None] + (list(S.seeds) if kind != 'one' else [])
        S.pos, S.N, S.vec = {}, {}, {}
        fills = []
        for key in keys:
            # (vectors of one quantity of interest hold the variables relevant for it only)
            own = [v for v in lay if not (key is not None and v == 'b')]
            p, S.pos[key] = 0, {}
            for v in own:
                S.pos[key][v] = p
                p = p + n[v]
            S.N[key] = p
            for w in ('du', 'dr'):
                S.vec[w, key] = c.obj(SrcVecWrapper, vec=c.array('%s_%s' % (w, key), p), _dat=c.odict(), deriv_units=False, vectype=w,
                                      alloc_complex=False, _probdata=None, _sysdata=None, comm=None)
                fills.append((S.vec[w, key], [(v, metas[v]) for v in own]))
        u = c.obj(SrcVecWrapper, vec=c.array('u', S.N[None]), _dat=c.odict(), deriv_units=False, vectype='u', alloc_complex=False,
                  _probdata=None, _sysdata=None, comm=None)
        fills.append((u, [(v, metas[v]) for v in lay]))
        S.u, S.u0 = u, c.snap(c.attr(u, 'vec'))
        # indices
        S.ix, S.size = {}, {}
        S.same = None
        for v in ins + outs:
            if v in ind:
                m = c.int('k_' + v, 1)
                # (quantities of interest solved for at once have as many elements each)
                if kind == 'group' and v in S.seeds:
                    m = S.same = either(S.same, m)
                c.assume(m <= n[v])
                S.ix[v] = c.index_array('ix_' + v, m, n[v])
                S.size[v] = m
            else:
                S.size[v] = n[v]
        if kind == 'group' and not ind:
            c.assume(n[S.seeds[0]] == n[S.seeds[1]])
        S.el = {v: (lambda k, v=v: c.at(S.ix[v], k)) if v in S.ix else (lambda k: k) for v in ins + outs}
        # scaling: the seeds' by plain numbers, the others' by numbers or element by element
        S.fac, scale = {}, {'x': [], 'w': [], 'y': [], 'z': []}
        dv, cn = [], []
        for v in ('x', 'y') if sc else ():
            if sc == 'array' and v in S.gets:
                a = c.array('s_' + v, S.size[v])
                S.fac[v] = lambda k, a=c.snap(a): c.at(a, k)
            else:
                a = c.real('s_' + v)
                S.fac[v] = lambda k, a=a: a
            (dv if v in ins else cn).append((v, a))
        # the solutions
        keyof = lambda v: v if kind != 'one' else None
        S.keyof = keyof
        S.SOL = {v: c.array('SOL_' + v, (S.N[keyof(v)], S.N[keyof(v)])) for v in S.seeds}
        S.cur, S.k, S.done, S.ready = None, None, [], False
        S.count = {v: 0 for v in S.seeds}
        S.solves = 0

        def solve(rhs, system, mode):
            c.check('the model was linearized before the linear solves', S.ready)
            c.check('the solve is in the direction of the request', mode == S.mode)
            res = []
            for key in (c.keys(rhs) if c.sym else list(rhs)):
                a = c.item(rhs, key)
                if c.sym:
                    if S.cur is None and drop == 'inactive':
                        raise Unsupported('which elements are solved for, in unrolled loops')
                    v = key if key is not None else S.cur[0] if S.cur is not None else S.seeds[S.turn()]
                    k = S.k if S.cur is not None else S.count[v]
                    S.count[v] += 1
                    q = S.pos[key][v] + S.el[v](k)
                else:
                    # the element asked for is where the right hand side is not zero
                    q = int(np.argmax(np.abs(a))) if len(a) else -1
                    v = [w for w in S.seeds if key in (None, w) and S.pos[key][w] <= q < S.pos[key][w] + n[w]]
                    c.check('the right hand side is that of an element of an input', len(v) == 1)
                    if not v:
                        raise RuntimeError('no such right hand side')
                    v = v[0]
                c.check('the right hand side is that of the element of %s' % v,
                        And(c.eq(c.len(a), S.N[key]), c.forall(0, S.N[key], lambda i: c.eq(c.at(a, i), c.ite(i == q, -1.0, 0.0)))))
                res.append((key, c.arr(S.N[key], lambda i, q=q, v=v: c.at(S.SOL[v], q, i))))
            return c.odict(res)

        def turn():
            """which seed's turn it is when the loops are unrolled"""
            return 0 if S.count[S.seeds[0]] < S.size[S.seeds[0]] else 1
        S.turn = turn

        def linearize(*a, **k):
            S.ready = True
        S.inact = {}
        if drop == 'inactive':
            for v in ('y', 'z') if kind == 'group' else ('z',):
                if c.sym:
                    S.inact[v] = c.symlist('inactive_' + v, c.int('inactives_' + v, 0), 'int')
                else:
                    S.inact[v] = [k for k in range(S.size[v]) if c.flag('inactive_%s%d' % (v, k))]
        inactives = c.dict(list(S.inact.items())) if S.inact else None
        groups = () if kind == 'one' else ([S.seeds] if kind == 'group' else [(v,) for v in S.seeds])
        irrelevant = lambda key, v: drop == 'irrelevant' and key == S.seeds[1] and v == S.gets[1]
        S.irrelevant = irrelevant
        S.sparse = {'y': ['x', 'w'], 'z': ['w']} if drop == 'sparse' else None
        sparsity = None if S.sparse is None else c.dict([(k, c.list(v)) for k, v in S.sparse.items()])
        relevance = c.obj(Box, vars_of_interest=c.method(lambda mode=None: c.list([tuple(g) for g in groups])),
                          is_relevant=c.method(lambda key, v: not irrelevant(key, v)))
        root = c.obj(Group, pathname='', unknowns=u, params=c.obj(Box), resids=c.obj(Box),
                     _probdata=c.obj(Box, relevance=relevance), comm=c.obj(Box, rank=0, size=1),
                     _unknowns_dict=c.odict([(v, metas[v]) for v in lay]), _params_dict=c.odict([]),
                     _sysdata=c.obj(Box, to_abs_uname=c.dict([(v, v) for v in lay]), to_prom_name=c.dict([(v, v) for v in lay])),
                     _owning_ranks=c.dict([(v, 0) for v in lay]),
                     dumat=c.odict([(k, S.vec['du', k]) for k in keys]), drmat=c.odict([(k, S.vec['dr', k]) for k in keys]),
                     clear_dparams=c.method(lambda: None), _sys_linearize=c.method(linearize),
                     ln_solver=c.obj(LinearGaussSeidel, solve=c.method(solve),
                                     options=c.dict([('single_voi_relevance_reduction', kind != 'one'), ('mode', mode)])))
        prob = c.obj(Problem, root=root, _poi_indices=c.dict([(v, S.ix[v]) for v in ins if v in S.ix]),
                     _qoi_indices=c.dict([(v, S.ix[v]) for v in outs if v in S.ix]),
                     _driver_vois=c.set(list(S.seeds) if kind != 'one' else []))
        S.args = (prob, fills, list(ins), list(outs), mode, fmt, c.dict(dv) if sc else None, c.dict(cn) if sc else None, sparsity, inactives)
        return S

    @staticmethod
    def program(prob, fills, ins, outs, mode, fmt, dv, cn, sparsity, inactives):
        for v, metas in fills:
            fill(v, metas)
        return prob._calc_gradient_ln_solver(ins, outs, fmt, mode, dv_scale=dv, cn_scale=cn, sparsity=sparsity, inactives=inactives)

    def entry(self, c, S, u, p, r, k):
        """row r of output u and column k of input p"""
        seed, get, a, b = (p, u, k, r) if S.fwd else (u, p, r, k)
        key = S.keyof(seed)
        if S.irrelevant(key, get):
            return 0.0
        pos = S.pos[key]
        e = c.at(S.SOL[seed], pos[seed] + S.el[seed](a), pos[get] + S.el[get](b))
        for v, i in ((u, r), (p, k)):
            if v in S.fac:
                e = e * S.fac[v](i)
        return e

    def right(self, c, S, e, u, p, r, k):
        ok = c.eq(e, self.entry(c, S, u, p, r, k))
        if u in S.inact:
            # (the rows of inactive constraints may be anything)
            ok = Or(ok, c.exists(0, c.len(S.inact[u]), lambda m: c.eq(c.at(S.inact[u], m), r)))
        return ok

    def block(self, c, S, J, u, p, n, m):
        """the first n rows and m columns of the block of u and p"""
        if S.fmt == 'dict':
            a = c.item(c.item(J, u), p)
            if a is None:
                return False
            return And(c.eq(c.dim(a, 0), S.size[u]), c.eq(c.dim(a, 1), S.size[p]),
                       c.forall(0, n, lambda r: c.forall(0, m, lambda k: self.right(c, S, c.at(a, r, k), u, p, r, k))))
        r0 = 0 if u == 'y' else S.size['y']
        c0 = 0 if p == 'x' else S.size['x']
        return c.forall(0, n, lambda r: c.forall(0, m, lambda k: self.right(c, S, c.at(J, r0 + r, c0 + k), u, p, r, k)))

    def wanted(self, S, u, p):
        return S.sparse is None or p in S.sparse[u]

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            cur = tuple(c.keys_(L.params))
            if cur != S.cur:
                if S.cur:
                    S.done = S.done + list(S.cur)
                S.cur = cur
            S.k = k
            out = []
            J = L.J
            if S.fmt == 'array':
                out.append(('the result has a row for each output element and a column for each input element',
                            And(c.eq(c.dim(J, 0), S.size['y'] + S.size['z']), c.eq(c.dim(J, 1), S.size['x'] + S.size['w']))))
            for seed in S.seeds:
                for get in S.gets:
                    u, p = (get, seed) if S.fwd else (seed, get)
                    if not self.wanted(S, u, p):
                        continue
                    if seed in S.done:
                        out.append(('the block of %s and %s is complete' % (u, p), self.block(c, S, J, u, p, S.size[u], S.size[p])))
                    elif seed in S.cur:
                        some = lambda u=u, p=p: self.block(c, S, J, u, p, S.size[u] if S.fwd else k, k if S.fwd else S.size[p])
                        if S.fmt == 'dict':
                            none = c.isnone(c.item(c.item(J, u), p))
                            out.append(('the block of %s and %s is there after one solve' % (u, p), Iff(none, c.eq(k, 0))))
                            if c.item(c.item(J, u), p) is None:
                                continue
                        out.append(('the block of %s and %s is filled up to here' % (u, p), some()))
                    elif S.fmt == 'dict':
                        out.append(('the block of %s and %s is not there yet' % (u, p), c.isnone(c.item(c.item(J, u), p))))
            return out

        def make():
            if S.fmt == 'array':
                return c.array('J', (S.size['y'] + S.size['z'], S.size['x'] + S.size['w']))
            started = c.flag('started')
            blk = lambda u, p: c.array('J_%s_%s' % (u, p), (S.size[u], S.size[p])) if (
                (p if S.fwd else u) in S.done or ((p if S.fwd else u) in S.cur and started)) else None
            return c.odict([(u, c.odict([(p, blk(u, p)) for p in S.ins if self.wanted(S, u, p)])) for u in S.outs])
        return {('Problem._calc_gradient_ln_solver', 15): LoopSpec(inv=inv, hints={'J': make})}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        J = out.value
        c.check('the model keeps its values', c.eq(c.attr(S.u, 'vec'), S.u0))
        if S.fmt == 'array':
            c.check('the result has a row for each output element and a column for each input element',
                    And(c.eq(c.dim(J, 0), S.size['y'] + S.size['z']), c.eq(c.dim(J, 1), S.size['x'] + S.size['w'])))
        else:
            c.check('the result has the names asked for', And([tuple(c.keys(J)) == S.outs] + [
                tuple(c.keys(c.item(J, u))) == tuple(p for p in S.ins if self.wanted(S, u, p)) for u in S.outs]))
        for u in S.outs:
            for p in S.ins:
                if self.wanted(S, u, p):
                    c.check('the derivatives of %s with respect to %s' % (u, p), self.block(c, S, J, u, p, S.size[u], S.size[p]))


class FdEntries(Contract):
    """placement, selection and scaling of what the finite differences give"""
    prop = 'C11'
    target = M + '_calc_gradient_fd'
    # format, what of
    cases = tuple((f, w) for f in ('array', 'dict') for w in ('plain', 'passed', 'scaled', 'arrays', 'indices')) + (('dict', 'sparse'),)

    def build(self, c, case):
        fmt, what = case
        S = NS(fmt=fmt, what=what)
        S.ins = ('px', 'pw')
        S.outs = ('y', 'px') if what == 'passed' else ('y', 'z')
        tgt = S.tgt = {'px': 'c.x', 'pw': 'd.w'}
        n = {v: c.int('n_' + v, 1) for v in ('px', 'pw', 'y', 'z')}
        S.ix, S.size = {}, dict(n)
        if what == 'indices':
            for v in ('px', 'z'):
                m = c.int('k_' + v, 1)
                S.ix[v] = c.index_array('ix_' + v, m, n[v])
                S.size[v] = m
        u = c.obj(SrcVecWrapper, vec=c.array('u', n['px'] + n['pw'] + n['y'] + n['z']), _dat=c.odict(), deriv_units=False, vectype='u',
                  alloc_complex=False, _probdata=None, _sysdata=None, comm=None)
        fills = [(u, [(v, meta(c, v, n[v])) for v in ('px', 'y', 'pw', 'z')])]
        S.D = {(o, i): c.array('D_%s_%s' % (o, i), (S.size[o], S.size[i])) for o in S.outs for i in S.ins}
        S.D0 = {k: c.snap(a) for k, a in S.D.items()}
        S.fac, dv, cn = {}, [], []
        if what in ('scaled', 'arrays'):
            for v in ('px', 'z', 'y'):
                if what == 'arrays' and v != 'y':
                    a = c.array('s_' + v, S.size[v])
                    S.fac[v] = lambda k, a=c.snap(a): c.at(a, k)
                else:
                    a = c.real('s_' + v)
                    S.fac[v] = lambda k, a=a: a
                (dv if v in S.ins else cn).append((v, a))
        S.calls = 0
        params, resids = c.dict([(t, c.dict([('pathname', t)])) for t in ('c.x', 'd.x', 'd.w', 'e.q')]), c.obj(Box)
        poi = c.dict([(v, S.ix[v]) for v in S.ins if v in S.ix])
        qoi = c.dict([(v, S.ix[v]) for v in S.outs if v in S.ix])
        S.check = c.flag('use_check')

        def fd(params_, unknowns_, resids_, total_derivs=False, fd_params=None, fd_unknowns=None, fd_states=None, pass_unknowns=(),
               poi_indices=None, qoi_indices=None, use_check=False, option_overrides=None):
            S.calls += 1
            c.check('the whole model is run for the differences', total_derivs)
            c.check('the differences are of the vectors of the model', c.same(params_, params) and c.same(unknowns_, u))
            names = lambda a: sorted(c.keys_(a) if c.sym else a)
            c.check('the differences are with respect to the inputs', names(fd_params) == sorted(tgt[v] for v in S.ins))
            c.check('the differences are of the outputs', sorted(list(names(fd_unknowns)) + list(names(pass_unknowns))) == sorted(S.outs))
            c.check('indices are passed on', c.same(poi_indices, poi) and c.same(qoi_indices, qoi))
            c.check('the settings used are those asked for', c.eq(use_check, S.check))
            return c.dict([((o, tgt[i]), S.D[o, i]) for o in S.outs for i in S.ins])
        absn = {'px': 'p.x', 'pw': 'p.w', 'y': 'c.y', 'z': 'd.z'}
        root = c.obj(Group, pathname='', unknowns=u, params=params, resids=resids, fd_jacobian=c.method(fd),
                     connections=c.odict([('e.q', ('p.b', None)), ('c.x', ('p.x', None)), ('d.x', ('p.x', None)), ('d.w', ('p.w', None))]),
                     _sysdata=c.obj(Box, to_abs_uname=c.dict(list(absn.items())), to_prom_name=c.dict([(t, t) for t in ('c.x', 'd.x', 'd.w', 'e.q')]),
                                    to_abs_pnames=c.dict([(t, (t,)) for t in ('c.x', 'd.x', 'd.w', 'e.q')])))
        prob = c.obj(Problem, root=root, _poi_indices=poi, _qoi_indices=qoi)
        S.sparse = {'y': ['px', 'pw'], 'z': ['pw']} if what == 'sparse' else None
        sparsity = None if S.sparse is None else c.dict([(k, c.list(v)) for k, v in S.sparse.items()])
        S.args = (prob, fills, list(S.ins), list(S.outs), fmt, c.dict(dv) if dv else None, c.dict(cn) if cn else None, sparsity, S.check)
        return S

    @staticmethod
    def program(prob, fills, ins, outs, fmt, dv, cn, sparsity, check):
        for v, metas in fills:
            fill(v, metas)
        return prob._calc_gradient_fd(ins, outs, fmt, dv_scale=dv, cn_scale=cn, sparsity=sparsity, use_check=check)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('the differences are taken once', S.calls == 1)
        J = out.value
        row = 0
        for o in S.outs:
            col = 0
            for i in S.ins:
                if S.sparse is not None and i not in S.sparse[o]:
                    c.check('derivatives that were not asked for are left out', Not(c.has(c.item(J, o), i)))
                    continue
                a, r0, c0 = (J, row, col) if S.fmt == 'array' else (c.item(c.item(J, o), i), 0, 0)

                def want(r, k):
                    e = c.at(S.D0[o, i], r, k)
                    for v, j in ((o, r), (i, k)):
                        if v in S.fac:
                            e = e * S.fac[v](j)
                    return e
                c.check('the derivatives of %s with respect to %s' % (o, i), c.forall(0, S.size[o], lambda r: c.forall(
                    0, S.size[i], lambda k: c.eq(c.at(a, r0 + r, c0 + k), want(r, k)))))
                if S.fmt == 'dict':
                    c.check('the block of %s and %s has its shape' % (o, i), And(c.eq(c.dim(a, 0), S.size[o]), c.eq(c.dim(a, 1), S.size[i])))
                col = col + S.size[i]
            row = row + S.size[o]
        if S.fmt == 'array':
            c.check('the result has a row for each output element and a column for each input element',
                    And(c.eq(c.dim(J, 0), row), c.eq(c.dim(J, 1), col)))


class Folder(object):
    """a directory context that does nothing"""
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


class Dispatch(Contract):
    """the derivatives asked for are computed the way asked for, with what was asked for"""
    prop = 'C11'
    target = M + 'calc_gradient'
    cases = tuple((m, t, f) for m in ('auto', 'fwd', 'rev', 'fd', 'backward') for t in ('user', 'fd', 'cs') for f in ('array', 'dict', 'list'))
    rac = 5

    def build(self, c, case):
        mode, kind, fmt = case
        S = NS(mode=mode, kind=kind, fmt=fmt, calls=[])
        S.J = c.opaque('J')
        S.check = c.flag('use_check')
        S.kw = dict(dv_scale=c.opaque('dv_scale'), cn_scale=c.opaque('cn_scale'), sparsity=c.opaque('sparsity'))
        S.inactives = c.opaque('inactives')
        S.ins, S.outs = c.list(['x']), c.list(['y', 'z'])

        def same(**kw):
            for k, v in kw.items():
                c.check('%s is passed on' % k, c.same(v, S.kw[k]))

        def fd(ins, outs, fmt_, dv_scale=None, cn_scale=None, sparsity=None, use_check=False):
            S.calls.append('fd')
            c.check('what was asked for is passed on', c.same(ins, S.ins) and c.same(outs, S.outs) and fmt_ == fmt)
            same(dv_scale=dv_scale, cn_scale=cn_scale, sparsity=sparsity)
            c.check('the settings asked for are passed on', c.eq(use_check, S.check))
            return S.J

        def ln(ins, outs, fmt_, mode_, dv_scale=None, cn_scale=None, sparsity=None, inactives=None):
            S.calls.append('ln')
            c.check('what was asked for is passed on', c.same(ins, S.ins) and c.same(outs, S.outs) and fmt_ == fmt and mode_ == mode)
            same(dv_scale=dv_scale, cn_scale=cn_scale, sparsity=sparsity)
            c.check('inactive constraints are passed on', c.same(inactives, S.inactives))
            return S.J
        prob = c.obj(Problem, root=c.obj(Group, _dircontext=c.obj(Folder), deriv_options=c.dict([('type', kind)])),
                     _calc_gradient_fd=c.method(fd), _calc_gradient_ln_solver=c.method(ln))
        S.args = (prob, S.ins, S.outs)
        S.kwargs = dict(S.kw, mode=mode, return_format=fmt, use_check=S.check, inactives=S.inactives)
        return S

    def ensures(self, c, S, out):
        if S.mode == 'backward' or S.fmt == 'list':
            c.check('an unknown mode or format is an error', not out.ok and out.exc is ValueError)
            c.check('nothing is computed for it', not S.calls)
            return
        c.check('no error', out.ok)
        c.check('the derivatives are computed once, the way asked for', S.calls == ['fd' if S.mode == 'fd' or S.kind != 'user' else 'ln'])
        c.check('they are returned', out.ok and c.same(out.value, S.J))


class DriverGradient(Contract):
    """a driver's derivatives are those of its model in the driver's units and are recorded"""
    prop = 'C11'
    target = 'openmdao.core.driver:Driver.calc_gradient'
    cases = (('auto', 'array'), ('fwd', 'dict'), ('rev', 'array'))
    rac = 5

    def build(self, c, case):
        mode, fmt = case
        S = NS(calls=[], recorded=[])
        S.J = c.opaque('J')
        S.dv, S.fn, S.sp, S.ina, S.meta = (c.opaque(n) for n in ('dv_conversions', 'fn_conversions', 'sparsity', 'inactives', 'metadata'))
        S.ins, S.outs = c.list(['x']), c.list(['y', 'z'])

        def gradient(ins, outs, mode='auto', return_format='array', dv_scale=None, cn_scale=None, sparsity=None, use_check=False,
                     inactives=None):
            S.calls.append(1)
            c.check('what was asked for is passed on', c.same(ins, S.ins) and c.same(outs, S.outs) and (mode, return_format) == case)
            c.check('inputs are scaled by the conversions of the design variables', c.same(dv_scale, S.dv))
            c.check('outputs are scaled by the conversions of the responses', c.same(cn_scale, S.fn))
            c.check('what is left out is passed on', c.same(sparsity, S.sp) and c.same(inactives, S.ina))
            return S.J
        S.rec = c.method(lambda J, meta: S.recorded.append(c.same(J, S.J) and c.same(meta, S.meta)))
        d = c.obj(Driver, _problem=c.obj(Problem, calc_gradient=c.method(gradient)), dv_conversions=S.dv, fn_conversions=S.fn,
                  metadata=S.meta, recorders=c.obj(Box, record_derivatives=S.rec))
        S.args = (d, S.ins, S.outs)
        S.kwargs = dict(mode=mode, return_format=fmt, sparsity=S.sp, inactives=S.ina)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        c.check('the model is differentiated once', len(S.calls) == 1)
        c.check('they are recorded once', S.recorded == [True])
        c.check('they are returned', out.ok and c.same(out.value, S.J))


class Direction(Contract):
    """the direction of the linear solves: the one asked for, or of the fewer solves"""
    prop = 'C11'
    target = M + '_mode'
    cases = tuple((m, o, g) for m in ('auto', 'fwd', 'rev') for o in ('auto', 'fwd', 'rev') for g in ('names', 'tuples', 'unknown'))

    def build(self, c, case):
        mode, opt, kind = case
        S = NS(mode=mode, opt=opt, kind=kind)
        names = ('b', 'x', 'w', 'y', 'z')
        S.n = {v: c.int('n_' + v, 1) for v in names}
        md = lambda v: c.dict([('size', S.n[v]), ('pathname', 'c.' + v)])
        root = c.obj(Group, _unknowns_dict=c.odict([('c.' + v, md(v)) for v in names if v != 'w']),
                     _params_dict=c.odict([('c.w', md('w')), ('d.x', c.dict([('size', S.n['b']), ('pathname', 'd.x')]))]),
                     _sysdata=c.obj(Box, to_prom_name=c.dict([('c.' + v, v) for v in names] + [('d.x', 'x2')])),
                     ln_solver=c.obj(LinearGaussSeidel, options=c.dict([('mode', opt)])))
        ins = [('x', 'w')] if kind == 'tuples' else ['x', 'w']
        outs = [('y',), 'z'] if kind == 'tuples' else ['y', 'q'] if kind == 'unknown' else ['y', 'z']
        S.args = (c.obj(Problem, root=root), mode, ins, outs)
        return S

    def ensures(self, c, S, out):
        if S.kind == 'unknown':
            c.check('an unknown name is an error', not out.ok and out.exc is RuntimeError)
            return
        c.check('no error', out.ok)
        if not out.ok:
            return
        n = S.n
        if S.mode != 'auto':
            c.check('the direction asked for is taken', out.value == S.mode)
        elif S.opt != 'auto':
            c.check('the direction the linear solver is set to is taken', out.value == S.opt)
        else:
            c.check('the direction of the fewer solves is taken', Iff(n['x'] + n['w'] > n['y'] + n['z'], out.value == 'rev'))
            c.check('the direction is one of two', out.value in ('fwd', 'rev'))


class VoiIndices(Contract):
    """indices of the derivatives are those the variables were declared with"""
    prop = 'C11'
    target = 'openmdao.core.driver:Driver._map_voi_indices'
    cases = tuple(range(8))
    rac = 10

    def build(self, c, case):
        S = NS(ix={})

        def table(names, bit):
            out = []
            for j, v in enumerate(names):
                m = c.dict([('name', v)])
                if (case >> ((bit + j) % 3)) & 1:
                    S.ix[v] = c.array('ix_' + v, c.int('n_' + v, 0), 'int')
                    m = c.dict([('name', v), ('indices', S.ix[v])])
                out.append((v, m))
            return c.odict(out)
        S.args = (c.obj(Driver, _desvars=table(['x', 'w'], 0), _cons=table(['g', 'h'], 1), _objs=table(['f'], 2)),)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        poi, qoi = out.value
        for names, tab, what in (('xw', poi, 'input'), ('ghf', qoi, 'output')):
            c.check('the %ss with indices' % what, tuple(c.keys(tab)) == tuple(v for v in names if v in S.ix))
            for v in names:
                if v in S.ix:
                    c.check('the indices of %s %s' % (what, v), c.eq(c.item(tab, v), S.ix[v]))


class Together(Contract):
    """variables to be solved for at once are, and each is solved for once"""
    prop = 'C11'
    target = 'openmdao.core.driver:Driver._of_interest'
    cases = tuple((v, s) for v in ((), ('x',), ('x', 'w'), ('w', 'x', 'z'), ('z', 'y', 'x', 'w'))
                  for s in ((), (('x', 'w'),), (('x', 'z'), ('w', 'y')), (('q', 'w'), ('z', 'x', 'y')), (('q', 'r'),)))
    rac = 1

    def build(self, c, case):
        S = NS(names=case[0], sets=case[1])
        S.args = (c.obj(Driver, _voi_sets=c.list(list(S.sets))), c.list(list(S.names)))
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        got = [tuple(c.keys_(g)) for g in (out.value if not c.sym else [c.at(out.value, k) for k in range(c.len(out.value))])]
        c.check('each variable is there once', sorted(v for g in got for v in g) == sorted(S.names))
        for g in got:
            for v in g:
                mates = [set(s) for s in S.sets if v in s]
                c.check('%s is together with the variables of its set' % v,
                        set(g) == (mates[0] & set(S.names) if mates else {v}))


class Room(object):
    """stands for the relevance of the variables"""


class Shared(Contract):
    """derivative vectors solved together lie in separate parts of the shared storage, which has room for all of them"""
    prop = 'C11'
    target = 'openmdao.core.system:System._get_shared_vec_info'
    weight = 2
    rac = 100
    cases = tuple(itertools.product(((), (('a',),), (('a', 'b'),), (('a', 'b', 'c'),), (('a', 'b'), ('c', 'd')), (('a',), ('b', 'c'))), (False, True), (1, 2)))

    def build(self, c, case):
        groups, mine, n = case
        S = NS(groups=groups, vois=[v for g in groups for v in g], own=[], size={}, rel={})
        pairs = []
        for k in range(n):
            nm = 'x%d' % k
            S.size[nm] = c.int('size%d' % k, 0)
            last = k == n - 1
            pbo = c.choice('pbo%d' % k, [None, False, True]) if last else None
            meta = [('pathname', 'g.' + nm), ('top_promoted_name', nm), ('size', S.size[nm])]
            if pbo is not None:
                meta.append(('pass_by_obj', pbo))
            owned = not mine or not last or c.flag('owned %d' % k)
            if owned and not pbo:
                S.own.append(nm)
            if owned:
                S.rel.setdefault('mine', []).append('g.' + nm)
            pairs.append(('g.' + nm, c.dict(meta)))
        S.top = c.flag('top solver is LinearGaussSeidel')
        # what is relevant to a variable: an arbitrary choice of the last (and, for b, all) names
        S.relevant = {v: ['x%d' % k for k in range(n) if (k < n - 1 and v != 'b') or c.flag('x%d relevant to %s' % (k, v))] for v in S.vois}
        rel = c.obj(Room, relevant=c.dict([(v, c.set(r)) for v, r in S.relevant.items()]), groups=c.list([tuple(g) for g in groups]))
        pd = c.obj(Room, top_lin_gs=S.top, relevance=rel)
        S.args = (c.obj(Group, _probdata=pd), c.odict(pairs), tuple(S.rel.get('mine', ())) if mine else None)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        room, offs = out.value
        total = 0
        for v in S.own:
            total = total + S.size[v]
        c.check('room for a vector of all variables', And(room >= total, c.item(offs, None) == 0))
        if not S.top:
            c.check('nothing else', c.keys(offs) == [None])
            return
        need = {}
        for v in S.vois:
            need[v] = 0
            for x in S.relevant[v]:
                if x in S.own:
                    need[v] = need[v] + S.size[x]
        c.check('a place for every variable of interest', sorted(k for k in c.keys(offs) if k is not None) == sorted(S.vois))
        for v in S.vois:
            o = c.item(offs, v)
            c.check('inside the storage', And(o >= 0, o + need[v] <= room))
        for g in S.groups:
            for i, v in enumerate(g):
                for w in g[:i]:
                    a, b = c.item(offs, w), c.item(offs, v)
                    c.check('apart from the others of its group', Or(a + need[w] <= b, b + need[v] <= a))
