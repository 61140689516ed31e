"""C07: finite difference and complex step (System.fd_jacobian, Component.complex_step_jacobian, the complex vectors).

The system is a stub: running it gives any result, which may depend on nothing but the perturbed input; it checks that
it is run at the right point. One input of any size (in the params, a state, or an independent variable in the unknowns
of the root), two outputs of any size, anywhere in vectors of any size."""
import itertools
import numpy as np
from pyvc.contract import *
from openmdao.core.system import System
from openmdao.core.component import Component
from openmdao.core.group import Group
from openmdao.core.problem import _ProbData
from openmdao.core.vec_wrapper import Accessor, TgtVecWrapper, SrcVecWrapper


class Vec(object):
    """stands for a vector wrapper"""
    def __getitem__(self, name):
        return self._dat[name].val

    def __contains__(self, name):
        return name in self._dat


class Box(object):
    """stands for anything with attributes"""


class Difference(Contract):
    prop = 'C07'
    target = 'openmdao.core.system:System.fd_jacobian'
    # where the input is, the form, and what is selected of it and of the outputs
    cases = tuple((kind, form, sel) for kind in ('param', 'state', 'group param', 'indep', 'unpromoted')
                  for form in ('forward', 'backward', 'central', 'cs') for sel in ((), ('poi',), ('qoi',), ('poi', 'qoi'))
                  if not (form == 'cs' and kind in ('param', 'state')) and ('poi' not in sel or kind in ('indep', 'unpromoted')))
    weight = 2
    settings = False

    def options(self, c, S, form):
        """the configured form, step and kind of step: those of the variable before those of the overrides before those of the system"""
        full = self.settings
        mode = S.sel if full else ''
        S.sel = () if full else S.sel
        use = S.use_check = 'check' in mode
        S.over = 'overrides' in mode
        S.local = 'local' in mode
        step = c.real('step', lo=0.0, pool=[0.5, 0.125, 0.01])
        c.assume(step > 0)
        calc = 'relative' if full or S.sel else c.choice('calc', ['relative', 'absolute'])
        vals = {'form': 'forward' if form == 'cs' else form, 'step_size': step, 'step_calc': calc, 'type': 'cs' if form == 'cs' else 'fd'}
        wrong = {'form': 'central' if form != 'central' else 'backward', 'step_size': c.real('other', lo=0.0, pool=[1.0, 2.0]),
                 'step_calc': 'absolute' if calc == 'relative' else 'relative', 'type': 'fd' if form == 'cs' else 'cs'}
        chk = lambda d: [('check_' + k, v) for k, v in d.items()]
        no = lambda cond, d: wrong if cond else d
        own = S.local or S.over
        opts = (list(no(own or use, vals).items()) + chk(no(own or not use, vals)) + [('linearize', False)])
        if mode == 'defaults':
            opts = [('type', vals['type'])]
            step = 1e-6
            opts += [('step_calc', calc)]
            if form not in ('forward', 'cs'):
                opts += [('form', form)]
        over = c.dict(chk(no(S.local, vals))) if S.over else None
        local = dict(vals) if S.local else {}
        S.step, S.calc = step, calc
        return c.dict(opts), over, local

    def build(self, c, case):
        kind, form, sel = case
        S = NS(kind=kind, form=form, sel=sel)
        total = S.total = kind in ('group param', 'indep', 'unpromoted')
        src = S.src = kind in ('indep', 'unpromoted')
        cs = S.cs = form == 'cs'
        opts, over, local = self.options(c, S, form)
        n = {v: c.int('n_' + v, 0 if v in 'ab' else 1) for v in 'xyzab'}
        S.n = n
        # params: a, x, b; unknowns: a, y, z, b, with x before z if it is in there
        inu = S.inu = kind not in ('param', 'group param')
        lay = ['a', 'y', 'x', 'z', 'b'] if inu else ['a', 'y', 'z', 'b']
        at, pos = {}, 0
        for v in lay:
            at[v] = pos
            pos = pos + n[v]
        nu = pos
        npar = n['a'] + n['x'] + n['b']
        S.at, S.x0 = at, (at['x'] if inu else n['a'])
        S.w = {}
        probdata = c.obj(Box, in_complex_step=False)
        for nm, size in (('p', npar), ('u', nu), ('r', nu)):
            S.w[nm] = c.obj(Vec, vec=c.array(nm, size), imag_vec=c.array(nm + 'i', size), _probdata=probdata)
        S.size = {'p': npar, 'u': nu, 'r': nu}
        S.res = 'u' if total else 'r'
        S.inp = 'u' if inu else 'p'
        S.w0 = {k: c.snap(c.attr(v, 'vec')) for k, v in S.w.items()}
        if cs:
            im = c.attr(S.w[S.inp], 'imag_vec')
            c.assume(c.forall(0, n['x'], lambda i: c.eq(c.at(im, S.x0 + i), 0.0))) if c.sym else im.__setitem__(slice(S.x0, S.x0 + n['x']), 0.0)
        sel = S.sel
        S.poi = c.index_array('poi', c.int('n_poi', 1), n['x']) if 'poi' in sel else None
        S.qoi = c.index_array('qoi', c.int('n_qoi', 0), n['y']) if 'qoi' in sel else None
        S.cols = c.len(S.poi) if S.poi is not None else n['x']
        S.col = (lambda k: c.at(S.poi, k)) if S.poi is not None else (lambda k: k)
        S.rows = {'y': c.len(S.qoi) if S.qoi is not None else n['y'], 'z': n['z'], 'x': n['x']}
        S.row = {'y': (lambda k: c.at(S.qoi, k)) if S.qoi is not None else (lambda k: k), 'z': lambda k: k}
        # the result of the run with element i of the input one step up or down
        S.R = {s: c.array('R' + s, (n['x'], nu)) for s in '+-'}
        S.ghost = c.obj(Box, k=0, half=0, base=1 if total else 0)
        # the residuals at the current values
        S.R0 = c.array('R0', nu)
        pname = {'param': 'x', 'state': 'x', 'group param': 'c.x', 'indep': 'c.x', 'unpromoted': 'c.x'}[kind]
        S.pname = pname
        uname = {'indep': 'x', 'unpromoted': 'i.x', 'state': 'x'}.get(kind)
        S.uname = uname

        def write(nm, what, a):
            w = c.attr(S.w[nm], what)
            if c.sym:
                w.assign(a)
            else:
                w[:] = a

        def run(params, unknowns, resids):
            k, half = c.attr(S.ghost, 'k'), c.attr(S.ghost, 'half')
            c.check('the system is run with its own vectors', And(c.same(params, S.w['p']), c.same(unknowns, S.w['u']), c.same(resids, S.w['r'])))
            down = c.eq(half, 1) if form == 'central' else form == 'backward'
            if c.attr(S.ghost, 'base') == 0:
                # what the residuals are before the step is found out first
                for nm in 'pu':
                    c.check('nothing has taken a step before', c.eq(c.attr(S.w[nm], 'vec'), S.w0[nm]))
                write('r', 'vec', S.R0)
                c.put_attr(S.ghost, 'base', 1)
                return
            c.check('in complex mode when it steps that way', Iff(c.attr(probdata, 'in_complex_step'), cs))
            i = S.col(k)
            h = self.h(c, S, i)
            xw = c.attr(S.w[S.inp], 'vec')
            d = (lambda j: 0.0) if cs else (lambda j: c.ite(c.eq(j, S.x0 + i), c.ite(down, -h, h), 0.0))
            for nm in ('p', 'u') if not total else ('p', 'u') if not inu else ('u',):
                w = c.attr(S.w[nm], 'vec')
                if total and nm == 'p':
                    # (a run leaves other values behind in the params of its own that it has just read)
                    c.check('the input has taken one step', c.forall(0, n['x'], lambda j: c.eq(c.at(w, S.x0 + j), c.at(S.w0[nm], S.x0 + j) + d(S.x0 + j))))
                elif nm == S.inp:
                    c.check('the input has taken one step, nothing else has', c.forall(0, S.size[nm], lambda j: c.eq(c.at(w, j), c.at(S.w0[nm], j) + d(j))))
                else:
                    c.check('nothing else has taken a step', c.eq(w, S.w0[nm]))
            if cs:
                im = c.attr(S.w[S.inp], 'imag_vec')
                c.check('the input has taken one imaginary step', c.forall(0, n['x'], lambda j: c.eq(c.at(im, S.x0 + j), c.ite(c.eq(j, i), S.step, 0.0))))
            keep = c.snap(xw), c.snap(c.attr(S.w[S.inp], 'imag_vec'))

            def result(a, old):
                if total and inu:
                    return c.arr(nu, lambda j: c.ite(And(j >= S.x0, j < S.x0 + n['x']), c.at(old, j), c.at(a, j)))
                return a
            r = c.arr(nu, lambda j: c.ite(down, c.at(S.R['-'], i, j), c.at(S.R['+'], i, j)))
            if cs:
                write(S.res, 'imag_vec', result(r, keep[1]))
                write(S.res, 'vec', result(c.array('any', nu), keep[0]))
            else:
                write(S.res, 'vec', result(r, keep[0]))
            if total:
                write('r', 'vec', c.array('anyr', nu))
            if form == 'central':
                c.put_attr(S.ghost, 'half', c.ite(down, 0, 1))
                c.put_attr(S.ghost, 'k', c.ite(down, k + 1, k))
            else:
                c.put_attr(S.ghost, 'k', k + 1)

        def acc(nm, v, pos, size):
            w = S.w[nm]
            a = c.obj(Box, val=None, imag_val=None, pbo=False)
            S.views.append((a, w, pos, pos + size))
            return a
        S.views = []
        udat = [(v if v != 'x' else uname, acc('u', v, at[v], n[v])) for v in lay if v not in 'ab']
        rdat = [(v if v != 'x' else uname, acc('r', v, at[v], n[v])) for v in lay if v not in 'ab']
        udat, rdat = dict(udat), dict(rdat)
        c.put_attr(S.w['u'], '_dat', c.odict(list(udat.items())))
        c.put_attr(S.w['r'], '_dat', c.odict(list(rdat.items())))
        c.put_attr(S.w['p'], '_dat', c.odict([(pname, acc('p', 'x', n['a'], n['x']))] if kind in ('param', 'group param', 'indep', 'unpromoted') and not inu else []))
        path = '' if src else 'g'
        full = {'param': 'g.x', 'state': 'g.x', 'group param': 'g.c.x', 'indep': 'c.x', 'unpromoted': 'c.x'}[kind]
        pdict = c.odict([] if kind == 'state' else [(full, c.dict([('pathname', full), ('size', n['x'])] + list(local.items())))])
        prom = {'param': 'x', 'group param': 'v', 'indep': 'x', 'unpromoted': 'c.x'}.get(kind)
        abs_p = c.odict([(prom, (full,))] if prom else [])
        conns = c.odict([('c.x', ('i.x', None))] if src else [('g.c.x', ('c.x', None)), ('c.x', ('c.y', None))])
        S.sys = c.obj(System, pathname=path, _sysdata=c.obj(Box, to_abs_pnames=abs_p, to_prom_name=c.dict([('i.x', uname or 'i.x')])),
                      connections=conns, deriv_options=opts, states=[uname] if kind == 'state' else [], _params_dict=pdict,
                      _num_par_fds=1, _par_fd_id=0, _sys_solve_nonlinear=c.method(run if total else self.no(c)),
                      _sys_apply_nonlinear=c.method(self.no(c) if total else run), unknowns=S.w['u'],
                      _get_fd_params=c.method(lambda: [pname] if kind != 'state' else []), _get_fd_unknowns=c.method(lambda: ['y', 'z']))
        S.args = (S.sys, S.w['p'], S.w['u'], S.w['r'], S.views)
        passed = [uname] if src and c.flag('passed') else []
        S.passed = passed
        S.qx = c.index_array('qoi_x', c.int('n_qoi_x', 0), n['x']) if passed and S.qoi is not None else None
        if S.qx is not None:
            S.rows['x'] = c.len(S.qx)
        S.row['x'] = (lambda r: c.at(S.qx, r)) if S.qx is not None else (lambda r: r)
        S.kwargs = dict(total_derivs=total, pass_unknowns=c.list(passed) if passed else (), use_check=S.use_check, option_overrides=over,
                        poi_indices=c.dict([(uname, S.poi)]) if S.poi is not None else None,
                        qoi_indices=c.dict([('y', S.qoi)] + ([(uname, S.qx)] if S.qx is not None else [])) if S.qoi is not None else None)
        return S

    @staticmethod
    def program(sys, params, unknowns, resids, views, **kw):
        for acc, w, start, end in views:
            acc.val = w.vec[start:end]
            acc.imag_val = w.imag_vec[start:end]
        return sys.fd_jacobian(params, unknowns, resids, **kw)

    @staticmethod
    def no(c):
        def f(*a, **k):
            c.check('partial derivatives are of the residuals, total derivatives of the unknowns', False)
        return f

    def h(self, c, S, i):
        if S.calc == 'absolute':
            return S.step
        x = c.at(S.w0[S.inp], S.x0 + i)
        m = c.ite(x >= 0, x, -x)
        return c.ite(m > 1, m * S.step, S.step)

    def quotient(self, c, S, i, j):
        """of element j of the result vector and element i of the input"""
        h = self.h(c, S, i)
        base = c.at(S.w0['u'] if S.total else S.R0, j)
        if S.cs:
            return c.at(S.R['+'], i, j) * (1.0 / S.step)
        if S.form == 'forward':
            return (c.at(S.R['+'], i, j) - base) * (1.0 / h)
        if S.form == 'backward':
            return (c.at(S.R['-'], i, j) - base) * (-1.0 / h)
        return (c.at(S.R['-'], i, j) - c.at(S.R['+'], i, j)) * (-0.5 / h)

    def columns(self, c, S, jac, k):
        out = []
        for v in 'yz':
            J = c.item(jac, (v, S.pname))
            out.append(('%s in the columns so far' % v, c.forall(0, k, lambda q, v=v, J=J: c.forall(0, S.rows[v], lambda r: c.eq(
                c.at(J, r, q), self.quotient(c, S, S.col(q), S.at[v] + S.row[v](r)))))))
        for v in S.passed:
            J = c.item(jac, (v, S.pname))
            out.append(('the input itself in the columns so far', c.forall(0, S.cols, lambda q, J=J: c.forall(0, S.rows['x'], lambda r: c.eq(
                c.at(J, r, q), c.ite(And(q < k, c.eq(S.row['x'](r), S.col(q))), 1.0, 0.0))))))
        return out

    def identity(self, c, S, jac, k, rows):
        """the input itself, when some rows of column k are done"""
        J = c.item(jac, (S.uname, S.pname))
        return [('the input itself in the rows so far', c.forall(0, S.cols, lambda q: c.forall(0, S.rows['x'], lambda r: c.eq(
            c.at(J, r, q), c.ite(And(Or(q < k, And(c.eq(q, k), r < rows)), c.eq(S.row['x'](r), S.col(q))), 1.0, 0.0)))))]

    def unchanged(self, c, S):
        keep = ['u', 'r'] if S.total else ['p', 'u', 'r']
        out = [('%s as before' % nm, c.eq(c.attr(S.w[nm], 'vec'), S.w0[nm])) for nm in keep]
        if S.total and not S.inu:
            w = c.attr(S.w['p'], 'vec')
            out.append(('the input as before', c.eq(w, S.w0['p'])))
        if S.cs:
            im = c.attr(S.w[S.inp], 'imag_vec')
            out.append(('no imaginary part of the input', c.forall(0, S.n['x'], lambda i: c.eq(c.at(im, S.x0 + i), 0.0))))
            out.append(('complex mode is off', Not(c.attr(c.attr(S.w['u'], '_probdata'), 'in_complex_step'))))
        return out

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            return [('one run, or two, for each column', And(c.eq(c.attr(S.ghost, 'k'), k), c.attr(S.ghost, 'half') == 0, c.attr(S.ghost, 'base') == 1))] + \
                self.unchanged(c, S) + self.columns(c, S, L.jac, k)
        return {3: LoopSpec(inv=inv), 6: LoopSpec(inv=lambda L, k, S_: self.identity(c, S, L.jac, L.col, k))}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        for t, f in self.unchanged(c, S):
            c.check(t, f)
        jac = out.value
        c.check('an entry for every pair', c.len(c.keys(jac)) == 2 + len(S.passed))
        for v in 'yz':
            J = c.item(jac, (v, S.pname))
            c.check('shape of %s' % v, And(c.eq(c.dim(J, 0), S.rows[v]), c.eq(c.dim(J, 1), S.cols)))
        for t, f in self.columns(c, S, jac, S.cols):
            c.check(t, f)


class Settings(Difference):
    """the step, its kind and the form are those configured"""
    cases = tuple((kind, form, mode) for kind, form in (('param', 'central'), ('state', 'central'), ('group param', 'forward'), ('group param', 'cs'),
                                                        ('indep', 'backward'), ('unpromoted', 'cs'))
                  for mode in ('check', 'check overrides', 'local', 'check local', 'check overrides local', 'defaults') if not (kind == 'state' and 'local' in mode))
    settings = True


class CVec(object):
    """a vector wrapper that knows the values of its variables"""
    def __getitem__(self, name):
        return self._dat[name].get()

    def items(self):
        return [(n, a.meta) for n, a in self._dat.items()]

    def metadata(self, name):
        return self._dat[name].meta


class Acc(object):
    """stands for the accessor of a variable"""
    def get(self):
        v = self.val
        if self.meta.get('pass_by_obj'):
            return v.val
        if 'unit_conv' in self.meta:
            s, o = self.meta['unit_conv']
            v = s * (v + o)
        return v.reshape(()) if self.scalar else v.reshape(self.meta['shape'])

    def flat(self):
        return self.val


class Stepped(Component):
    def _sys_apply_nonlinear(self, params, unknowns, resids):
        x = (unknowns if self.state else params)['x']
        self.before(x, params['q'], unknowns['y'], params.metadata('q'))
        if self.state:
            resids['y'] = self.result()
            resids['x'] = self.other()
            resids.vec[:] = self.left()
        else:
            unknowns['y'] = self.result()
            resids.vec[:] = self.left()


class ComplexStep(Contract):
    """a component is stepped in the complex plane, one element of its input at a time"""
    prop = 'C07'
    target = 'openmdao.core.component:Component.complex_step_jacobian'
    cases = (('param', 'array', False), ('param', 'array', True), ('param', 'scalar', False), ('param', 'scalar', True), ('param', '2d', True),
             ('state', 'array', False), ('state', 'scalar', False))
    weight = 2

    def build(self, c, case):
        kind, form, units = case
        S = NS(kind=kind, form=form, units=units)
        state = S.state = kind == 'state'
        n = S.n = 1 if form == 'scalar' else 6 if form == '2d' else c.int('n_x', 0)
        shape = 1 if form == 'scalar' else (2, 3) if form == '2d' else (n,)
        m = S.m = c.int('n_y', 0)
        S.x = c.array('x', n)
        S.x0 = c.snap(S.x)
        S.y = c.array('y', m)
        S.q = c.array('q', c.int('n_q', 0))
        S.conv = (c.real('scale'), c.real('offset')) if units else None
        S.R = c.array('R', (n, m)), c.array('Ri', (n, m))
        S.ghost = c.obj(Box, k=0)
        step = S.step = c.real('step', lo=0.0, pool=[0.5, 0.125, 1e-20])
        c.assume(step > 0)
        use = c.flag('use_check')
        over = c.flag('overrides') and use
        local = c.flag('local') and not state
        wrong = c.real('other', pool=[1.0, 2.0])
        opts = c.dict([('step_size', step if not use else wrong), ('check_step_size', step if use and not over else wrong)] if not local else
                      [('step_size', wrong), ('check_step_size', wrong)])
        meta = lambda nm, shp, **kw: c.dict([('shape', shp), ('pathname', 'g.' + nm)] + list(kw.items()))
        xmeta = meta('x', shape, **({'unit_conv': S.conv} if units else {}))
        x = lambda: c.obj(Acc, val=S.x, meta=xmeta, scalar=form == 'scalar', pbo=False)
        q = c.obj(Acc, val=S.q, meta=meta('q', (c.len(S.q),)), scalar=False, pbo=False)
        y = lambda a: c.obj(Acc, val=a, meta=meta('y', (m,)), scalar=False, pbo=False)
        obj = lambda: c.obj(Acc, val=c.obj(Box, val='anything'), meta=c.dict([('pass_by_obj', True)]), scalar=False, pbo=True)
        pdat = [('q', q), ('o', obj())] + ([] if state else [('x', x())])
        udat = [('y', y(S.y)), ('w', obj())] + ([('x', x())] if state else [])
        S.ry, S.rx = c.array('ry', m), c.array('rx', n)
        rdat = [('y', y(S.ry)), ('x', c.obj(Acc, val=S.rx, meta=xmeta, scalar=form == 'scalar', pbo=False))][:2 if state else 1]
        S.rvec = c.array('rvec', c.int('n_r', 0))
        S.r0 = c.snap(S.rvec)
        S.uvec = c.array('uvec', c.int('n_u', 0))
        S.u0 = c.snap(S.uvec)
        vec = lambda dat, v: c.obj(CVec, vec=v, _dat=c.odict(dat))
        params, unknowns, resids = vec(pdat, c.array('pvec', 3)), vec(udat, S.uvec), vec(rdat, S.rvec)

        def before(xv, qv, yv, qm):
            k = c.attr(S.ghost, 'k')
            c.check('metadata is that of the variable', c.same(qm, c.attr(q, 'meta')))
            c.check('other inputs have their values', c.eq(qv, S.q))
            c.check('outputs have their values', c.forall(0, m, lambda i: And(c.eq(self.re(c.at(yv, i)), c.at(S.y, i)), c.eq(self.im(c.at(yv, i)), 0.0))))
            if form == 'scalar':
                el = lambda i: xv[()] if not c.sym else c.at(xv)
            elif form == '2d':
                el = lambda i: c.at(xv, i // 3, i % 3)
            else:
                el = lambda i: c.at(xv, i)

            def right(i):
                v = c.at(S.x0, i)
                d = c.ite(c.eq(i, k), step, 0.0)
                if units:
                    return And(c.eq(self.re(el(i)), S.conv[0] * (v + S.conv[1])), c.eq(self.im(el(i)), S.conv[0] * d))
                return And(c.eq(self.re(el(i)), v), c.eq(self.im(el(i)), d))
            c.check('the input has taken one imaginary step', And([right(i) for i in range(n)]) if isinstance(n, int) and form != 'array' else c.forall(0, n, right))

        def result():
            k = c.attr(S.ghost, 'k')
            c.put_attr(S.ghost, 'k', k + 1)
            if c.sym:
                from pyvc.core import SComplex
                return c.arr(m, lambda i: SComplex(c.at(S.R[0], k, i), c.at(S.R[1], k, i)), 'complex')
            return S.R[0][k] + 1j * S.R[1][k]

        def other():
            if c.sym:
                from pyvc.core import SComplex
                a = c.array('other', n)
                return c.arr(n, lambda i: SComplex(c.at(a, i), c.at(a, i)), 'complex')
            return c.array('other', n) * 1j
        comp = c.obj(Stepped, pathname='g', deriv_options=opts, states=['x'] if state else [], state=state,
                     _init_params_dict=c.dict([('x', c.dict([('step_size', step)] if local else []))]), before=c.method(before), result=c.method(result), other=c.method(other),
                     left=c.method(lambda: c.array('left', c.len(S.rvec))), _get_fd_params=c.method(lambda: [] if state else ['x']),
                     _get_fd_unknowns=c.method(lambda: ['y']), params=params, unknowns=unknowns)
        S.args = (comp, params, unknowns, resids, use, c.dict([('check_step_size', step)]) if over else None)
        return S

    def re(self, z):
        return getattr(z, 're', z) if not isinstance(z, complex) and hasattr(z, 're') else getattr(z, 'real', z)

    def im(self, z):
        return z.im if hasattr(z, 'im') else getattr(z, 'imag', 0.0)

    @staticmethod
    def program(comp, params, unknowns, resids, use, over):
        return comp.complex_step_jacobian(params, unknowns, resids, use_check=use, option_overrides=over)

    def same(self, c, S):
        return [('the input is as before', c.eq(S.x, S.x0)), ('the residuals are as before', c.eq(S.rvec, S.r0)), ('the unknowns are as before', c.eq(S.uvec, S.u0))]

    def columns(self, c, S, J, k):
        return ('columns so far', c.forall(0, k, lambda j: c.forall(0, S.m, lambda i: c.eq(c.at(J, i, j), c.at(S.R[1], j, i) / S.step))))

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            v = c.attr(L.stepvec, 'step_val')
            return [('one run for each column', c.eq(c.attr(S.ghost, 'k'), k)), self.columns(c, S, c.item(L.jac, ('y', 'x')), k),
                    ('the stepped input is back', c.forall(0, S.n, lambda i: And(c.eq(self.re(c.at(v, i)), c.at(S.x0, i)), c.eq(self.im(c.at(v, i)), 0.0))))] + self.same(c, S)[:1]
        return {2: LoopSpec(inv=inv)}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        for t, f in self.same(c, S):
            c.check(t, f)
        J = c.item(out.value, ('y', 'x'))
        c.check('one entry', c.len(c.keys(out.value)) == 1)
        c.check('shape', And(c.eq(c.dim(J, 0), S.m), c.eq(c.dim(J, 1), S.n)))
        c.check(*self.columns(c, S, J, S.n))


class Ctx(object):
    """stands for a directory context"""
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Plain(System):
    """a system without a method of the deprecated name"""
    def __getattr__(self, name):
        raise AttributeError(name)


class Linearize(Contract):
    """where a system's derivatives come from: its own, or differences of the kind and extent asked for; each a matrix"""
    prop = 'C07'
    target = 'openmdao.core.system:System._sys_linearize'
    cases = tuple((typ, grp, tot, form) for typ in ('user', 'fd', 'cs') for grp in (False, True) for tot in (None, True, False)
                  for form in ('none', 'number', 'vector', 'matrix', 'both') if not (typ != 'user' and form in ('none', 'number', 'vector')))

    def build(self, c, case):
        typ, grp, tot, form = case
        S = NS(typ=typ, grp=grp, tot=tot, form=form, n=c.int('n', 1), m=c.int('m', 1))
        S.also = c.flag('linearize too')
        S.p, S.u, S.r = c.obj(Vec), c.obj(Vec), c.obj(Vec)
        S.log = c.list([])
        S.J = {}
        if form == 'number':
            S.J['f', 'x'] = c.real('J')
        if form in ('vector', 'both'):
            S.J['f', 'x'] = c.array('J', S.n)
        if form in ('matrix', 'both'):
            S.J['g', 'x'] = c.array('K', (S.n, S.m))
        S.J0 = {k: (v if form == 'number' else c.snap(v)) for k, v in S.J.items()}
        S.jac = None if form == 'none' else c.odict(list(S.J.items()))

        def way(name):
            def f(p, u, r, total_derivs=None):
                c.append(S.log, (name, total_derivs))
                c.check('with its vectors', And(c.same(p, S.p), c.same(u, S.u), c.same(r, S.r)))
                return S.jac if name != 'own' or typ == 'user' else None
            return c.method(f)
        S.sys = c.obj(Plain, pathname='c', deriv_options=c.dict([('type', typ), ('linearize', S.also)], label='deriv_options'), _dircontext=c.obj(Ctx),
                      _local_subsystems=c.list([c.obj(Box)] if grp else []), linearize=way('own'), fd_jacobian=way('fd'), complex_step_jacobian=way('cs'),
                      _jacobian_cache=None, _jacobian_changed=c.flag('changed'))
        S.args = (S.sys, S.p, S.u, S.r) + (() if tot is None else (tot,))
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        log = [tuple(c.keys_(e)) if not isinstance(e, tuple) else e for e in c.keys_(S.log)]
        if S.typ == 'user':
            want = [('own', None)]
        elif S.grp and S.tot is None:
            want = [('fd', True)]
        else:
            want = [(S.typ, False)]
        c.check('asked for once, of the kind and extent that is set', [e for e in log if e[0] != 'own' or S.typ == 'user'] == want)
        if S.typ != 'user':
            c.check('the own ones too exactly when that is set', [e for e in log if e[0] == 'own'] == ([('own', None)] if S.also else []))
        c.check('known to have changed', c.attr(S.sys, '_jacobian_changed') is True)
        c.check('handed back and kept', c.same(c.attr(S.sys, '_jacobian_cache'), out.value) if S.jac is not None else out.value is None)
        if S.jac is None:
            return
        for k, was in S.J0.items():
            now = c.item(out.value, k)
            if S.form == 'number':
                c.check('a number becomes a matrix of one element', And(c.eq(c.dim(now, 0), 1), c.eq(c.dim(now, 1), 1), c.eq(c.at(now, 0, 0), was)))
            elif k[0] == 'f':
                c.check('a vector becomes a column', And(c.eq(c.dim(now, 0), S.n), c.eq(c.dim(now, 1), 1)))
                c.check('a vector keeps its elements', c.forall(0, S.n, lambda i: c.eq(c.at(now, i, 0), c.at(was, i))))
            else:
                c.check('a matrix stays', c.eq(now, was))


class Complex(Contract):
    """while complex step is on, a variable reads as its real part plus i times its imaginary part, converted (the
    imaginary part by the factor alone), and takes a complex value in two parts"""
    prop = 'C07'
    target = 'openmdao.core.vec_wrapper:Accessor._setup_get_funct'
    cases = tuple(itertools.product(('scalar', 'flat', 'matrix'), ('units', 'none'), ('deriv', 'value')))

    def build(self, c, case):
        kind, units, deriv = case
        S = NS(kind=kind, conv=units == 'units' and deriv == 'value', sc=c.real('scale', nonzero=True), of=c.real('offset'))
        S.dims = () if kind == 'scalar' else (c.int('n', 1),) if kind == 'flat' else (c.int('n', 1), c.int('m', 1))
        if kind == 'flat':
            S.size = S.dims[0]
        else:
            S.size = 1 if kind == 'scalar' else S.dims[0] * S.dims[1]
        S.re, S.im = c.array('re', S.size), c.array('im', S.size)
        S.re0, S.im0 = c.snap(S.re), c.snap(S.im)
        S.new = [c.real(x) if kind == 'scalar' else c.array(x, S.dims) for x in ('nre', 'nim')]
        S.new0 = [x if kind == 'scalar' else c.snap(x) for x in S.new]
        val = c.real('val') if kind == 'scalar' else c.array('val', S.dims)
        pairs = [('val', val), ('shape', 1 if kind == 'scalar' else S.dims), ('size', S.size), ('pathname', 'g.x')]
        if units == 'units':
            pairs.append(('unit_conv', (S.sc, S.of)))
        vec = c.obj(TgtVecWrapper, deriv_units=deriv == 'deriv', vectype='p')
        S.args = (vec, (0, S.size), S.re, S.im, c.dict(pairs), c.obj(_ProbData, in_complex_step=True), S.new[0], S.new[1])
        return S

    @staticmethod
    def program(vec, slc, re, im, meta, pd, nre, nim):
        acc = Accessor(vec, slc, re, meta, pd, True, imag_val=im)
        got, fl = acc.get(), acc.flat()
        parts = np.real(got), np.imag(got), np.real(fl), np.imag(fl)
        keep = re.copy(), im.copy()
        acc.set(nre + nim * 1j)
        return parts, keep

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        parts, keep = out.value
        cv = (lambda x: S.sc * (x + S.of)) if S.conv else (lambda x: x)
        ci = (lambda x: S.sc * x) if S.conv else (lambda x: x)
        c.check('reading changes nothing', And(c.eq(keep[0], S.re0), c.eq(keep[1], S.im0)))
        for a, want, f in ((parts[2], S.re0, cv), (parts[3], S.im0, ci)):
            c.check('the flat form', And(c.eq(c.len(a), S.size), c.forall(0, S.size, lambda i: c.eq(c.at(a, i), f(c.at(want, i))))))
        for a, want, f in ((parts[0], S.re0, cv), (parts[1], S.im0, ci)):
            if S.kind == 'scalar':
                c.check('the value', c.eq(a, f(c.at(want, 0))))
            elif S.kind == 'flat':
                c.check('the values', And(c.eq(c.len(a), S.size), c.forall(0, S.size, lambda i: c.eq(c.at(a, i), f(c.at(want, i))))))
            else:
                n, m = S.dims
                c.check('in shape', And(c.eq(c.dim(a, 0), n), c.eq(c.dim(a, 1), m)))
                c.check('the values, row by row', c.forall(0, n, lambda i: c.forall(0, m, lambda j: c.eq(c.at(a, i, j), f(c.at(want, i * m + j))))))
        for a, new in ((S.re, S.new0[0]), (S.im, S.new0[1])):
            if S.kind == 'scalar':
                c.check('taken in two parts', c.eq(c.at(a, 0), new))
            elif S.kind == 'flat':
                c.check('taken in two parts', c.forall(0, S.size, lambda i: c.eq(c.at(a, i), c.at(new, i))))
            else:
                n, m = S.dims
                c.check('taken in two parts', c.forall(0, n, lambda i: c.forall(0, m, lambda j: c.eq(c.at(a, i * m + j), c.at(new, i, j)))))
