"""C18: what the optimizer is given (openmdao/drivers/scipy_optimizer.py)."""
import itertools
from pyvc.contract import *
from contracts.c08_convergence import Ctx, Rec
from openmdao.core.group import Group
from openmdao.drivers.scipy_optimizer import ScipyOptimizer
import openmdao.drivers.scipy_optimizer as module

M = 'openmdao.drivers.scipy_optimizer:ScipyOptimizer.'


class Box(object):
    """ghost state"""


class Vars(object):
    """any number of named descriptions"""
    def __len__(self):
        return self.n

    def __iter__(self):
        for k in range(self.n):
            yield k

    def items(self):
        for k in range(self.n):
            yield k, self.get(k)


class Point(Contract):
    """a point the optimizer asks for: each of any number of design variables is set to its part of it, then the model runs, then the
    objective and the constraints are read and the run is recorded"""
    prop = 'C18'
    target = M + '_objfunc'
    cases = (0, 1)

    def build(self, c, case):
        S = NS(n=c.int('n', 0, small=3))
        S.size = c.func('size', 1, 'int')
        S.off = c.func('offset', 1, 'int')
        if c.sym:
            c.assume(c.forall(0, S.n, lambda k: S.size(k) >= 0))
            c.assume(c.eq(S.off(0), 0))
            c.assume(c.forall(0, S.n, lambda k: c.eq(S.off(k + 1), S.off(k) + S.size(k))))
            c.induct('offsets are not negative', S.n + 1, lambda k: S.off(k) >= 0)
            S.N = c.int('N', 0)
            # every part lies within the point
            c.assume(c.forall(0, S.n + 1, lambda k: S.off(k) <= S.N))
            c.assume(c.eq(S.off(S.n), S.N))
        else:
            f = S.size
            S.size = lambda k: int(abs(f(k))) % 4
            S.off = lambda k: sum(S.size(j) for j in range(k))
            S.N = S.off(S.n)
        S.x = c.array('x', S.N)
        S.x0 = c.snap(S.x)
        S.box = c.obj(Box, count=0, runs=0, recorded=0)
        S.f = c.real('f')
        S.con = c.odict([('g', c.array('g', 2))])

        def put(name, value):
            c.check('the model has not run yet', c.eq(c.attr(S.box, 'runs'), 0))
            c.check('each design variable is set once', c.eq(name, c.attr(S.box, 'count')))
            o = S.off(name)
            c.check('to its own part of the point', And(c.eq(c.len(value), S.size(name)), c.forall(0, S.size(name), lambda j: c.eq(c.at(value, j), c.at(S.x0, o + j)))))
            c.put_attr(S.box, 'count', c.attr(S.box, 'count') + 1)

        def solve(metadata=None):
            c.check('the whole point is set before the model runs', c.eq(c.attr(S.box, 'count'), S.n))
            c.put_attr(S.box, 'runs', c.attr(S.box, 'runs') + 1)

        def read(v):
            def f():
                c.check('values are read after the run', c.eq(c.attr(S.box, 'runs'), 1))
                return v
            return f

        def record(system, meta):
            c.check('the run is recorded when done', And(c.eq(c.attr(S.box, 'runs'), 1), c.same(system, S.root), c.same(meta, S.meta)))
            c.put_attr(S.box, 'recorded', c.attr(S.box, 'recorded') + 1)
        S.root = c.obj(Group, pathname='', _dircontext=c.obj(Ctx), solve_nonlinear=c.method(solve))
        S.meta = c.dict([('coord', c.list([0, 'SLSQP', (0,)]))])
        S.drv = c.obj(ScipyOptimizer, root=S.root, metadata=S.meta, iter_count=c.int('iter', 0), con_cache=None, _x_run=None, recorders=c.obj(Rec, record_iteration=c.method(record)),
                      get_desvar_metadata=c.method(lambda: c.obj(Vars, n=S.n, get=c.method(lambda k: c.odict([('size', S.size(k))])))),
                      set_desvar=c.method(put), get_objectives=c.method(read(c.odict([('f', S.f)] + ([('h', 1.5)] if case else [])))), get_constraints=c.method(read(S.con)))
        S.args = (S.drv, S.x)
        return S

    def uses(self, c, S):
        return {'update_local_meta': c.model(lambda m, it: None)}

    def patches(self, c, S):
        return [(module, 'update_local_meta', lambda m, it: None)]

    def loopspecs(self, c, S):
        inv = lambda L, k, S_: [('set so far', And(c.eq(c.attr(S.box, 'count'), k), c.eq(c.attr(S.box, 'runs'), 0))), ('position', c.eq(L.i, S.off(k)))]
        return {('Vars.items', 0): LoopSpec(inv=inv), ('Vars.__iter__', 0): LoopSpec(inv=inv)}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('the objective', c.eq(out.value, S.f))
        c.check('the model runs once', And(c.eq(c.attr(S.box, 'runs'), 1), c.eq(c.attr(S.box, 'recorded'), 1)))
        c.check('the point stays', c.eq(S.x, S.x0))


LIMITS = ('lower', 'upper', 'both', 'equals')
BOUNDED = ('L-BFGS-B', 'TNC', 'SLSQP')
GRADIENTS = ('CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'SLSQP')


class Declared(Contract):
    """the whole problem handed over: start, bounds, objective, gradients and constraints, each constraint positive exactly when its limit
    holds with its own gradient (one or two design variables and up to two constraints, each of any size)"""
    prop = 'C18'
    target = M + 'run'
    cases = tuple([('SLSQP', d, a) for d in (1, 2) for a in [()] + [(k,) for k in LIMITS] + [('both', 'lower'), ('upper', 'both'), ('equals', 'both'), ('lower', 'upper')]] +
                  [('COBYLA', 2, ('both', 'lower')), ('COBYLA', 1, ('upper',))] +
                  [(o, 2, ()) for o in ('L-BFGS-B', 'TNC', 'BFGS', 'CG', 'Newton-CG', 'Nelder-Mead', 'Powell')])
    weight = 3

    def build(self, c, case):
        opt, nd, kinds = case
        S = NS(opt=opt, dv=[], con=[])
        pos = 0
        for i, n in enumerate(('x', 'z')[:nd]):
            v = NS(name=n, size=c.int('size ' + n, 0, small=3), pos=pos)
            v.val = c.array('value ' + n, v.size)
            # each limit is a number or an array
            v.lim = []
            for w in ('lower', 'upper'):
                a = (i == 0) == (w == 'lower')
                l = c.array('%s %s' % (w, n), v.size) if a else c.real('%s %s' % (w, n))
                v.lim.append((l, self.reader(c, l, a)))
            pos = pos + v.size
            S.dv.append(v)
        S.N = pos
        S.R, S.row = 1, {'f': 0}
        for i, (n, k) in enumerate(zip(('g', '2h'), kinds)):
            v = NS(name=n, kind=k, size=c.int('size ' + n, 0, small=3), first=S.R)
            v.val = c.array('value ' + n, v.size)
            v.read = self.reader(c, v.val, True)
            v.lim = {}
            for j, w in enumerate({'both': ('lower', 'upper')}.get(k, (k,))):
                a = (i + j) % 2 == 0
                l = c.array('%s %s' % (w, n), v.size) if a else c.real('%s %s' % (w, n))
                v.lim[w] = (l, self.reader(c, l, a))
            S.R = S.R + v.size
            S.con.append(v)
        S.f = c.real('f')
        S.jac = c.array('jac', (S.R, S.N))
        S.jac0 = c.snap(S.jac)
        S.box = c.obj(Box, runs=0, calls=0, set_x=None, set_z=None)

        def solve(metadata=None):
            c.put_attr(S.box, 'runs', c.attr(S.box, 'runs') + 1)
        S.root = c.obj(Group, pathname='', _dircontext=c.obj(Ctx), solve_nonlinear=c.method(solve))

        def put(name, value, index=None):
            c.put_attr(S.box, 'set_' + name, c.snap(value))

        def gradient(indep_list, unknown_list, mode='auto', return_format='array', sparsity=None, inactives=None):
            c.check('derivatives of the objective and the constraints by the design variables, as an array',
                    And(c.keys_(indep_list) == [v.name for v in S.dv], c.keys_(unknown_list) == ['f'] + [v.name for v in S.con], return_format == 'array'))
            return S.jac
        S.drv = c.obj(ScipyOptimizer, options=c.odict([('optimizer', opt), ('tol', c.real('tol')), ('maxiter', c.int('maxiter', 0)), ('disp', False)]),
                      opt_settings=c.odict([]), metadata=None, iter_count=0, root=S.root, recorders=c.obj(Rec), con_idx=c.odict([]), con_cache=None, grad_cache=None, _x_run=None,
                      params=None, objs=None, cons=None, _problem=None, result=None, exit_flag=0,
                      _desvars=c.odict([(v.name, c.odict([('size', v.size), ('lower', v.lim[0][0]), ('upper', v.lim[1][0])])) for v in S.dv]),
                      _objs=c.odict([('f', c.odict([('size', 1)]))]),
                      _cons=c.odict([(v.name, c.odict([('size', v.size)] + [(w, v.lim[w][0] if w in v.lim else None) for w in ('lower', 'upper', 'equals')])) for v in S.con]),
                      get_desvars=c.method(lambda: c.odict([(v.name, v.val) for v in S.dv])), get_objectives=c.method(lambda: c.odict([('f', S.f)])),
                      get_constraints=c.method(lambda: c.odict([(v.name, v.val) for v in S.con])), set_desvar=c.method(put), calc_gradient=c.method(gradient))
        S.args = (S.drv, c.obj(Box, root=S.root))
        # what is expected: the elements in order
        S.seg, at = [], 0
        if opt in ('SLSQP', 'COBYLA'):
            for v in S.con:
                for i, w in enumerate(('lower', 'upper') if v.kind == 'both' else (v.kind,)):
                    S.seg.append(NS(v=v, w=w, first=at, name=('2bl-' if i else '') + v.name))
                    at = at + v.size
        S.total = at
        return S

    def reader(self, c, l, array):
        if not array:
            return lambda j: l
        l0 = c.snap(l)
        return lambda j: c.at(l0, j)

    def uses(self, c, S):
        return {'update_local_meta': c.model(lambda m, it: None), 'create_local_meta': c.model(lambda m, n: c.dict([]))}

    def overrides(self, c, S):
        return {'minimize': c.model(self.minimize(c, S), 'minimize')}

    def patches(self, c, S):
        return [(module, 'update_local_meta', lambda m, it: None), (module, 'create_local_meta', lambda m, n: {}), (module, 'minimize', self.minimize(c, S))]

    def loopspecs(self, c, S):
        start = {}

        def grows(which):
            def inv(L, k, S_):
                n = c.len(getattr(L, which))
                if isinstance(k, int) and k == 0:
                    start[which] = n
                return [('one entry for each element', c.eq(n, start[which] + k))]
            return inv

        def bound(i):
            for v in S.dv:
                if v is S.dv[-1] or i < v.pos + v.size:
                    return v, i - v.pos

        def pair(i):
            v, j = bound(i)
            return (v.lim[0][1](j), v.lim[1][1](j))

        def seg(i):
            for s in S.seg:
                if s is S.seg[-1] or i < s.first + s.v.size:
                    return s, i - s.first

        def entry(i):
            s, j = seg(i)
            return c.odict([('type', 'eq' if s.w == 'equals' else 'ineq'), ('fun', c.bound(S.drv, '_confunc'))] +
                           ([('jac', c.bound(S.drv, '_congradfunc'))] if S.opt == 'SLSQP' else []) + [('args', c.list([s.name, j]))])

        def is_entry(d, i):
            s, j = seg(i)
            a = c.item(d, 'args')
            return [('constraint entry', And(c.item(d, 'type') == ('eq' if s.w == 'equals' else 'ineq'), c.same(c.item(d, 'fun'), c.bound(S.drv, '_confunc')),
                                             Iff(c.has(d, 'jac'), S.opt == 'SLSQP'), c.has(d, 'jac') is False or c.same(c.item(d, 'jac'), c.bound(S.drv, '_congradfunc')),
                                             len(c.keys_(a)) == 2, c.at(a, 0) == s.name, c.eq(c.at(a, 1), j)))]
        same = lambda v, i: [('bounds entry', And(len(v) == 2, c.eq(v[0], pair(i)[0]), c.eq(v[1], pair(i)[1])))]
        b = LoopSpec(inv=grows('bounds'), contents={'bounds': (pair, same)})
        k = LoopSpec(inv=grows('constraints'), contents={'constraints': (entry, is_entry)})
        return {2: b, 4: k, 5: k}

    def minimize(self, c, S):
        def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
            c.put_attr(S.box, 'calls', c.attr(S.box, 'calls') + 1)
            opts = c.attr(S.drv, 'options')
            c.check('the method, tolerance and iteration limit asked for', And(method == S.opt, c.eq(tol, c.item(opts, 'tol')), c.eq(c.item(options, 'maxiter'), c.item(opts, 'maxiter'))))
            c.check('the model has run before', c.attr(S.box, 'runs') >= 1)
            c.check('one number for each element', c.eq(c.len(x0), S.N))
            for v in S.dv:
                c.check('the start is the initial design', c.forall(0, v.size, lambda j: c.eq(c.at(x0, v.pos + j), c.at(v.val, j))))
            if S.opt in BOUNDED:
                c.check('one pair of bounds for each element', c.eq(c.len(bounds), S.N))
                for v in S.dv:
                    j = self.some(c, 'j of ' + v.name, v.size)
                    if j is not None:
                        p = c.at(bounds, v.pos + j)
                        p = p if isinstance(p, tuple) else tuple(c.keys_(p))
                        c.check('bounds are the declared ones', And(len(p) == 2, c.eq(p[0], v.lim[0][1](j)), c.eq(p[1], v.lim[1][1](j))))
            x = c.array('x', S.N)
            r0 = c.attr(S.box, 'runs')
            c.check('the objective', c.eq(c.call(fun, x), S.f))
            c.check('the model runs', c.attr(S.box, 'runs') > r0)
            for v in S.dv:
                got = c.attr(S.box, 'set_' + v.name)
                c.check('at the point asked for', And(c.eq(c.len(got), v.size), c.forall(0, v.size, lambda j: c.eq(c.at(got, j), c.at(x, v.pos + j)))))
            c.check('a gradient where one is wanted', Iff(jac is not None, S.opt in GRADIENTS))
            if jac is not None:
                g = c.call(jac, x)
                c.check('the gradient of the objective', And(c.eq(c.len(g), S.N), c.forall(0, S.N, lambda p: c.eq(c.at(g, p), c.at(S.jac0, 0, p)))))
                # anywhere else, the gradient is that of the model there
                y = c.array('y', S.N)
                c.call(jac, y)
                for v in S.dv:
                    got = c.attr(S.box, 'set_' + v.name)
                    c.check('a gradient is that of the model at the point asked for', c.forall(0, v.size, lambda j: c.eq(c.at(got, j), c.at(y, v.pos + j))))
                c.call(fun, x)
                c.call(jac, x)
            c.check('one constraint for each limit of each element', c.eq(c.len(constraints), S.total))
            if S.total is 0:
                return c.obj(Box, success=True)
            if c.sym:
                for s in S.seg:
                    j = self.some(c, 'j of %s %s' % (s.v.name, s.w), s.v.size)
                    if j is not None:
                        c.check('a constraint is positive exactly when its limit holds, with its own gradient', self.fits(c, S, s, j, c.at(constraints, s.first + j), x))
            else:
                left = list(constraints)
                for s in S.seg:
                    for j in range(s.v.size):
                        hit = [k for k, d in enumerate(left) if self.fits(c, S, s, j, d, x)]
                        c.check('a constraint is positive exactly when its limit holds, with its own gradient', bool(hit))
                        if hit:
                            left.pop(hit[0])
            return c.obj(Box, success=True)
        return minimize

    def some(self, c, name, n):
        """an arbitrary index below n"""
        if c.sym:
            j = c.int(name)
            c.assume(And(0 <= j, j < n))
            return j
        return c.idx(name, n) if n > 0 else None

    def fits(self, c, S, s, j, d, x):
        a = c.keys_(c.item(d, 'args'))
        v = c.call(c.item(d, 'fun'), x, *a)
        y, l = s.v.read(j), s.v.lim[s.w][1](j)
        signs = {'lower': (1,), 'upper': (-1,), 'equals': (1, -1)}[s.w]
        g = c.call(c.item(d, 'jac'), x, *a) if S.opt == 'SLSQP' else None
        row = s.v.first + j
        ways = [And(c.eq(v, (y - l) * q), g is None or And(c.eq(c.len(g), S.N), c.forall(0, S.N, lambda p: c.eq(c.at(g, p), c.at(S.jac0, row, p) * q)))) for q in signs]
        return And(c.item(d, 'type') == ('eq' if s.w == 'equals' else 'ineq'), Or(*ways))

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            c.check('the optimizer is called once', c.eq(c.attr(S.box, 'calls'), 1))
