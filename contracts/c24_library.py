"""C24: library components (openmdao/components/{exec_comp,constraint,linear_system}.py).

What an expression computes is arbitrary: the exec statement is a stub that reads and writes the mapping it is given.
To first order the result for a complex input is that of the derivative (assumed: the expression is analytic and the
step small)."""
import itertools
from pyvc.contract import *
from openmdao.components.exec_comp import ExecComp
from openmdao.components.linear_system import LinearSystem
import openmdao.components.exec_comp as exec_module

M = 'openmdao.components.'


class Box(object):
    """stands for anything with attributes"""


class Expressions(ExecComp):
    """computes anything"""
    def solve_nonlinear(self, params, unknowns, resids):
        r = self.compute([params[n] for n in self.names], unknowns['y'])
        unknowns['y'] = r[0]
        unknowns['z'] = r[1]
        unknowns['o'] = r[2]


def re(z):
    return z.re if hasattr(z, 're') else getattr(z, 'real', z)


def im(z):
    return z.im if hasattr(z, 'im') else getattr(z, 'imag', 0.0)


def cplx(c, n, f, g):
    """the complex array of n elements f(i) + j g(i); n None: a number"""
    if c.sym:
        from pyvc.core import SComplex
        return SComplex(f(0), g(0)) if n is None else c.arr(n, lambda i: SComplex(f(i), g(i)), 'complex')
    import numpy as np
    return complex(f(0), g(0)) if n is None else np.array([complex(f(i), g(i)) for i in range(n)])


class Derivatives(Contract):
    """every column is the derivative by that element; nothing is changed"""
    prop = 'C24'
    target = M + 'exec_comp:ExecComp.linearize'
    # x of one dimension, or (X) of any number of rows of three; s a number
    cases = (('x',), ('s',), ('x', 's'), ('s', 'x'), ('X', 'x'), ('X', 's', 'x'))
    weight = 2

    def build(self, c, case):
        S = NS(params=tuple(v for v in case if v != 'X'))
        two = 'X' in case
        case = S.params
        n, m = S.n, S.m = c.int('n', 0, small=2), c.int('m', 0)
        rows = n
        if two:
            n = S.n = 3 * n
        flat = S.flat = c.flat if two else (lambda v: v)
        S.h = c.real('step', lo=0.0, pool=[0.5, 0.125, 1e-6, 1e-20])
        c.assume(S.h > 0)
        S.x, S.s = c.array('x', (rows, 3) if two else n), c.real('s')
        S.y, S.z = c.array('y', m), c.real('z')
        S.x0, S.y0 = c.snap(S.x), c.snap(S.y)
        S.D = {('y', 'x'): c.array('Dyx', (m, n)), ('y', 's'): c.array('Dys', (m, 1)), ('z', 'x'): c.array('Dzx', (1, n)), ('z', 's'): c.array('Dzs', (1, 1))}
        S.rows, S.cols = {'y': m, 'z': 1}, {'x': n, 's': 1}
        S.p = c.odict([(v, {'x': S.x, 's': S.s}[v]) for v in case])
        S.o = c.obj(Box)
        S.u = c.odict([('y', S.y), ('o', S.o), ('z', S.z)])

        def compute(got, y):
            got = dict(zip(case, c.keys_(got)))
            if 'x' in case:
                x = flat(got['x'])
                c.check('the value of x', c.forall(0, n, lambda i: c.eq(re(c.at(x, i)), c.at(S.flat(S.x0), i))))
            if 's' in case:
                s = got['s']
                c.check('the value of s', c.eq(re(s), S.s))
            c.check('the value of y', c.forall(0, m, lambda i: And(c.eq(re(c.at(y, i)), c.at(S.y0, i)), c.eq(im(c.at(y, i)), 0.0))))
            # where the step was taken
            j, d = 0, 0.0
            if 'x' in case:
                if c.sym:
                    j = c.int('stepped', 0)
                    c.assume(Or(And(j < n, Not(c.eq(im(c.at(x, j)), 0.0))), c.forall(0, n, lambda i: c.eq(im(c.at(x, i)), 0.0))))
                elif n:
                    import numpy as np
                    j = int(np.argmax(np.abs(np.imag(x))))
                c.check('one step at a time', c.forall(0, n, lambda i: Or(c.eq(i, j), c.eq(im(c.at(x, i)), 0.0))))
                if 's' in case:
                    c.check('one step at a time', Or(c.eq(im(s), 0.0), c.forall(0, n, lambda i: c.eq(im(c.at(x, i)), 0.0))))
                d = c.ite(j < n, lambda: im(c.at(x, j)), lambda: 0.0)
            res = []
            for u, k in (('y', m), ('z', None)):
                D = S.D

                def val(i, u=u):
                    t = 0.0
                    if 's' in case:
                        t = t + c.at(D[u, 's'], i, 0) * im(s)
                    if 'x' in case:
                        t = t + c.ite(j < n, lambda: c.at(D[u, 'x'], i, j) * d, lambda: 0.0)
                    return t
                r = c.array('R', m) if k is not None else c.real('R')
                res.append(cplx(c, k, (lambda i, r=r: c.at(r, i)) if k is not None else (lambda i, r=r: r), val))
            return res[0], res[1], c.obj(Box)
        S.comp = c.obj(Expressions, complex_stepsize=S.h, _non_pbo_unknowns=['y', 'z'], pathname='c', names=list(case), compute=c.method(compute))
        S.args = (S.comp, S.p, S.u, c.odict([]))
        return S

    @staticmethod
    def program(comp, p, u, r):
        return comp.linearize(p, u, r)

    def unchanged(self, c, S):
        out = [('y is as before', And(c.item(S.u, 'y') is S.y or c.eq(c.item(S.u, 'y'), S.y0), c.eq(S.y, S.y0))), ('the object is as before', c.same(c.item(S.u, 'o'), S.o)),
               ('z is as before', c.eq(c.item(S.u, 'z'), S.z))]
        if 'x' in S.params:
            out.append(('x is as before', And(c.eq(S.x, S.x0), c.eq(c.item(S.p, 'x'), S.x0))))
        if 's' in S.params:
            out.append(('s is as before', c.eq(c.item(S.p, 's'), S.s)))
        return out

    def columns(self, c, S, J, k, p='x'):
        return [('columns of %s so far' % u, c.forall(0, k, lambda j, u=u: c.forall(0, S.rows[u], lambda i: c.eq(c.at(c.item(J, (u, p)), i, j), c.at(S.D[u, p], i, j)))))
                for u in 'yz']

    def loopspecs(self, c, S):
        def hint():
            have = [(u, p) for p in S.params[:S.params.index('x')] for u in 'yz']
            if c.flag('some'):
                have += [('y', 'x'), ('z', 'x')]
            return c.odict([(k, c.array('J', (S.rows[k[0]], S.cols[k[1]]))) for k in have])

        def inv(L, k, S_):
            J = L.J
            some = c.has(J, ('y', 'x'))
            out = [('entries once there is a column', Iff(some, k > 0))]
            if some is True:
                out += self.columns(c, S, J, k)
            for p in S.params[:S.params.index('x')]:
                out += self.columns(c, S, J, 1, p)
            v = c.attr(L.pwrap, '_changed')
            x = S.flat(c.item(v, 'x'))
            out.append(('the step is taken back', c.forall(0, S.n, lambda i: And(c.eq(re(c.at(x, i)), c.at(S.flat(S.x0), i)), c.eq(im(c.at(x, i)), 0.0)))))
            return out
        return {1: LoopSpec(inv=inv, hints={'J': hint})} if 'x' in S.params else {}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        for t, f in self.unchanged(c, S):
            c.check(t, f)
        J = out.value
        for u, p in itertools.product('yz', S.params):
            some = c.has(J, (u, p))
            c.check('an entry for every pair, unless the param is empty', Or(some, c.eq(S.cols[p], 0)))
            if some is True:
                c.check('shape', And(c.eq(c.dim(c.item(J, (u, p)), 0), S.rows[u]), c.eq(c.dim(c.item(J, (u, p)), 1), S.cols[p])))
                for t, f in self.columns(c, S, J, S.cols[p], p):
                    c.check(t, f)


class Executed(Contract):
    """each statement is executed once, in order, on the values of params and earlier results, and what it assigns is what the unknowns then hold"""
    prop = 'C24'
    target = M + 'exec_comp:ExecComp.solve_nonlinear'
    cases = (('plain', 2), ('colon', 2), ('plain', 3))

    def build(self, c, case):
        S = NS(kind=case[0])
        S.n = case[1]
        colon = S.kind == 'colon'
        x, y, z = ('a:x', 'b:y', 'z') if colon else ('x', 'y', 'z')
        S.names = x, y, z
        nice = lambda v: v.replace(':', '0')
        S.x, S.q = c.array('x', c.int('n', 0)), c.real('q')
        S.x0 = c.snap(S.x)
        S.p = c.odict([(x, S.x), ('q', S.q)])
        S.ghost = c.obj(Box, k=0)
        S.vals = [c.array('v%d' % i, c.int('m%d' % i, 0)) for i in range(S.n)]
        # the last of three statements gives y a new value
        S.into = (y, z, y)[:S.n]
        S.u = c.odict([(y, c.array('y', 2)), (z, c.array('z', 2))])
        S.codes = [c.obj(Box, no=i) for i in range(S.n)]

        def seen(code, glob, gx, gq, gy):
            k = c.attr(S.ghost, 'k')
            c.check('statements run in order, once each', And(k < S.n, c.same(code, S.codes[min(k, S.n - 1)])))
            c.put_attr(S.ghost, 'k', k + 1)
            c.check('functions are those of expressions', c.same(glob, exec_module._expr_dict) if not c.sym else True)
            c.check('params have their values', And(c.eq(gx, S.x0), c.eq(gq, S.q)))
            c.check('earlier results can be used', c.same(gy, S.vals[0]) if k > 0 else True)
            return S.vals[k]
        S.target_of = lambda k: nice(S.into[k])
        S.locals = nice(x), nice(y)
        S.runner = c.obj(Runner, seen=c.method(seen), names=(nice(x), 'q', nice(y)), into=[nice(v) for v in S.into], ghost=S.ghost)
        S.comp = c.obj(ExecComp, _codes=S.codes, _to_colons=c.dict([(nice(v), v) for v in (x, y, z, 'q')]), pathname='c')
        S.args = (S.comp, S.p, S.u, c.odict([]))
        return S

    def uses(self, c, S):
        return {}

    def overrides(self, c, S):
        return {'exec': c.model(lambda code, glob, loc: c.call(c.bound(S.runner, 'run'), code, glob, loc), 'exec')}

    def patches(self, c, S):
        return [(exec_module, 'exec', lambda code, glob, loc: S.runner.run(code, glob, loc))]

    @staticmethod
    def program(comp, p, u, r):
        comp.solve_nonlinear(p, u, r)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('every statement has run', c.eq(c.attr(S.ghost, 'k'), S.n))
        last = {v: k for k, v in enumerate(S.into)}
        c.check('no variables are added', And(c.len(c.keys(S.u)) == 2, c.len(c.keys(S.p)) == 2))
        for v, k in last.items():
            c.check('the unknowns hold what was assigned', c.same(c.item(S.u, v), S.vals[k]))
        c.check('the params stay', And(c.eq(c.item(S.p, S.names[0]), S.x0), c.eq(c.item(S.p, 'q'), S.q)))


class Runner(object):
    """a statement that reads three variables and assigns one"""
    def run(self, code, glob, loc):
        k = self.ghost.k
        loc[self.into[k]] = self.seen(code, glob, loc[self.names[0]], loc[self.names[1]], loc[self.names[2]])


def linear(c, kind='fwd'):
    n = c.int('n', 1)
    A = c.array('A', (n, n))
    if not c.sym:
        import numpy as np
        A += 10.0 * (n + 1) * np.eye(n)
    return NS(n=n, A=A, b=c.array('b', n), x=c.array('x', n))


class Factored(object):
    """stands for the factors of a matrix"""


class Solves(Contract):
    """the state solves the system, and no residual is left"""
    prop = 'C24'
    target = M + 'linear_system:LinearSystem.solve_nonlinear'

    def build(self, c, case):
        S = linear(c)
        S.A0, S.b0 = c.snap(S.A), c.snap(S.b)
        S.p = c.odict([('A', S.A), ('b', S.b)])
        S.u, S.r = c.odict([('x', S.x)]), c.odict([('x', c.array('r', S.n))])
        S.comp = c.obj(LinearSystem, size=S.n, lup=c.choice('lup', (None, 'old')), rhs_cache=None)
        S.args = (S.comp, S.p, S.u, S.r)
        return S

    def overrides(self, c, S):
        return lu(c)

    @staticmethod
    def program(comp, p, u, r):
        comp.solve_nonlinear(p, u, r)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        x, r = c.item(S.u, 'x'), c.item(S.r, 'x')
        y = c.dot(S.A0, x)
        c.check('the state solves the system', c.forall(0, S.n, lambda i: c.eq(c.at(y, i), c.at(S.b0, i))))
        c.check('no residual is left', c.forall(0, S.n, lambda i: c.eq(c.at(r, i), 0.0)))
        c.check('the params stay', And(c.eq(c.item(S.p, 'A'), S.A0), c.eq(c.item(S.p, 'b'), S.b0)))


def lu(c):
    """assumed: scipy's factors of a matrix solve it, and its transpose"""
    def factor(a, *args, **kw):
        return c.obj(Factored, of=c.snap(a))

    def solve(f, b, trans=0, *args, **kw):
        a = c.attr(f, 'of')
        a = a if trans == 0 else c.T(a)
        n = c.dim(b, 0)
        x = c.array('sol', n)
        y, b0 = c.dot(a, x), c.snap(b)
        c.assume(c.forall(0, n, lambda i: c.eq(c.at(y, i), c.at(b0, i))))
        return x
    return {'linalg': c.obj(Box, lu_factor=c.method(factor), lu_solve=c.method(solve))}


class Residual(Contract):
    """the residual is that of the system"""
    prop = 'C24'
    target = M + 'linear_system:LinearSystem.apply_nonlinear'

    def build(self, c, case):
        S = linear(c)
        S.A0, S.b0, S.x0 = c.snap(S.A), c.snap(S.b), c.snap(S.x)
        S.p = c.odict([('A', S.A), ('b', S.b)])
        S.u, S.r = c.odict([('x', S.x)]), c.odict([('x', c.array('r', S.n))])
        S.comp = c.obj(LinearSystem, size=S.n, lup=c.choice('lup', (None, 'old')), rhs_cache=None)
        S.args = (S.comp, S.p, S.u, S.r)
        return S

    @staticmethod
    def program(comp, p, u, r):
        comp.apply_nonlinear(p, u, r)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        y, r = c.dot(S.A0, S.x0), c.item(S.r, 'x')
        c.check('the residual is A x - b', c.forall(0, S.n, lambda i: c.eq(c.at(r, i), c.at(y, i) - c.at(S.b0, i))))
        c.check('values stay', And(c.eq(c.item(S.p, 'A'), S.A0), c.eq(c.item(S.p, 'b'), S.b0), c.eq(c.item(S.u, 'x'), S.x0)))


class Tangent(Contract):
    """the linearized residual is the derivative of A x - b in the direction given"""
    prop = 'C24'
    target = M + 'linear_system:LinearSystem.apply_linear'
    cases = tuple(s for k in range(1, 4) for s in itertools.combinations('Abx', k))

    def build(self, c, case):
        S = linear(c)
        S.case = case
        S.A0, S.x0 = c.snap(S.A), c.snap(S.x)
        S.d = {'A': c.array('dA', (S.n, S.n)), 'b': c.array('db', S.n), 'x': c.array('dx', S.n)}
        S.d0 = {k: c.snap(v) for k, v in S.d.items()}
        S.dr = c.array('dr', S.n)
        S.dr0 = c.snap(S.dr)
        S.p, S.u = c.odict([('A', S.A), ('b', S.b)]), c.odict([('x', S.x)])
        S.dp, S.du, S.drd = c.odict([(v, S.d[v]) for v in 'Ab' if v in case]), c.odict([('x', S.d['x'])] if 'x' in case else []), c.odict([('x', S.dr)])
        S.comp = c.obj(LinearSystem, size=S.n, lup=None, rhs_cache=None)
        S.args = (S.comp, S.p, S.u, S.dp, S.du, S.drd)
        return S

    @staticmethod
    def program(comp, p, u, dp, du, dr):
        comp.apply_linear(p, u, dp, du, dr, 'fwd')

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        ax, xa = c.dot(S.A0, S.d0['x']), c.dot(S.d0['A'], S.x0)
        r = c.item(S.drd, 'x')

        def want(i):
            v = c.at(S.dr0, i)
            if 'x' in S.case:
                v = v + c.at(ax, i)
            if 'A' in S.case:
                v = v + c.at(xa, i)
            if 'b' in S.case:
                v = v - c.at(S.d0['b'], i)
            return v
        c.check('the derivative is added', c.forall(0, S.n, lambda i: c.eq(c.at(r, i), want(i))))
        for v in S.case:
            c.check('what is given stays', c.eq(S.d[v], S.d0[v]))


class Linear(Contract):
    """the linear problem of the component, forward or in reverse, is solved for every quantity of interest"""
    prop = 'C24'
    target = M + 'linear_system:LinearSystem.solve_linear'
    cases = tuple(itertools.product(('fwd', 'rev'), ((None,), ('v', 'w')), ('new', 'old')))

    def build(self, c, case):
        mode, vois, cache = case
        S = linear(c)
        S.mode, S.vois = mode, vois
        S.b0 = {v: c.array('rhs', S.n) for v in vois}
        S.start = {v: c.snap(S.b0[v]) for v in vois}
        S.sol = c.odict([(v, c.odict([('x', c.array('was', S.n))])) for v in vois + ('other',)])
        S.rhs = c.odict([(v, c.odict([('x', S.b0[v])])) for v in vois])
        S.params = c.odict([('A', S.A), ('b', S.b)])
        du, dr = (S.sol, S.rhs) if mode == 'fwd' else (S.rhs, S.sol)
        S.comp = c.obj(LinearSystem, size=S.n, lup=None, rhs_cache=None if cache == 'new' else c.array('cache', S.n), dumat=du, drmat=dr)
        S.was = c.item(c.item(S.sol, 'other'), 'x')
        S.args = (S.comp, S.params, c.odict([('x', S.x)]), c.odict([('x', c.array('r', S.n))]), du, dr, list(vois), mode)
        return S

    def overrides(self, c, S):
        return lu(c)

    @staticmethod
    def program(comp, p, u, r, du, dr, vois, mode):
        comp.solve_nonlinear(p, u, r)
        comp.solve_linear(du, dr, vois, mode=mode)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        A = S.A if S.mode == 'fwd' else c.T(S.A)
        for v in S.vois:
            y = c.dot(A, c.item(c.item(S.sol, v), 'x'))
            c.check('the linear system is solved', c.forall(0, S.n, lambda i, y=y, v=v: c.eq(c.at(y, i), c.at(S.start[v], i))))
            c.check('the right hand side stays', c.eq(c.item(c.item(S.rhs, v), 'x'), S.start[v]))
        c.check('nothing else is solved for', c.same(c.item(c.item(S.sol, 'other'), 'x'), S.was))


class Absolute(Contract):
    """the absolute value, and its derivative to first order"""
    prop = 'C24'
    target = M + 'exec_comp:_cs_abs'
    cases = ('real', 'complex')

    def build(self, c, case):
        S = NS(case=case, v=c.real('v'), d=c.real('d'))
        S.args = (cplx(c, None, lambda i: S.v, lambda i: S.d) if case == 'complex' else S.v,)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('the absolute value', c.eq(re(out.value), c.ite(S.v < 0, -S.v, S.v)))
        if S.case == 'complex':
            c.check('its derivative', Or(c.eq(S.v, 0.0), c.eq(im(out.value), c.ite(S.v < 0, -S.d, S.d))))
