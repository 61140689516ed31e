"""C10: linear solvers (openmdao/solvers/{ln_gauss_seidel,ln_direct,scipy_gmres,solver_base}.py and Group.solve_linear).

The operators of the subsystems are arbitrary matrices of arbitrary sizes: A_a and A_b on the diagonal, K from the
unknowns of one subsystem into the residuals of the other. Solving a subsystem, applying it and transferring data between
subsystems are stubs with the behaviour that C02, C03 and (one level down) this very property give them; what they
are allowed to overwrite is given any value."""
import itertools
from pyvc.contract import *
from openmdao.core.system import AnalysisError
from openmdao.core.component import Component
from openmdao.core.group import Group
from openmdao.solvers.ln_gauss_seidel import LinearGaussSeidel
from openmdao.solvers.ln_direct import DirectSolver
from openmdao.solvers.scipy_gmres import ScipyGMRES
from openmdao.solvers.solver_base import MultLinearSolver
from contracts.c08_convergence import Ctx

M = 'openmdao.solvers.'


class Vec(object):
    """stands for a vector wrapper"""


class Box(object):
    """stands for anything with attributes"""


def solution(c, name, n, m, rhs, known=True):
    """any x with m x = rhs"""
    if c.sym:
        x = c.array(name, n)
        if not known:
            return x
        mx = c.dot(m, x)
        c.assume(c.forall(0, n, lambda i: c.eq(c.at(mx, i), c.at(rhs, i))))
        return x
    import numpy as np
    return np.linalg.solve(m, rhs)


def matrix(c, name, n):
    """any matrix that can be inverted"""
    m = c.array(name, (n, n))
    if not c.sym:
        import numpy as np
        m += (n + 1) * 10.0 * np.eye(n)
    return m


def no_options(c):
    no = c.model(lambda *a, **k: None, 'options')
    return {'OptionsDictionary.' + n: no for n in ('__init__', 'add_option', 'remove_option', '_add_deprecation', '__setitem__')}


class Sweep(Contract):
    """linear block Gauss-Seidel over two subsystems a and b: b depends on a and, in a cycle, a on b"""
    prop = 'C10'
    target = M + 'ln_gauss_seidel:LinearGaussSeidel.solve'
    cases = tuple(itertools.product(('fwd', 'rev'), ('once', 'acyclic', 'cyclic'), ((None,), ('x', 'y', 'x'), ('x', 'y', 'y'))))
    weight = 3
    rac = 60

    def uses(self, c, S):
        return no_options(c)

    def build(self, c, case):
        # of two quantities of interest the proof follows one (the last of the three), what happens to the other is arbitrary
        mode, kind, vois = case
        S = NS(mode=mode, kind=kind, vois=vois[:2], track=[vois[-1]] if c.sym else vois[:2])
        vois = S.vois
        fwd = mode == 'fwd'
        na, nb = S.na, S.nb = c.int('na', 1), c.int('nb', 1)
        n = S.n = na + nb
        S.A = {'a': matrix(c, 'A_a', na), 'b': matrix(c, 'A_b', nb)}
        S.K = {'b': c.array('K_b', (nb, na))}
        if kind == 'cyclic':
            S.K['a'] = c.array('K_a', (na, nb))
        S.size = {'a': na, 'b': nb}
        S.at = {'a': 0, 'b': na}
        S.other = {'a': 'b', 'b': 'a'}
        du, dr, dp, S.rhs0 = {}, {}, {}, {}
        rhs = []
        for v in vois:
            du[v] = c.obj(Vec, vec=c.array('du_%s' % v, n))
            dr[v] = c.obj(Vec, vec=c.array('dr_%s' % v, n))
            dp[v] = c.obj(Vec, vec=c.array('dp_%s' % v, n))       # the params of b (na of them), then those of a
            r = c.array('rhs_%s' % v, n)
            S.rhs0[v] = c.snap(r)
            rhs.append((v, r))
        S.du, S.dr, S.dp = du, dr, dp
        S.rhs = c.odict(rhs)
        S.rhsd = dict(rhs)
        S.atol, S.rtol = c.real('atol', lo=0.0, hi=0.99, pool=[0.0, 0.25, 0.5]), c.real('rtol', lo=0.0, hi=0.99, pool=[0.0, 0.25])
        S.maxiter = 1 if kind == 'once' else c.int('maxiter', 2)
        if not c.sym:
            c.assume(S.maxiter <= 4)
        S.err = c.bool('err_on_maxiter')
        opts = c.odict([('atol', S.atol), ('rtol', S.rtol), ('maxiter', S.maxiter), ('iprint', c.choice('iprint', [-1, 1, 2])),
                        ('err_on_maxiter', S.err)])
        S.clean = False
        S.last = S.normed = None
        part = lambda w, x: c.part(c.attr(w, 'vec'), S.at[x], S.size[x])
        pat = {'b': (0, na), 'a': (na, nb)}

        def put(w, start, n_, f):
            a = c.attr(w, 'vec')
            if c.sym:
                old = c.snap(a)
                new = c.arr(S.n, lambda i: c.ite(And(i >= start, i < start + n_), f(i - start), c.at(old, i)))
                a.assign(new)
            else:
                a[start:start + n_] = [f(i) for i in range(n_)]

        def clear():
            for v in vois:
                put(dp[v], 0, n, lambda i: 0.0)

        def transfer(name=None, mode='fwd', deriv=False, var_of_interest=None):
            v = var_of_interest
            c.check('data is transferred in the direction of the solve', And(mode == S.mode, deriv))
            # forward: into the params of name; reverse: out of the params that name feeds
            tgt = name if fwd else S.other[name]
            if tgt not in S.K:
                return
            o = S.other[tgt]
            p0, pn = pat[tgt]
            p = c.part(c.attr(dp[v], 'vec'), p0, pn)
            u = part(du[v], o)
            if fwd:
                put(dp[v], p0, pn, lambda i, u=u: c.at(u, i))
            else:
                put(du[v], S.at[o], S.size[o], lambda i, u=u, p=p: c.at(u, i) + c.at(p, i))

        def apply(x):
            def f(mode, do_apply, vois=(None,), gs_outputs=None, rel_inputs=None):
                c.check('%s is applied in the direction of the solve, without its own unknowns' % x, And(mode == S.mode, gs_outputs is S.gs[x]))
                for v in S.keys(c, vois):
                    if x in S.K:
                        p0, pn = pat[x]
                        if fwd:
                            y = c.dot(S.K[x], c.part(c.attr(dp[v], 'vec'), p0, pn)) if v in S.track else c.array('any', S.size[x])
                            put(dr[v], S.at[x], S.size[x], lambda i, y=y: c.at(y, i))
                        else:
                            y = c.dot(c.T(S.K[x]), part(dr[v], x)) if v in S.track else c.array('any', pn)
                            put(dp[v], p0, pn, lambda i, y=y: c.at(y, i))
                            put(du[v], S.at[x], S.size[x], lambda i: 0.0)
                    else:
                        put(dr[v] if fwd else du[v], S.at[x], S.size[x], lambda i: 0.0)
            return f
        S.keys = lambda c_, k: c.keys_(k) if c.sym else list(k)

        def solve(x):
            def f(dumat, drmat, vois, mode=None, solver=None, rel_inputs=None):
                c.check('%s is solved in the direction of the solve' % x, mode == S.mode)
                for v in S.keys(c, vois):
                    sol, w = (du, dr) if fwd else (dr, du)
                    if x in S.K and fwd:
                        p0, pn = pat[x]
                        # (within the subsystem nothing else may come in from outside)
                        pv = c.attr(dp[v], 'vec')
                        c.check('the params of %s are zero while it is solved' % x, c.forall(0, n, lambda i: c.eq(c.at(pv, i), 0.0)))
                    r = part(w[v], x)
                    m = S.A[x] if fwd else c.T(S.A[x])
                    y = solution(c, 'sol_%s' % x, S.size[x], m, r, v in S.track)
                    put(sol[v], S.at[x], S.size[x], lambda i, y=y: c.at(y, i))
                    z = c.array('work', S.size[x])
                    put(w[v], S.at[x], S.size[x], lambda i, z=z: c.at(z, i))
            return f
        sub = lambda x: c.obj(Box, name=x, _dircontext=c.obj(Ctx), is_active=c.method(lambda: True),
                              dumat=c.odict([(v, c.obj(Vec, vec=None)) for v in vois]), drmat=c.odict([(v, c.obj(Vec, vec=None)) for v in vois]),
                              _sys_apply_linear=c.method(apply(x)), solve_linear=c.method(solve(x)))
        subs = c.odict([(x, sub(x)) for x in 'ab'])
        S.gs = {'a': c.obj(Box), 'b': c.obj(Box)}
        gs = c.dict([('fwd', c.dict(list(S.gs.items()))), ('rev', c.dict(list(S.gs.items())))])

        def outputs(mode, vois):
            c.check('the outputs are asked for the direction of the solve', mode == S.mode)
            return gs

        def norm(system, mode, rhs_mat):
            c.check('the norm is that of the given right hand sides', And(mode == S.mode, c.same(rhs_mat, S.rhs)))
            S.normed = {v: c.snap(c.attr((du if fwd else dr)[v], 'vec')) for v in vois}
            S.last = c.real('norm', nan=True, lo=0.0, pool=[0.0, 0.25, 0.5, 1.0, 2.0])
            for v in vois:
                z = c.array('work', n)
                put((dr if fwd else du)[v], 0, n, lambda i, z=z: c.at(z, i))
            return S.last
        system = c.obj(Box, pathname='g', dumat=c.odict([(v, du[v]) for v in vois]), drmat=c.odict([(v, dr[v]) for v in vois]),
                       dpmat=c.odict([(v, dp[v]) for v in vois]), _subsystems=subs, _do_apply=c.obj(Box),
                       _probdata=c.obj(Box, relevance=c.obj(Box)), clear_dparams=c.method(clear), _transfer_data=c.method(transfer),
                       _get_gs_outputs=c.method(outputs))
        S.args = (opts, system, subs, S.rhs, mode, c.method(norm), c.method(lambda *a, **k: None), na, list(vois))
        return S

    @staticmethod
    def program(opts, system, subs, rhs, mode, norm, no_print, na, vois):
        s = LinearGaussSeidel()
        s.options = opts
        s._norm = norm
        s.print_norm = no_print
        s._vois = vois
        for v in vois:
            subs['a'].dumat[v].vec = system.dumat[v].vec[:na]
            subs['a'].drmat[v].vec = system.drmat[v].vec[:na]
            subs['b'].dumat[v].vec = system.dumat[v].vec[na:]
            subs['b'].drmat[v].vec = system.drmat[v].vec[na:]
        return s.solve(rhs, system, mode)

    def blocks(self, c, S, v, x):
        """the equations of the system without a cycle"""
        w = c.attr((S.du if S.mode == 'fwd' else S.dr)[v], 'vec')
        a, b = c.part(w, 0, S.na), c.part(w, S.na, S.nb)
        r = S.rhs0[v]
        if S.mode == 'fwd':
            ea = c.dot(S.A['a'], a)
            eb, k = c.dot(S.A['b'], b), c.dot(S.K['b'], a)
            return And(c.forall(0, S.na, lambda i: c.eq(c.at(ea, i), c.at(r, i))),
                       c.forall(0, S.nb, lambda i: c.eq(c.at(eb, i) + c.at(k, i), c.at(r, S.na + i))))
        eb = c.dot(c.T(S.A['b']), b)
        ea, k = c.dot(c.T(S.A['a']), a), c.dot(c.T(S.K['b']), b)
        return And(c.forall(0, S.nb, lambda i: c.eq(c.at(eb, i), c.at(r, S.na + i))),
                   c.forall(0, S.na, lambda i: c.eq(c.at(ea, i) + c.at(k, i), c.at(r, i))))

    def current(self, c, S):
        return And([c.eq(S.normed[v], c.attr((S.du if S.mode == 'fwd' else S.dr)[v], 'vec')) for v in S.vois])

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            it = c.attr(L.self, 'iter_count')
            if not isinstance(k, int) and not getattr(S, 'head', False):
                S.head = True
                S.last = L.f_norm
                S.normed = {v: c.snap(c.attr((S.du if S.mode == 'fwd' else S.dr)[v], 'vec')) for v in S.vois}
            out = [('sweeps are counted', c.eq(it, k)), ('never more than maxiter', it <= S.maxiter),
                   ('no norm yet', Or(Not(c.eq(k, 0)), c.eq(L.f_norm, 1.0))), ('the first norm', c.eq(L.f_norm0, 1.0)),
                   ('solutions are there after a sweep', Iff(c.eq(k, 0), len(c.keys(L.sol_buf)) == 0))]
            if S.kind != 'once':
                out += [('the norm is the last one', Or(c.eq(k, 0), lambda: c.eq(L.f_norm, S.last))),
                        ('the norm is that of the current solution', Or(c.eq(k, 0), lambda: self.current(c, S)))]
            else:
                out += [('one sweep suffices', Or(c.eq(k, 0), lambda: c.eq(L.f_norm, 0.0)))]
            if S.kind != 'cyclic':
                out += [('a sweep solves the system %s' % v, Or(c.eq(k, 0), lambda v=v: self.blocks(c, S, v, None))) for v in S.track]
            return out

        def buf():
            if c.flag('swept'):
                return c.odict([(v, c.attr((S.du if S.mode == 'fwd' else S.dr)[v], 'vec')) for v in S.vois])
            return c.odict([])
        return {1: LoopSpec(inv=inv, hints={'sol_buf': buf})}

    def ensures(self, c, S, out):
        for v in S.vois:
            c.check('the right hand side of %s is not altered' % v, c.eq(S.rhsd[v], S.rhs0[v]))
        if not out.ok:
            c.check('an error only if asked for and not converged', And(out.raised(AnalysisError), S.kind != 'once', S.err))
            if S.kind != 'once':
                c.check('it did not converge', Or(c.isnan(S.last), And(S.last > S.atol, S.last > S.rtol)))
            return
        if S.kind != 'once':
            c.check('no error only if it converged or errors are not asked for', Or(Not(S.err), S.last <= S.atol, S.last <= S.rtol))
        for v in S.vois:
            x = c.item(out.value, v)
            c.check('the solution of %s is that of the last sweep' % v, c.eq(x, c.attr((S.du if S.mode == 'fwd' else S.dr)[v], 'vec')))
            if S.kind != 'once':
                c.check('its norm has been taken (%s)' % v, self.current(c, S))
            if S.kind != 'cyclic' and v in S.track:
                c.check('the solution of %s satisfies the system' % v, self.blocks(c, S, v, None))


class Norm(Contract):
    """the convergence norm of linear Gauss-Seidel: of the operator applied to the solution minus the right hand sides"""
    prop = 'C10'
    target = M + 'ln_gauss_seidel:LinearGaussSeidel._norm'
    cases = tuple(itertools.product(('fwd', 'rev'), ((None,), ('x', 'y'))))

    def uses(self, c, S):
        return no_options(c)

    def build(self, c, case):
        mode, vois = case
        S = NS(mode=mode, vois=vois)
        n = S.n = c.int('n', 1)
        du, dr = {}, {}
        for d, nm in ((du, 'du'), (dr, 'dr')):
            for v in vois:
                d[v] = c.obj(Vec, vec=c.array('%s_%s' % (nm, v), n))
                c.put_attr(d[v], 'norm', c.method(lambda w=d[v]: c.norm(c.snap(c.attr(w, 'vec')))))
        S.rhs = {v: c.array('rhs_%s' % v, n) for v in vois}
        S.rhs0 = {v: c.snap(S.rhs[v]) for v in vois}
        S.sol = du if mode == 'fwd' else dr
        S.sol0 = {v: c.snap(c.attr(S.sol[v], 'vec')) for v in vois}
        S.ax = {v: c.array('ax_%s' % v, n) for v in vois}
        S.applied = 0

        def apply(mode, do_apply, vois=(None,), gs_outputs=None, rel_inputs=None):
            c.check('the whole operator is applied in the direction of the solve', And(mode == S.mode, gs_outputs is None, rel_inputs is None))
            S.applied += 1
            for v in (c.keys_(vois) if c.sym else list(vois)):
                c.check('to the solution of %s' % v, c.eq(c.attr(S.sol[v], 'vec'), S.sol0[v]))
                w = c.attr((dr if S.mode == 'fwd' else du)[v], 'vec')
                if c.sym:
                    w.assign(S.ax[v])
                else:
                    w[:] = S.ax[v]
        system = c.obj(Box, dumat=c.odict([(v, du[v]) for v in vois]), drmat=c.odict([(v, dr[v]) for v in vois]),
                       _do_apply=c.obj(Box), _sys_apply_linear=c.method(apply))
        S.args = (system, mode, c.odict([(v, S.rhs[v]) for v in vois]))
        return S

    @staticmethod
    def program(system, mode, rhs):
        return LinearGaussSeidel()._norm(system, mode, rhs)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('the operator is applied once', S.applied == 1)
        t = 0.0
        for v in S.vois:
            c.check('the right hand side of %s is not altered' % v, c.eq(S.rhs[v], S.rhs0[v]))
            c.check('the solution of %s is not altered' % v, c.eq(c.attr(S.sol[v], 'vec'), S.sol0[v]))
            x = c.norm(c.arr(S.n, lambda i, v=v: c.at(S.ax[v], i) - c.at(S.rhs0[v], i)))
            t = t + x * x
        c.check('the norm is that of the residuals', And(out.value >= 0, c.eq(out.value * out.value, t)))


class Mult(Contract):
    """the operator of the Krylov and direct solvers: the system's operator applied to the given vector alone"""
    prop = 'C10'
    target = M + 'solver_base:MultLinearSolver.mult'
    cases = tuple(itertools.product(('fwd', 'rev'), (None, 'x')))

    def uses(self, c, S):
        return no_options(c)

    def build(self, c, case):
        mode, v = case
        S = NS(mode=mode, v=v)
        n = S.n = c.int('n', 1)
        m = c.int('m', 1)
        S.A = c.array('A', (n, n))
        du, dr, dp = [c.obj(Vec, vec=c.array(x, k)) for x, k in (('du', n), ('dr', n), ('dp', m))]
        S.arg = c.array('arg', n)
        S.arg0 = c.snap(S.arg)
        S.clear = False

        def write(w, a):
            if c.sym:
                w.assign(a)
            else:
                w[:] = a

        def clear():
            write(c.attr(dp, 'vec'), c.arr(m, lambda i: 0.0))

        def apply(mode, do_apply, vois=(None,), gs_outputs=None, rel_inputs=None):
            c.check('the whole operator of the quantity of interest is applied', And(mode == S.mode, len(vois) == 1, c.at(vois, 0) == S.v, gs_outputs is None))
            c.check('for the inputs that are asked for', rel_inputs is S.rel)
            x, y = (du, dr) if mode == 'fwd' else (dr, du)
            a = c.dot(S.A if mode == 'fwd' else c.T(S.A), c.snap(c.attr(x, 'vec')))
            p, old = c.attr(dp, 'vec'), c.snap(c.attr(y, 'vec'))
            c.check('nothing comes in from outside', c.forall(0, m, lambda i: c.eq(c.at(p, i), 0.0)))
            write(c.attr(y, 'vec'), c.arr(n, lambda i: c.at(old, i) + c.at(a, i)))
        S.rel = c.obj(Box)
        system = c.obj(Box, dumat=c.odict([('y', None), (v, du)]), drmat=c.odict([('y', None), (v, dr)]), _do_apply=c.obj(Box),
                       clear_dparams=c.method(clear), _sys_apply_linear=c.method(apply))
        S.args = (system, mode, v, S.arg, S.rel)
        return S

    @staticmethod
    def program(system, mode, v, arg, rel):
        s = MultLinearSolver()
        s.system, s.mode, s.voi, s.rel_inputs = system, mode, v, rel
        return s.mult(arg)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('the vector is not altered', c.eq(S.arg, S.arg0))
        c.check('the operator applied to it', c.eq(out.value, c.dot(S.A if S.mode == 'fwd' else c.T(S.A), S.arg0)))


class Direct(Contract):
    """the direct solver, whatever it has kept from an earlier solve"""
    prop = 'C10'
    target = M + 'ln_direct:DirectSolver.solve'
    # quantities of interest ('x' and 'y' have all variables, 's' only some of them), those of the solve before and what
    # happened since, and how it solves
    cases = tuple((v, b, how) for v, how in itertools.product(((None,), ('x',), ('s',), ('s', 'x'), ('x', 'y')), ('LU', 'solve'))
                  for b in (None, (v, 'nothing'), (('x', 's'), 'new derivatives'), (('s',), 'nothing'), (('s', 'y'), 'other mode')))

    def uses(self, c, S):
        return no_options(c)

    def overrides(self, c, S):
        return {'lu_factor': c.model(lambda m: (m, c.obj(Box)), 'lu_factor'),
                'lu_solve': c.model(lambda lup, r: solution(c, 'x', c.len(r), lup[0], r), 'lu_solve'),
                'np': c.obj(Box, linalg=c.obj(Box, solve=c.method(lambda m, r: solution(c, 'x', c.len(r), m, r))))}

    def build(self, c, case):
        vois, before, how = case
        S = NS(vois=vois, before=before)
        S.mode = c.choice('mode', ['fwd', 'rev'])
        S.method = c.choice('method', ['MVP', 'assemble'])
        n = c.int('n', 2)
        k = c.int('k', 1)
        c.assume(k < n)
        S.size = {None: n, 'x': n, 'y': n, 's': k}

        def matrices():
            full, part = matrix(c, 'A', n), matrix(c, 'A_s', k)
            return {None: full, 'x': full, 'y': full, 's': part}
        S.A = {'fwd': matrices(), 'rev': matrices()}
        S.rhs = {v: c.array('rhs_%s' % v, S.size[v]) for v in vois}
        S.rhs0 = {v: c.snap(S.rhs[v]) for v in vois}
        vec = lambda nm: c.odict([(v, c.obj(Vec, vec=c.array('%s_%s' % (nm, v), S.size[v]))) for v in (None, 'x', 'y', 's')])

        def assemble(mode='fwd', method='assemble', mult=None, voi=None):
            c.check('the matrix is assembled as the options say', method == S.method)
            c.check('in the vectors of a quantity of interest that is solved for', voi in S.now)
            return S.A[mode][voi], None
        system = c.obj(Box, dumat=vec('du'), drmat=vec('dr'), _jacobian_changed=True, assemble_jacobian=c.method(assemble))
        first, S.now, mode1 = None, vois, S.mode
        if before is not None:
            S.now, what = before
            first = c.odict([(v, c.array('rhs1_%s' % v, S.size[v])) for v in S.now])
            if what == 'other mode':
                mode1 = {'fwd': 'rev', 'rev': 'fwd'}[S.mode]

            def since():
                S.now = vois
                if what == 'new derivatives':
                    S.A = {'fwd': matrices(), 'rev': matrices()}
                    c.put_attr(system, '_jacobian_changed', True)
        else:
            since = lambda: None
        S.args = (system, c.odict([(v, S.rhs[v]) for v in vois]), S.mode, first, mode1, c.method(since),
                  c.odict([('jacobian_method', S.method), ('solve_method', how)]))
        return S

    @staticmethod
    def program(system, rhs, mode, first, mode1, since, opts):
        s = DirectSolver()
        s.options = opts
        if first is not None:
            s.solve(first, system, mode1)
            since()
        return s.solve(rhs, system, mode)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        for v in S.vois:
            c.check('the right hand side of %s is not altered' % v, c.eq(S.rhs[v], S.rhs0[v]))
            y = c.dot(S.A[S.mode][v], c.item(out.value, v))
            c.check('the solution of %s satisfies the current system' % v, c.forall(0, S.size[v], lambda i: c.eq(c.at(y, i), c.at(S.rhs0[v], i))))


class Krylov(Contract):
    """what is handed to the Krylov method, and what is made of its answer (trusted: a zero code says the answer is a solution)"""
    prop = 'C10'
    target = M + 'scipy_gmres:ScipyGMRES.solve'
    cases = tuple(itertools.product(('fwd', 'rev'), ((None,), ('x', 'y')), (False, True), (0, 1, -1)))

    def uses(self, c, S):
        return no_options(c)

    def model(self, c, S):
        def gmres(A, b, x0=None, tol=1e-5, restart=None, maxiter=None, M=None, callback=None):
            v = S.todo.pop(0)
            c.check('the right hand side of %s' % v, c.eq(b, S.rhs0[v]))
            c.check('the options', And(c.eq(tol, S.tol), c.eq(maxiter, S.maxiter), c.eq(restart, S.restart)))
            # the operator it is given
            n = S.size[v]
            arg = c.array('arg', n)
            arg0 = c.snap(arg)
            y = c.call(A.matvec if not c.sym else c.attr(A, 'matvec'), arg)
            c.check('the operator of %s applied to a vector' % v, c.eq(y, c.dot(S.A[v], arg0)))
            c.check('has its size', And(c.eq(c.at(A.shape if not c.sym else c.attr(A, 'shape'), 0), n), c.eq(c.at(A.shape if not c.sym else c.attr(A, 'shape'), 1), n)))
            c.check('a preconditioner only if there is one', (M is not None) == S.precon)
            if M is not None:
                y = c.call(M.matvec if not c.sym else c.attr(M, 'matvec'), c.snap(arg0))
                c.check('the preconditioner solves its own system for the vector', c.forall(0, n, lambda i: c.eq(c.at(y, i), c.at(S.psol, i))))
                c.check('it is given that vector', c.eq(S.prhs, arg0))
            r = c.real('res', lo=0.0)
            for _ in range(2):
                c.call(callback, r)
            S.code = S.codes[v]
            S.x[v] = c.array('x', n)
            return c.snap(S.x[v]), S.code
        return gmres

    def overrides(self, c, S):
        return {'gmres': c.model(self.model(c, S), 'gmres'),
                'LinearOperator': c.model(lambda shape, matvec=None, dtype=None: c.obj(Box, shape=shape, matvec=matvec), 'LinearOperator')}

    def patches(self, c, S):
        import openmdao.solvers.scipy_gmres as m
        return [(m, 'gmres', self.model(c, S))]

    def build(self, c, case):
        mode, vois, precon, code = case
        S = NS(mode=mode, vois=vois, precon=precon, x={}, todo=list(vois))
        S.codes = {v: (code if v == vois[-1] else 0) for v in vois}
        S.tol, S.maxiter, S.restart = c.real('atol', lo=0.0), c.int('maxiter', 0), c.int('restart', 1)
        S.err = c.bool('err_on_maxiter')
        S.size = {v: c.int('n_%s' % v, 1) for v in vois}
        S.A = {v: c.array('A_%s' % v, (S.size[v], S.size[v])) for v in vois}
        S.rhs = {v: c.array('rhs_%s' % v, S.size[v]) for v in vois}
        S.rhs0 = {v: c.snap(S.rhs[v]) for v in vois}
        vec = lambda nm: {v: c.obj(Vec, vec=c.array('%s_%s' % (nm, v), S.size[v])) for v in vois}
        du, dr = vec('du'), vec('dr')
        sol, rhs = (du, dr) if mode == 'fwd' else (dr, du)
        S.clear = False

        def write(w, a):
            if c.sym:
                w.assign(a)
            else:
                w[:] = a

        def clear():
            S.clear = True

        def apply(mode, do_apply, vois=(None,), gs_outputs=None, rel_inputs=None):
            v = c.at(vois, 0)
            c.check('nothing comes in from outside', S.clear)
            c.check('the operator is applied in the direction of the solve', And(mode == S.mode, len(vois) == 1))
            write(c.attr(rhs[v], 'vec'), c.dot(S.A[v], c.snap(c.attr(sol[v], 'vec'))))

        def solve(dumat, drmat, vois, mode=None, solver=None, rel_inputs=None):
            v = c.at(vois, 0)
            c.check('the preconditioner solves in the direction of the solve', And(mode == S.mode, c.same(solver, S.pre)))
            c.check('with the vectors of the quantity of interest', And(c.same(c.item(dumat, v), du[v]), c.same(c.item(drmat, v), dr[v])))
            c.check('and nothing comes in from outside', S.clear)
            S.prhs = c.snap(c.attr(rhs[v], 'vec'))
            S.psol = c.array('psol', S.size[v])
            write(c.attr(sol[v], 'vec'), S.psol)
        S.prob = c.obj(Box, precon_level=0)
        system = c.obj(Box, pathname='g', dumat=c.odict([(v, du[v]) for v in vois]), drmat=c.odict([(v, dr[v]) for v in vois]),
                       _do_apply=c.obj(Box), clear_dparams=c.method(clear), _sys_apply_linear=c.method(apply), solve_linear=c.method(solve),
                       _dircontext=c.obj(Ctx), _probdata=S.prob)
        no = c.method(lambda *a, **k: None)
        S.pre = c.obj(Box, options=c.odict([('iprint', 0)]), print_norm=no, iter_count=0) if precon else None
        S.args = (system, c.odict([(v, S.rhs[v]) for v in vois]), mode, S.pre, no,
                  c.odict([('atol', S.tol), ('maxiter', S.maxiter), ('restart', S.restart), ('iprint', c.choice('iprint', [-1, 0, 1, 2])), ('err_on_maxiter', S.err)]))
        return S

    @staticmethod
    def program(system, rhs, mode, pre, no, opts):
        s = ScipyGMRES()
        s.options = opts
        s.preconditioner = pre
        s.print_norm = no
        return s.solve(rhs, system, mode)

    def ensures(self, c, S, out):
        for v in S.vois:
            c.check('the right hand side of %s is not altered' % v, c.eq(S.rhs[v], S.rhs0[v]))
        c.check('the level of preconditioning is restored', c.eq(c.attr(S.prob, 'precon_level'), 0))
        code = S.codes[S.vois[-1]]
        if code < 0:
            c.check('a failure of the method is an error', out.raised(RuntimeError))
            return
        if not out.ok:
            c.check('an error only if asked for and not converged', And(out.raised(AnalysisError), code > 0, S.err))
            return
        c.check('no error only if it converged or errors are not asked for', Or(code == 0, Not(S.err)))
        for v in S.vois:
            c.check('the solution of %s is that of the method' % v, c.eq(c.item(out.value, v), S.x[v]))


class SolveLinear(Contract):
    """a group hands every right hand side to its solver and puts the solutions in place"""
    prop = 'C10'
    target = 'openmdao.core.group:Group.solve_linear'
    cases = tuple(itertools.product(('fwd', 'rev', None), ((None,), ('x', 'y')), ('user', 'fd'), (False, True)))

    def build(self, c, case):
        mode, vois, typ, given = case
        S = NS(vois=vois, typ=typ, given=given)
        S.mode = mode or c.choice('default mode', ['fwd', 'rev'])
        S.size = {v: c.int('n_%s' % v, 1) for v in vois}
        S.norm = {}
        du, dr = {}, {}
        for d, nm in ((du, 'du'), (dr, 'dr')):
            for v in vois:
                d[v] = c.obj(Vec, vec=c.array('%s_%s' % (nm, v), S.size[v]))

                def norm(w=d[v], v=v):
                    S.norm[v] = c.norm(c.snap(c.attr(w, 'vec')))
                    return S.norm[v]
                c.put_attr(d[v], 'norm', c.method(norm))
        S.sol, S.rhs = (du, dr) if S.mode == 'fwd' else (dr, du)
        S.rhs0 = {v: c.snap(c.attr(S.rhs[v], 'vec')) for v in vois}
        S.x, S.calls = {}, 0
        S.rel = c.choice('rel', [None, ('p',)])

        def write(w, a):
            if c.sym:
                w.assign(a)
            else:
                w[:] = a

        def solve(rhs, system, mode=None):
            S.calls += 1
            c.check('the solver is given the group, the mode and the inputs', And(c.same(system, S.g), mode == S.mode, c.attr(S.solver, 'rel_inputs') is S.rel))
            out = []
            for v in c.keys(rhs):
                c.check('the right hand side of %s' % v, c.eq(c.item(rhs, v), S.rhs0[v]))
                S.x[v] = c.array('x_%s' % v, S.size[v])
                out.append((v, c.snap(S.x[v])))
                # the vectors of the group are its working memory
                write(c.attr(S.rhs[v], 'vec'), c.array('work', S.size[v]))
                write(c.attr(S.sol[v], 'vec'), c.array('work', S.size[v]))
            for v in c.keys(rhs):
                c.check('the right hand side of %s is not overwritten by the work' % v, c.eq(c.item(rhs, v), S.rhs0[v]))
            return c.odict(out)
        S.solver = c.obj(Box, rel_inputs=None, solve=c.method(solve))
        other = c.obj(Box, rel_inputs=None)
        S.g = c.obj(Group, pathname='g', deriv_options=c.dict([('type', typ), ('mode', S.mode)]), ln_solver=other if given else S.solver,
                    is_active=c.method(lambda: True))
        S.args = (S.g, c.odict([(v, du[v]) for v in vois]), c.odict([(v, dr[v]) for v in vois]), list(vois), mode, S.solver if given else None, S.rel)
        return S

    @staticmethod
    def program(g, du, dr, vois, mode, solver, rel):
        g.solve_linear(du, dr, vois, mode=mode, solver=solver, rel_inputs=rel)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('the inputs of the solver are reset', c.attr(S.solver, 'rel_inputs') is None)
        for v in S.vois:
            got = c.attr(S.sol[v], 'vec')
            if S.typ != 'user':
                c.check('a finite differenced group is linearized as explicit (%s)' % v, And(
                    c.forall(0, S.size[v], lambda i: c.eq(c.at(got, i), -c.at(S.rhs0[v], i))), S.calls == 0))
            elif v in S.x:
                c.check('the solution of %s' % v, c.eq(got, S.x[v]))
            else:
                c.check('no right hand side, no solution (%s)' % v, And(S.norm[v] < 1e-14, c.forall(0, S.size[v], lambda i: c.eq(c.at(got, i), 0.0))))


class Columns(Contract):
    """the matrix of a direct solve holds the operator applied to every column of the identity"""
    prop = 'C10'
    target = 'openmdao.core.group:Group.assemble_jacobian'
    cases = tuple(itertools.product(('fwd', 'rev'), (None, 'x')))

    def build(self, c, case):
        mode, v = case
        n = c.int('n', 0)
        S = NS(n=n, A=c.array('A', (n, n)), count=c.obj(Box, count=0))
        S.buf = c.array('buf', n)

        def mult(arg):
            k = c.attr(S.count, 'count')
            c.check('applied to the next column of the identity', And(c.eq(c.len(arg), n), c.forall(0, n, lambda i: c.eq(c.at(arg, i), c.ite(c.eq(i, k), 1.0, 0.0)))))
            c.put_attr(S.count, 'count', k + 1)
            # (the result is a vector that the next application overwrites)
            col = c.arr(n, lambda i: c.at(S.A, i, k))
            if c.sym:
                S.buf.assign(col)
            else:
                S.buf[:] = col
            return S.buf
        g = c.obj(Group, pathname='', dumat=c.odict([('y', c.obj(Vec, vec=c.array('d0', c.int('m', 0)))), (v, c.obj(Vec, vec=c.array('d', n)))]))
        S.args = (g, mode, c.method(mult), v)
        return S

    @staticmethod
    def program(g, mode, mult, v):
        return g.assemble_jacobian(mode=mode, method='MVP', mult=mult, voi=v)[0]

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            p = L.partials
            return [('the columns are counted', c.eq(c.attr(S.count, 'count'), k)),
                    ('columns so far', c.forall(0, k, lambda j: c.forall(0, S.n, lambda i: c.eq(c.at(p, i, j), c.at(S.A, i, j)))))]
        return {0: LoopSpec(inv=inv)}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            c.check('the operator, column by column', c.eq(out.value, S.A))


class Clear(Contract):
    """clearing the params of a group clears those of all of its quantities of interest and of the groups in it"""
    prop = 'C10'
    target = 'openmdao.core.group:Group.clear_dparams'
    cases = (('x',), ('x', 'y'), ())

    def build(self, c, case):
        S = NS(n={v: c.int('n_%s' % v, 0) for v in (None, 'x', 'y')}, sub=[])
        S.dp = {v: c.obj(Vec, vec=c.array('dp_%s' % v, S.n[v])) for v in (None,) + case}
        rel = c.obj(Box, vars_of_interest=c.method(lambda mode=None: [('x',), ('y',)]))
        mk = lambda nm, cls: c.obj(cls, pathname=nm, name=nm, clear_dparams=c.method(lambda: S.sub.append(nm)))
        g = c.obj(Group, pathname='', _probdata=c.obj(Box, relevance=rel), dpmat=c.odict(list(S.dp.items())),
                  _local_subsystems=c.list([mk('g1', Group), mk('g2', Group)]))
        S.args = (g,)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        for v, w in S.dp.items():
            a = c.attr(w, 'vec')
            c.check('the params of %s are zero' % v, c.forall(0, S.n[v], lambda i: c.eq(c.at(a, i), 0.0)))
        c.check('and those of the groups in it', And(S.sub == ['g1', 'g2']))


class Identity(Contract):
    """an explicit component's own linear system is minus the identity"""
    prop = 'C10'
    target = 'openmdao.core.component:Component.solve_linear'
    cases = tuple(itertools.product(('fwd', 'rev'), ((), (None,), ('x', 'y'))))

    def build(self, c, case):
        mode, vois = case
        S = NS(vois=vois)
        S.size = {v: c.int('n_%s' % v, 0) for v in vois}
        mats = {k: {v: c.obj(Vec, vec=c.array('%s_%s' % (k, v), S.size[v])) for v in vois} for k in ('du', 'dr')}
        S.sol, S.rhs = (mats['du'], mats['dr']) if mode == 'fwd' else (mats['dr'], mats['du'])
        S.rhs0 = {v: c.snap(c.attr(S.rhs[v], 'vec')) for v in vois}
        du, dr = c.odict(list(mats['du'].items())), c.odict(list(mats['dr'].items()))
        S.args = (c.obj(Component, pathname='c', dumat=du, drmat=dr), du, dr, list(vois), mode)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            for v in S.vois:
                a = c.attr(S.sol[v], 'vec')
                c.check('minus the right hand side', c.forall(0, S.size[v], lambda i: c.eq(c.at(a, i), -c.at(S.rhs0[v], i))))
                c.check('the right hand side stays', c.eq(c.attr(S.rhs[v], 'vec'), S.rhs0[v]))


class Vectors(Contract):
    """a group sets up its vectors once for every quantity of interest, then its children, and knows where there is anything to apply"""
    prop = 'C10'
    target = 'openmdao.core.group:Group._setup_vectors'
    weight = 2
    rac = 60
    cases = tuple(itertools.product((False, True), (False, True), ((), (('a',),), (('a', 'b'),))))

    def build(self, c, case):
        top, lin, groups = case
        S = NS(log=[], top=top, lin=lin, alloc=c.flag('alloc'), U=c.int('unknowns', 0), P=c.int('params', 0), subs={})
        S.vois = [None] + ([v for g in groups for v in g] if lin else [])
        S.own = ('p.x',)
        rel = c.obj(Box, groups=c.list([tuple(g) for g in groups]))
        S.conns = c.dict([])
        S.impl, comm = c.obj(Box), c.obj(Box)
        S.pd = c.obj(Box, relevance=rel, top_lin_gs=lin, connections=S.conns)
        sizes = c.method(lambda: c.list([]))

        def fill(sys, path, voi):
            # the vectors of a system: any params, by value or not, and one state that may not be relevant
            opts = {'p': [(), (True,), (False,)], 'p.s': [(), (True,), (True, False), (False,)], 'p.t': [(), (True, False)]}[path]
            if voi is not None:
                opts = opts if (path, voi) == ('p.s', 'a') else opts[:1]
            accs = [('x%d' % k, c.obj(Box, pbo=b)) for k, b in enumerate(c.choice('%s %s params' % (path, voi), opts))]
            st = path == 'p.s' and c.flag('%s %s state' % (path, voi))
            S.subs[path, voi] = any(not c.attr(a, 'pbo') for _, a in accs) or st
            c.put(c.attr(sys, 'dpmat'), voi, c.obj(Box, _dat=c.odict(accs)))
            c.put(c.attr(sys, 'dumat'), voi, c.odict([('y', None)] + ([('z', None)] if st else [])))

        def make(kind):
            def f(*a, **k):
                voi = k['voi'] if 'voi' in k else a[3 if kind == 'views' else 1]
                S.log.append((kind, voi))
                if voi is None:
                    for n in ('unknowns', 'params', 'resids'):
                        c.put_attr(S.g, n, c.obj(Box, _get_flattened_sizes=sizes))
                fill(S.g, 'p', voi)
            return f

        def info(d, my_params=None):
            return (S.P if my_params is not None else S.U), c.dict([(v, 0) for v in S.vois])
        child = {}
        for nm, states in (('s', ['z']), ('t', [])):
            o = child[nm] = c.obj(Box, pathname='p.' + nm, states=c.list(states), dumat=c.dict([]), dpmat=c.odict([]))

            def setup(owners, parent=None, top_unknowns=None, impl=None, alloc_derivs=True, nm=nm):
                S.log.append(('child', nm, owners is S.args[1], parent is S.g, top_unknowns, impl is S.impl, alloc_derivs))
                for v in S.vois:
                    fill(child[nm], 'p.' + nm, v)
            c.put_attr(o, '_setup_vectors', c.method(setup))
        S.parent = None if top else c.obj(Box, _sysdata=c.obj(Box, to_prom_name=c.dict([])))
        S.topu = None if top else c.obj(Box)
        S.g = c.obj(Group, pathname='p', comm=comm, _sysdata=c.obj(Box), _probdata=S.pd, _params_dict=c.dict([]), _unknowns_dict=c.dict([]), states=c.list([]),
                    _subsystems=c.odict(list(child.items())), is_active=c.method(lambda: True), _get_shared_vec_info=c.method(info),
                    _create_vecs=c.method(make('vecs')), _create_views=c.method(make('views')), _get_relname_map=c.method(lambda d: c.dict([])),
                    _get_owning_ranks=c.method(lambda: c.dict([])),
                    _setup_data_transfer=c.method(lambda my, voi, alloc: S.log.append(('transfer', voi, alloc))),
                    subsystems=c.method(lambda recurse=False, include_self=False, local=False: c.list(([S.g] if include_self else []) + list(child.values()))))
        S.args = (S.g, c.dict([('p', S.own)]), S.parent, S.topu, S.impl, S.alloc)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        kind = 'vecs' if S.top else 'views'
        own = [x for x in S.log if x[0] in ('vecs', 'views')]
        c.check('vectors for every quantity of interest, once', own[:1] == [(kind, None)] and len(own) == len(S.vois) and set(own) == set((kind, v) for v in S.vois))
        moves = [x for x in S.log if x[0] == 'transfer']
        c.check('transfers for every quantity of interest, once', len(moves) == len(S.vois) and set(moves) == set(('transfer', v, S.alloc) for v in S.vois))
        for v in S.vois:
            c.check('transfers follow their vectors', S.log.index((kind, v)) < S.log.index(('transfer', v, S.alloc)))
        kids = [x for x in S.log if x[0] == 'child']
        c.check('every child once, in order, after that', [x[1] for x in kids] == ['s', 't'] and S.log[-2:] == kids)
        for x in kids:
            c.check('children get what they need', all(x[2:4]) and x[5] and x[6] == S.alloc and (x[4] is c.attr(S.g, 'unknowns') if S.top else x[4] is S.topu))
        names = (('_shared_dp_vec', S.P),) + ((('_shared_du_vec', S.U), ('_shared_dr_vec', S.U)) if S.top else ())
        for n, size in names:
            c.check('room for %s' % n, c.len(c.attr(S.g, n)) == (size if S.alloc else 0))
        todo = c.attr(S.g, '_do_apply')
        c.check('every system and quantity of interest', set(c.keys(todo)) == set(S.subs))
        for k, want in S.subs.items():
            c.check('something to apply where there are params or states', c.eq(c.item(todo, k), want))


class Storage(Contract):
    """the derivative vectors of a group: each kind in its own shared storage, each quantity of interest at its own place in it"""
    prop = 'C10'
    target = 'openmdao.core.group:Group._create_vecs'
    rac = 60
    cases = tuple(itertools.product((None, 'a', 'b'), (False, True), ('user', 'fd', 'cs')))

    def build(self, c, case):
        voi, lin, kind = case
        S = NS(voi=voi, lin=lin, cs=kind == 'cs', made=[], got={})
        S.n, S.m = c.int('n', 1, 5), c.int('m', 1, 5)
        S.uo, S.po = (0, 0) if voi is None else (c.int('uo', 0, 5), c.int('po', 0, 5))
        c.assume(S.uo <= S.n, S.po <= S.m)
        S.du, S.dr, S.dp = c.array('du', S.n), c.array('dr', S.n), c.array('dp', S.m)
        S.ud, S.pdict, S.conns, S.my = c.odict([]), c.odict([]), c.dict([]), ('p.x',)
        S.rel = c.obj(Box)

        def vec(sort):
            def f(sysdata, probdata, comm):
                k = len(S.made)
                S.made.append(sort)

                def setup(*a, **kw):
                    if sort == 'src':
                        names = ('unknowns_dict', 'relevance', 'var_of_interest', 'store_byobjs', 'shared_vec', 'alloc_complex', 'vectype')
                    else:
                        names = ('parent_params_vec', 'params_dict', 'srcvec', 'my_params', 'connections', 'relevance', 'var_of_interest', 'store_byobjs', 'shared_vec',
                                 'alloc_complex')
                    d = dict(zip(names, a))
                    d.update(kw)
                    c.check('a vector is set up once', k not in S.got)
                    S.got[k] = d
                return c.obj(Table, setup=c.method(setup), number=k, table=c.odict([('y', c.dict([('state', True)])), ('z', c.dict([]))]))
            return c.method(f)
        impl = c.obj(Box, create_src_vecwrapper=vec('src'), create_tgt_vecwrapper=vec('tgt'))
        S.u = c.obj(Box)
        off = lambda o: c.dict([(None, 0)] + ([(voi, o)] if voi else []))
        S.g = c.obj(Group, pathname='p', comm=c.obj(Box), _sysdata=c.obj(Box), _probdata=c.obj(Box, relevance=S.rel, top_lin_gs=lin), _params_dict=S.pdict, _unknowns_dict=S.ud,
                    deriv_options=c.dict([('type', kind)]), connections=S.conns, unknowns=S.u, dumat=c.odict([]), drmat=c.odict([]), dpmat=c.odict([]),
                    _shared_du_vec=S.du, _shared_dr_vec=S.dr, _shared_dp_vec=S.dp, _shared_u_offsets=off(S.uo), _shared_p_offsets=off(S.po))
        S.args = (S.g, S.my, voi, impl)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        base = S.u
        if S.voi is None:
            base = c.attr(S.g, 'unknowns')
            for nm, sort in (('unknowns', 'src'), ('resids', 'src'), ('params', 'tgt')):
                k = c.attr(c.attr(S.g, nm), 'number')
                d = S.got.get(k, {})
                c.check('%s: a vector of its own storage for everything' % nm, S.made[k] == sort and d.get('var_of_interest') is None and d.get('shared_vec') is None
                        and bool(d.get('alloc_complex')) == S.cs and (nm == 'resids' or d.get('store_byobjs') is True))
                if nm != 'params':
                    c.check('%s: the variables of the group' % nm, d.get('unknowns_dict') is S.ud and d.get('vectype', 'u') == nm[0])
        else:
            c.check('values are left alone', c.attr(S.g, 'unknowns') is S.u)
        do = S.voi is None or S.lin
        for nm, store, at, size in (('dumat', S.du, S.uo, S.n), ('drmat', S.dr, S.uo, S.n), ('dpmat', S.dp, S.po, S.m)):
            m = c.attr(S.g, nm)
            c.check('%s: only when wanted' % nm, c.keys(m) == ([S.voi] if do else []))
            if not do:
                continue
            k = c.attr(c.item(m, S.voi), 'number')
            d = S.got.get(k, {})
            c.check('%s: for its quantity of interest' % nm, S.made[k] == ('tgt' if nm == 'dpmat' else 'src') and d.get('var_of_interest') == S.voi and d.get('relevance') is S.rel)
            v = d.get('shared_vec')
            c.check('%s: in the shared storage' % nm, v is not None)
            if v is not None:
                c.check('%s: from its place on' % nm, And(c.len(v) == size - at, Implies(size > at, c.shares(v, store)), c.forall(0, size - at, lambda i: c.at(v, i) == c.at(store, at + i))))
            if nm == 'dpmat':
                c.check('dpmat: the params of the group', d.get('params_dict') is S.pdict and d.get('srcvec') is base and d.get('my_params') is S.my and d.get('connections') is S.conns)
            else:
                c.check('%s: the variables of the group' % nm, d.get('unknowns_dict') is S.ud and d.get('vectype', 'u') == nm[:2])


class Table(object):
    """stands for a vector"""
    def items(self):
        return self.table.items()

    def keys(self):
        return self.table.keys()

    def iteritems(self):
        return self.table.items()


class Views(Contract):
    """a child's vectors are views of its parent's, its params a vector of its own"""
    prop = 'C10'
    target = 'openmdao.core.system:System._create_views'
    rac = 60
    cases = tuple(itertools.product((None, 'a'), (False, True)))

    def build(self, c, case):
        voi, cx = case
        S = NS(voi=voi, cx=cx, got=[], m=c.int('m', 1, 5))
        S.po = 0 if voi is None else c.int('po', 0, 5)
        c.assume(S.po <= S.m)
        S.dp = c.array('dp', S.m)
        S.umap, S.pdict, S.conns, S.my, S.top, S.rel, S.comm = c.dict([]), c.odict([]), c.dict([]), ('p.x',), c.obj(Box), c.obj(Box), c.obj(Box)
        S.st = {k: c.choice('state ' + k, [None, False, True]) for k in ('y', 'z')}

        def vec(name):
            def view(system, comm, varmap):
                c.check('a view for the child', system is S.s and comm is S.comm and varmap is S.umap)
                return c.obj(Table, of=name, table=c.odict([(k, c.dict([] if v is None else [('state', v)])) for k, v in S.st.items()]))
            return c.obj(Box, get_view=c.method(view), alloc_complex=cx, name=name)

        def tgt(sysdata, probdata, comm):
            k = len(S.got)
            S.got.append(None)

            def setup(*a, **kw):
                names = ('parent_params_vec', 'params_dict', 'srcvec', 'my_params', 'connections', 'relevance', 'var_of_interest', 'store_byobjs', 'shared_vec', 'alloc_complex')
                d = dict(zip(names, a))
                d.update(kw)
                c.check('a vector is set up once', S.got[k] is None)
                S.got[k] = d
            return c.obj(Box, setup=c.method(setup), number=k)
        S.pp, S.dpp = c.obj(Box), c.obj(Box)
        parent = c.obj(Box, unknowns=vec('u'), resids=vec('r'), params=S.pp, dumat=c.dict([(voi, vec('du'))]), drmat=c.dict([(voi, vec('dr'))]),
                       dpmat=c.dict([(voi, S.dpp)]), _impl=c.obj(Box, create_tgt_vecwrapper=c.method(tgt)))
        S.old = c.obj(Box)
        S.s = c.obj(Group, pathname='p.s', comm=S.comm, _sysdata=c.obj(Box), _probdata=c.obj(Box, relevance=S.rel), _params_dict=S.pdict, connections=S.conns,
                    unknowns=S.old, _relname_map=S.umap, dumat=c.odict([]), drmat=c.odict([]), dpmat=c.odict([]), _shared_dp_vec=S.dp,
                    _shared_p_offsets=c.dict([(None, 0)] + ([(voi, S.po)] if voi else [])))
        S.args = (S.s, S.top, parent, S.my, voi)
        return S

    def params(self, c, S, nm, v, above):
        d = S.got[c.attr(v, 'number')] or {}
        c.check('%s: the params of the child' % nm, d.get('parent_params_vec') is above and d.get('params_dict') is S.pdict and d.get('srcvec') is S.top
                and d.get('my_params') is S.my and d.get('connections') is S.conns and d.get('relevance') is S.rel)
        return d

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        if S.voi is None:
            for nm, k in (('unknowns', 'u'), ('resids', 'r')):
                c.check('%s: a view of the same vector' % nm, c.attr(c.attr(S.s, nm), 'of') == k)
            st = c.attr(S.s, 'states')
            c.check('exactly the states', set(c.keys_(st)) == set(k for k, v in S.st.items() if v))
            d = self.params(c, S, 'params', c.attr(S.s, 'params'), S.pp)
            c.check('params: values of everything', d.get('var_of_interest') is None and d.get('shared_vec') is None and d.get('store_byobjs') is True and bool(d.get('alloc_complex')) == S.cx)
        else:
            c.check('values are left alone', c.attr(S.s, 'unknowns') is S.old)
        for nm, k in (('dumat', 'du'), ('drmat', 'dr')):
            c.check('%s: a view of the same vector' % nm, c.keys(c.attr(S.s, nm)) == [S.voi] and c.attr(c.item(c.attr(S.s, nm), S.voi), 'of') == k)
        d = self.params(c, S, 'dpmat', c.item(c.attr(S.s, 'dpmat'), S.voi), S.dpp)
        v = d.get('shared_vec')
        c.check('dpmat: for its quantity of interest, in the shared storage', d.get('var_of_interest') == S.voi and v is not None)
        if v is not None:
            c.check('dpmat: from its place on', And(c.len(v) == S.m - S.po, Implies(S.m > S.po, c.shares(v, S.dp)), c.forall(0, S.m - S.po, lambda i: c.at(v, i) == c.at(S.dp, S.po + i))))
