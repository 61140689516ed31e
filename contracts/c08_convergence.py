"""C08: nonlinear solvers are honest about convergence (openmdao/solvers/{newton,nl_gauss_seidel,backtracking,brent,run_once}.py)."""
import itertools
from pyvc.contract import *
from openmdao.core.component import Component
from openmdao.core.group import Group
from openmdao.core.system import AnalysisError
from openmdao.solvers.newton import Newton
from openmdao.solvers.nl_gauss_seidel import NLGaussSeidel
from openmdao.solvers.backtracking import BackTracking
from openmdao.solvers.brent import Brent
from openmdao.solvers.run_once import RunOnce
import openmdao.solvers.brent as brent_module

M = 'openmdao.solvers.'


class Ctx(object):
    """stands for a directory context"""
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Rec(object):
    """stands for a recording manager"""
    def record_iteration(self, system, meta):
        pass


class Lin(object):
    """stands for a linear solver"""


class Vec(object):
    """stands for a vector wrapper"""


class DerivOptions(object):
    """stands for the options of a system's derivatives"""
    def __init__(self, kind):
        self.d = {'type': kind, 'form': 'central'}
        self.locked = True

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        if self.locked:
            raise RuntimeError('locked')
        self.d[k] = v


class Sys(object):
    """stands for the system that is solved: running it, evaluating its residuals and solving its linear system give anything"""
    pathname = 'g'
    name = 'g'
    meta = None

    def is_active(self):
        return True

    def children_solve_nonlinear(self, metadata):
        self.seen('children', metadata)
        if self.on('children'):
            raise AnalysisError('children')
        self.unknowns.vec[:] = self.fresh()

    def apply_nonlinear(self, params, unknowns, resids, metadata=None):
        self.seen('apply', metadata)
        if self.on('apply'):
            raise AnalysisError('apply')
        resids.vec[:] = self.fresh()

    def _sys_linearize(self, params, unknowns, resids, total_derivs=None):
        if self.on('linearize'):
            raise AnalysisError('linearize')

    def solve_linear(self, dumat, drmat, vois, mode=None, solver=None, rel_inputs=None):
        if self.linear(dumat, drmat, vois, mode):
            raise AnalysisError('linear')
        dumat[None].vec[:] = self.fresh()


def run(nl, opts, rec, system, attrs):
    nl.options = opts
    nl.recorders = rec
    nl.print_norm = system.no_print
    for name, v in attrs:
        setattr(nl, name, v)


NAN = float('nan')


class Solver(Contract):
    """what all nonlinear solvers share: the stub system, its ghost record and the honesty of the outcome"""
    prop = 'C08'
    weight = 2
    rac = 60
    boom = None

    def uses(self, c, S):
        # the options are replaced by those of the contract after construction
        no = c.model(lambda *a, **k: None, 'options')
        d = {'OptionsDictionary.' + n: no for n in ('__init__', 'add_option', 'remove_option', '_add_deprecation', '__setitem__')}
        # iteration coordinates: see C12
        d['create_local_meta'] = c.model(lambda metadata, name: c.obj(Lin), 'create_local_meta')
        d['update_local_meta'] = c.model(lambda meta, it: None, 'update_local_meta')
        return d

    def opts(self, c, S):
        S.atol = c.real('atol', lo=0.0, pool=[0.0, 1.0, 2.0])
        S.rtol = c.real('rtol', lo=0.0, pool=[0.0, 0.25, 0.5, 1.0])
        S.utol = c.real('utol', lo=0.0, pool=[0.0, 0.5, 2.0])
        S.maxiter = c.int('maxiter', 0)
        c.assume(S.utol < 1e99) if hasattr(S, 'utol') else None
        c.assume(S.maxiter <= 4) if not c.sym else None
        S.err = c.bool('err_on_maxiter')
        return [('atol', S.atol), ('rtol', S.rtol), ('utol', S.utol), ('maxiter', S.maxiter), ('iprint', c.choice('iprint', [-1, 1])),
                ('err_on_maxiter', S.err)]

    def stub(self, c, S):
        S.size = c.int('size', 1)
        mk = lambda nm: c.obj(Vec, vec=c.array(nm, S.size))
        S.u, S.r, S.du, S.dr = mk('u'), mk('r'), mk('du'), mk('dr')
        S.norms, S.solves, S.lin = 0, 0, 0      # how often the residual norm was taken, the subsystems run, the linear system solved
        S.fresh, S.pending, S.boomed, S.lined = False, False, False, False
        S.first = S.last = S.un = None
        S.d = c.obj(DerivOptions, d=c.dict([('type', c.choice('type', ['fd', 'user'])), ('form', 'central')], label='deriv'), locked=True)
        S.type0 = c.item(c.attr(S.d, 'd'), 'type')

        def norm():
            S.norms += 1
            c.check('the residual norm is taken of current residuals', S.fresh)
            v = c.real('norm', nan=True, lo=0.0, pool=[0.0, 0.5, 1.0, 1.5, 2.0, 4.0])
            if S.first is None:
                S.first = v
            S.last = v
            return v
        S.r_norm = norm
        c.put_attr(S.r, 'norm', c.method(norm))

        def fresh():
            return c.array('new', S.size)

        def on(kind):
            if kind == 'linearize':
                c.check('linearized at a point whose residuals are known', S.fresh)
                S.lined = True
            if S.pending:
                S.pending = False
                b, a, d = S.base, S.alpha, c.attr(S.du, 'vec')
                now = c.attr(S.u, 'vec')
                c.check('a step adds the solution of the linear system once, in its allowed length',
                        c.forall(0, S.size, lambda i: c.eq(c.at(now, i), c.at(b, i) + c.at(a, i) * c.at(d, i))))
            if kind == 'children':
                S.solves = S.solves + 1
                S.fresh = False
            if kind == 'apply':
                S.fresh = True
            return self.blow(c, S, kind)

        S.on = on

        def linear(dumat, drmat, vois, mode):
            c.check('the linear system is solved forward', mode == 'fwd')
            c.check('it is linearized where it is solved', S.lined)
            S.lined = False
            rhs, res = c.attr(S.dr, 'vec'), c.attr(S.r, 'vec')
            c.check('its right hand side is the negative residual', c.forall(0, S.size, lambda i: c.eq(c.at(rhs, i), -c.at(res, i))))
            S.base = c.snap(c.attr(S.u, 'vec'))
            S.lin = S.lin + 1
            return self.blow(c, S, 'linear')

        S.params = c.obj(Vec)
        S.sys = c.obj(Sys, unknowns=S.u, resids=S.r, dumat=c.dict([(None, S.du)], label='dumat'), drmat=c.dict([(None, S.dr)], label='drmat'),
                      ln_solver=c.obj(Lin, local_meta=None), deriv_options=S.d, _dircontext=c.obj(Ctx),
                      fresh=c.method(fresh), on=c.method(on), seen=c.method(self.seer(c, S)), linear=c.method(linear), no_print=c.method(lambda *a, **k: None))

    def blow(self, c, S, kind):
        if self.boom_kind(S) == kind and c.flag('raise'):
            S.boomed = True
            return True
        return False

    def seer(self, c, S):
        return lambda kind, metadata: None

    def rec(self, c, S):
        return c.obj(Rec)

    def boom_kind(self, S):
        return S.boom

    def restored(self, c, S):
        d = c.attr(S.d, 'd')
        c.check('the derivative options are restored', c.item(d, 'type') == S.type0)
        c.check('they are locked again', c.eq(c.attr(S.d, 'locked'), True))

    def verdict(self, c, S, out, n, converged, last, last_counts=False):
        """raised exactly when it did not converge or the norm is not a number, and errors were asked for"""
        nan = c.isnan(last)
        bad = Or(Not(converged), nan)
        if out.ok:
            c.check('no error only if it converged or errors are not asked for', Or(Not(bad), Not(S.err)))
        else:
            c.check('the error is an AnalysisError', out.raised(AnalysisError))
            # (known finding: Newton also fails a solve that converges on its last iteration)
            c.check('an error only if asked for and not converged', And(Or(bad, And(last_counts, c.eq(n, S.maxiter))), S.err))


class NewtonSolve(Solver):
    """Newton's method"""
    target = M + 'newton:Newton.solve'
    cases = tuple(itertools.product((False, True), (False, True), (None, 'children', 'apply', 'linearize', 'linear', 'ls')))

    def build(self, c, case):
        ls, subs, boom = case
        S = NS(boom=boom, ls=ls, subs=subs)
        opts = self.opts(c, S)
        self.stub(c, S)
        S.a = c.real('alpha')
        opts += [('alpha', S.a), ('solve_subsystems', subs)]

        def dist(alpha, duvec):
            c.check('the step is limited before it is made', And(c.eq(c.len(alpha), S.size), c.forall(0, S.size, lambda i: c.eq(c.at(alpha, i), S.a)),
                                                                 c.same(duvec, S.du)))
            S.alpha = c.array('allowed', S.size)
            S.pending = True
            return c.snap(S.alpha)
        c.put_attr(S.u, 'distance_along_vector_to_limit', c.method(dist))

        def search(params, unknowns, resids, system, solver, alpha_scalar, alpha, base_u, base_norm, fnorm, fnorm0, metadata=None):
            c.check('the line search starts at the point before the step', c.eq(base_u, S.base))
            c.check('with the norms of the base point, the new point and the first point', And(
                c.eq(base_norm, S.prev), c.eq(fnorm, S.last), c.eq(fnorm0, S.first)))
            if self.blow(c, S, 'ls'):
                c.throw(AnalysisError, 'ls')
            S.last = c.real('ls_norm', nan=True, lo=0.0, pool=[0.0, 0.5, 1.0, 1.5, 2.0])
            return S.last
        S.search = c.obj(Lin, solve=c.method(search), setup=c.method(lambda s: None)) if ls else None
        S.args = (c.odict(opts), self.rec(c, S), S.sys, S.params, S.u, S.r, S.search)
        norm = S.r_norm

        def norm2():
            S.prev = S.last
            v = norm()
            if S.norms > 1:
                S.un = c.norm(c.arr(S.size, lambda i: c.at(c.attr(S.u, 'vec'), i) - c.at(S.base, i)))
            return v
        c.put_attr(S.r, 'norm', c.method(norm2))
        return S

    @staticmethod
    def program(opts, rec, system, params, unknowns, resids, search):
        nl = Newton()
        run(nl, opts, rec, system, [('line_search', search), ('unknowns_cache', unknowns.vec.copy())])
        nl.solve(params, unknowns, resids, system, system.meta)
        return nl.iter_count

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            f, f0, un, it = L.f_norm, L.f_norm0, L.u_norm, c.attr(L.self, 'iter_count')
            if not isinstance(k, int) and not getattr(S, 'head', False):
                # the ghost record at an arbitrary iteration
                S.head = True
                S.lin, S.norms, S.last, S.un = k, k + 1, f, un
                S.solves = 1 + k if S.subs else 1
                S.fresh = True
                S.prev = None
            return [('one linear solve per iteration', And(it == k, c.eq(S.lin, k))),
                    ('never more than maxiter', Or(it == 0, it <= S.maxiter)),
                    ('the subsystems run once per iteration', c.eq(S.solves, 1 + k if S.subs else 1)),
                    ('the norm is the last one', c.eq(f, S.last)),
                    ('the first norm is kept', c.eq(f0, S.first)),
                    ('the change is that of the last step', Or(c.eq(k, 0), lambda: c.eq(un, S.un))) if S.un is not None else ('no step yet', c.eq(k, 0)),
                    ('before the first step', Or(Not(c.eq(k, 0)), lambda: And(c.eq(f, f0), un == 1e99))),
                    ('after the first step', Or(c.eq(k, 0), f0 > 0)),
                    ('residuals are current', S.fresh), ('no step is left out', not S.pending)]
        return {0: LoopSpec(inv=inv)}

    def ensures(self, c, S, out):
        self.restored(c, S)
        c.check('every computed step is made', Or(not S.pending, S.boomed))
        if S.boomed:
            c.check('the failure of a subsystem is passed on', out.raised(AnalysisError))
            return
        n, f, f0 = S.lin, S.last, S.first
        conv = Or(f <= S.atol, lambda: f <= S.rtol * f0)
        if S.un is not None:
            conv = Or(conv, And(Not(c.eq(n, 0)), S.un <= S.utol))
        c.check('at most maxiter iterations', n <= S.maxiter)
        c.check('it stops only at a rule', Or(c.eq(n, S.maxiter), conv, c.isnan(f)))
        if out.ok:
            c.check('iterations are counted', c.eq(out.value, n))
        self.verdict(c, S, out, n, conv, f, True)


class GaussSeidel(Solver):
    """the fixed point iteration"""
    target = M + 'nl_gauss_seidel:NLGaussSeidel.solve'
    cases = (None, 'children', 'apply')

    def build(self, c, case):
        S = NS(boom=case)
        opts = self.opts(c, S) + [('use_aitken', False)]
        self.stub(c, S)
        S.un = None
        S.base = None
        norm = S.r_norm
        S.args = (c.odict(opts), self.rec(c, S), S.sys, S.params, S.u, S.r)

        def norm2():
            v = norm()
            if S.norms > 1:
                S.un = c.norm(c.arr(S.size, lambda i: c.at(c.attr(S.u, 'vec'), i) - c.at(S.base, i)))
            return v
        c.put_attr(S.r, 'norm', c.method(norm2))
        inner = S.on

        def on2(kind):
            if kind == 'children':
                S.base = c.snap(c.attr(S.u, 'vec'))
            return inner(kind)
        c.put_attr(S.sys, 'on', c.method(on2))
        return S

    @staticmethod
    def program(opts, rec, system, params, unknowns, resids):
        nl = NLGaussSeidel()
        run(nl, opts, rec, system, [('unknowns_cache', unknowns.vec.copy())])
        nl.solve(params, unknowns, resids, system, system.meta)
        return nl.iter_count

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            f, f0, un, it = L.normval, L.basenorm, L.u_norm, c.attr(L.self, 'iter_count')
            if not isinstance(k, int) and not getattr(S, 'head', False):
                S.head = True
                S.solves, S.norms, S.last, S.un, S.fresh = k + 1, k + 1, f, un, True
            return [('one run of the subsystems per iteration', And(it == k + 1, c.eq(S.solves, k + 1))),
                    ('never more than maxiter', Or(it == 1, it <= S.maxiter)),
                    ('the norm is the last one', c.eq(f, S.last)),
                    ('reductions are relative to the first norm', c.eq(f0, Ite(S.first > S.atol, S.first, 1.0))),
                    ('the change is that of the last iteration', Or(c.eq(k, 0), lambda: c.eq(un, S.un))) if S.un is not None else ('no change yet', c.eq(k, 0)),
                    ('before the second iteration', Or(Not(c.eq(k, 0)), un == 1e99)),
                    ('residuals are current', S.fresh)]
        return {0: LoopSpec(inv=inv)}

    def ensures(self, c, S, out):
        if S.boomed:
            c.check('the failure of a subsystem is passed on', out.raised(AnalysisError))
            return
        n, f = S.solves, S.last
        c.check('at most maxiter iterations', Or(c.eq(n, 1), n <= S.maxiter))
        if out.ok:
            c.check('iterations are counted', c.eq(out.value, n))
        if f is None:
            c.check('a single iteration is not tested', And(out.ok, c.eq(S.maxiter, 1), c.eq(n, 1)))
            return
        f0 = Ite(S.first > S.atol, S.first, 1.0)
        conv = Or(f <= S.atol, lambda: f <= S.rtol * f0)
        if S.un is not None:
            conv = Or(conv, And(Not(c.eq(n, 1)), S.un <= S.utol))
        c.check('it stops only at a rule', Or(c.eq(n, S.maxiter), c.eq(S.maxiter, 0), conv, c.isnan(f)))
        self.verdict(c, S, out, n, conv, f)


class LineSearch(Solver):
    """back tracking: shrinks the step until the residual decreases enough"""
    target = M + 'backtracking:BackTracking.solve'
    cases = tuple(itertools.product((False, True), (None, 'children', 'apply')))

    def build(self, c, case):
        subs, boom = case
        S = NS(boom=boom, subs=subs)
        S.maxiter = c.int('maxiter', 0)
        c.assume(S.utol < 1e99) if hasattr(S, 'utol') else None
        c.assume(S.maxiter <= 4) if not c.sym else None
        S.err = c.bool('err_on_maxiter')
        S.rho = c.real('rho', pool=[0.5, 0.25])
        S.c = c.real('c', pool=[0.0, 0.5, 0.9])
        opts = [('maxiter', S.maxiter), ('solve_subsystems', subs), ('rho', S.rho), ('c', S.c), ('iprint', c.choice('iprint', [-1, 1])), ('err_on_maxiter', S.err)]
        self.stub(c, S)
        S.a = c.real('alpha')
        S.base = c.snap(c.attr(S.u, 'vec'))
        S.base_u = c.array('base_u', S.size)
        S.base = c.snap(S.base_u)
        S.base_norm = c.real('base_norm', lo=0.0, pool=[1.0, 2.0, 4.0])
        S.f0 = S.last = c.real('fnorm', nan=True, lo=0.0, pool=[0.0, 0.5, 1.0, 2.0, 4.0])
        S.first = S.f0
        S.trials = 0
        S.cur = S.a
        S.alpha0 = c.array('alpha_limited', S.size)

        def dist(alpha, duvec):
            S.trials = S.trials + 1
            S.cur = S.cur * S.rho
            c.check('every trial shrinks the step', And(c.eq(c.len(alpha), S.size), c.forall(0, S.size, lambda i: c.eq(c.at(alpha, i), S.cur)), c.same(duvec, S.du)))
            S.alpha = c.array('allowed', S.size)
            S.pending = True
            return c.snap(S.alpha)
        c.put_attr(S.u, 'distance_along_vector_to_limit', c.method(dist))
        S.solver = c.obj(Lin, iter_count=3, recorders=self.rec(c, S))
        S.args = (c.odict(opts), S.solver, S.sys, S.params, S.u, S.r, S.a, S.alpha0, S.base_u, S.base_norm, S.f0)
        return S

    @staticmethod
    def program(opts, solver, system, params, unknowns, resids, a, alpha, base_u, base_norm, fnorm):
        ls = BackTracking()
        run(ls, opts, None, system, [])
        return ls.solve(params, unknowns, resids, system, solver, a, alpha, base_u, base_norm, fnorm, 1.0, system.meta)

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            f, it, la = L.fnorm, L.itercount, L.ls_alpha
            if not isinstance(k, int) and not getattr(S, 'head', False):
                S.head = True
                S.trials, S.norms, S.last, S.cur, S.fresh = k, k, f, la, True
                S.solves = k if S.subs else 0
            return [('one trial per iteration', And(it == k, c.eq(S.trials, k), c.eq(S.norms, k))),
                    ('never more than maxiter', Or(it == 0, it <= S.maxiter)),
                    ('the subsystems run once per trial', c.eq(S.solves, k if S.subs else 0)),
                    ('the norm is the last one', c.eq(f, S.last)),
                    ('the step is the last one', c.eq(la, S.cur)),
                    ('the base point is kept', c.eq(L.base_u, S.base)),
                    ('no step is left out', not S.pending)]
        return {0: LoopSpec(inv=inv)}

    def ensures(self, c, S, out):
        if S.boomed:
            c.check('the failure of a subsystem is passed on', out.raised(AnalysisError))
            return
        n, f = S.trials, S.last
        enough = S.base_norm - f >= S.c * S.cur * S.base_norm
        c.check('every computed step is made', not S.pending)
        c.check('at most maxiter trials', n <= S.maxiter)
        c.check('it stops only at a rule', Or(c.eq(n, S.maxiter), enough, c.isnan(f)))
        if out.ok:
            c.check('the norm returned is the last one', c.eq(out.value, f))
        self.verdict(c, S, out, n, enough, f)


class Once(Solver):
    """running the subsystems once"""
    target = M + 'run_once:RunOnce.solve'
    cases = (None, 'children')

    def build(self, c, case):
        S = NS(boom=case)
        self.stub(c, S)
        S.args = (c.odict([('iprint', 0)]), self.rec(c, S), S.sys, S.params, S.u, S.r)
        return S

    @staticmethod
    def program(opts, rec, system, params, unknowns, resids):
        nl = RunOnce()
        run(nl, opts, rec, system, [])
        nl.solve(params, unknowns, resids, system, system.meta)

    def ensures(self, c, S, out):
        c.check('the subsystems run once', S.solves == 1)
        c.check('only their failure is passed on', out.raised(AnalysisError) if S.boomed else out.ok)


class BrentSolve(Solver):
    """Brent's method: one state element is set to what the root finder asks for, and its residual is what the root finder sees"""
    target = M + 'brent:Brent.solve'
    cases = tuple(itertools.product(('options', 'params'), ('root', 'maxiter', 'signs'), (None, 'children', 'apply')))

    def build(self, c, case):
        bounds, end, boom = case
        S = NS(boom=boom, end=end)
        self.stub(c, S)
        S.k = c.idx('state_var_idx', S.size)
        S.lo, S.up = c.real('lower'), c.real('upper')
        S.maxiter, S.err = c.int('maxiter', 1), c.bool('err_on_maxiter')
        S.xtol, S.rtol = c.real('xtol', pool=[0.0, 1e-3]), c.real('rtol', pool=[0.0, 1e-3])
        S.xs = []
        S.evals = 0
        S.asked = False
        opts = [('xtol', S.xtol), ('rtol', S.rtol), ('maxiter', S.maxiter), ('state_var_idx', S.k), ('iprint', c.choice('iprint', [0, 1, 2])),
                ('err_on_maxiter', S.err), ('lower_bound', S.lo if bounds == 'options' else 0.0), ('upper_bound', S.up if bounds == 'options' else 1.0)]
        for w in (S.u, S.r):
            c.put_attr(w, '_dat', c.dict([('s', c.obj(Lin, val=c.attr(w, 'vec')))], label='dat'))
        S.params = c.dict([('lo', S.lo), ('up', S.up)], label='params')
        S.rec = self.rec(c, S)
        inner = S.on

        def on2(kind):
            if kind == 'children' and S.asked:
                S.asked = False
                now = c.attr(S.u, 'vec')
                c.check('the state element is set to what was asked for, and nothing else', c.forall(0, S.size, lambda i: c.eq(
                    c.at(now, i), Ite(c.eq(i, S.k), S.x, c.at(S.before, i)))))
            return inner(kind)
        c.put_attr(S.sys, 'on', c.method(on2))
        S.bound = (None, None) if bounds == 'options' else ('lo', 'up')
        S.args = (c.odict(opts), S.rec, S.sys, S.params, S.u, S.r, S.bound)
        return S

    def brentq(self, c, S):
        def root(f, **kw):
            a, b = kw.pop('a'), kw.pop('b')
            args = kw.pop('args')
            S.called = True
            c.check('the search is between the declared bounds', And(c.eq(a, S.lo), c.eq(b, S.up)))
            c.check('the iteration limit is the declared one', c.eq(kw.pop('maxiter'), S.maxiter))
            c.check('tolerances are the declared ones', And(c.eq(kw.pop('xtol', S.xtol), S.xtol), c.eq(kw.pop('rtol', S.rtol), S.rtol)))
            c.check('nothing else is asked of the root finder', not kw.pop('full_output', False) and not kw)
            for _ in range(2):
                S.x = c.real('x')
                S.asked = True
                S.before = c.snap(c.attr(S.u, 'vec'))
                r = c.call(f, S.x, *args)
                c.check('what it sees is the residual of that element', c.eq(r, c.at(c.attr(S.r, 'vec'), S.k)))
                c.check('of the current point', And(S.fresh, not S.asked))
                S.evals += 1
            if S.end == 'maxiter':
                c.throw(RuntimeError, 'Failed to converge after 7 iterations')
            if S.end == 'signs':
                c.throw(ValueError, 'f(a) and f(b) must have different signs')
            return S.x
        return root

    def overrides(self, c, S):
        return {'brentq': c.model(self.brentq(c, S), 'brentq')}

    def patches(self, c, S):
        return [(brent_module, 'brentq', self.brentq(c, S))]

    @staticmethod
    def program(opts, rec, system, params, unknowns, resids, bound):
        nl = Brent()
        run(nl, opts, rec, system, [('s_var_name', 's'), ('var_lower_bound', bound[0]), ('var_upper_bound', bound[1])])
        nl.solve(params, unknowns, resids, system, system.meta)
        return nl.iter_count

    def ensures(self, c, S, out):
        if S.boomed:
            c.check('the failure of a subsystem is passed on', out.raised(AnalysisError))
            return
        c.check('the root finder is asked', S.evals == 2)
        if S.end == 'root':
            c.check('no error', out.ok)
        elif S.end == 'signs':
            c.check('an interval without a root is an error', out.raised(ValueError))
        else:
            c.check('no error only if errors are not asked for', Or(Not(S.err), not out.ok))
            c.check('an error only if asked for', Or(out.ok, And(S.err, out.raised(AnalysisError))))
        if out.ok:
            c.check('evaluations are counted', out.value == 2)


class Residual(Contract):
    """the residual of an explicit component is what it makes of its params now less what its unknowns are, which stay"""
    prop = 'C08'
    target = 'openmdao.core.component:Component.apply_nonlinear'

    def build(self, c, case):
        S = NS(n=c.int('n', 0))
        S.u, S.r, S.f = c.array('u', S.n), c.array('r', S.n), c.array('f', S.n)
        S.u0, S.f0 = c.snap(S.u), c.snap(S.f)
        S.box = c.obj(Lin, runs=0)
        S.p = c.obj(Vec)
        un, re = c.obj(Vec, vec=S.u), c.obj(Vec, vec=S.r)

        def run(p, u, r):
            c.put_attr(S.box, 'runs', c.attr(S.box, 'runs') + 1)
            c.check('run with its vectors', And(c.same(p, S.p), c.same(u, un), c.same(r, re)))
            c.check('run on its unknowns', c.eq(c.attr(u, 'vec'), S.u0))
            if c.sym:
                c.attr(u, 'vec').assign(S.f)
            else:
                u.vec[:] = S.f
        S.args = (c.obj(Component, pathname='c', _sys_solve_nonlinear=c.method(run)), S.p, un, re)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            c.check('run once', c.attr(S.box, 'runs') == 1)
            c.check('the residual', c.forall(0, S.n, lambda i: c.eq(c.at(S.r, i), c.at(S.f0, i) - c.at(S.u0, i))))
            c.check('the unknowns stay', c.eq(S.u, S.u0))


class Residuals(Contract):
    """a group's residuals: for every active subsystem that has any, its params are brought up to date and then its residuals are evaluated"""
    prop = 'C08'
    target = 'openmdao.core.group:Group.apply_nonlinear'
    cases = tuple(itertools.product((0, 1, 2, 3), (False, True)))

    def build(self, c, case):
        n, self_active = case
        S = NS(n=n, active=self_active)
        S.log = c.list([])
        S.meta = c.dict()
        S.kind = [c.flag('group %d' % i) for i in range(n)]
        S.run = [c.flag('useful %d' % i) for i in range(n)]
        S.on = [c.flag('active %d' % i) for i in range(n)]

        def sub(i):
            p, u, r = c.obj(Vec), c.obj(Vec), c.obj(Vec)

            def evaluate(p_, u_, r_, meta=None):
                c.append(S.log, ('apply', i))
                c.check('with its own vectors', And(c.same(p_, p), c.same(u_, u), c.same(r_, r)))
            # a component's own entry point decides how its residuals come about
            at = {'apply_nonlinear': c.method(evaluate)} if S.kind[i] else {'_sys_apply_nonlinear': c.method(evaluate)}
            return c.obj(Group if S.kind[i] else Component, name='s%d' % i, _run_apply=S.run[i], is_active=c.method(lambda: S.on[i]), params=p, unknowns=u, resids=r, **at)

        def move(target_sys='', mode='fwd', deriv=False, var_of_interest=None):
            c.append(S.log, ('move', target_sys))
            c.check('values forward', And(mode == 'fwd', deriv is False))
        S.g = c.obj(Group, pathname='g', is_active=c.method(lambda: S.active), _transfer_data=c.method(move), _subsystems=c.odict([('s%d' % i, sub(i)) for i in range(n)]))
        S.args = (S.g, c.obj(Vec), c.obj(Vec), c.obj(Vec), S.meta)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        log = [tuple(c.keys_(e)) if not isinstance(e, tuple) else e for e in c.keys_(S.log)]
        want = []
        for i in range(S.n):
            if S.active and S.run[i]:
                want += [('move', 's%d' % i)] + ([('apply', i)] if S.on[i] else [])
        c.check('each once, in order, after its params', log == want)
