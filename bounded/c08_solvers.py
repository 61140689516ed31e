"""C08 bounded stand-in: solvers of random coupled models, their stopping and what they leave behind."""
import numpy as np
from openmdao.api import Newton, NLGaussSeidel, RunOnce, ScipyGMRES, DirectSolver, AnalysisError, Component
from openmdao.solvers.backtracking import BackTracking
from pyvc.contract import Bounded, Reject
from bounded import gen


def all_systems(g):
    yield g
    for s in getattr(g, '_subsystems', {}).values():
        for x in all_systems(s):
            yield x


def inside(comp, group):
    g = comp.parent
    while g is not None:
        if g is group:
            return True
        g = getattr(g, 'parent', None)
    return False


class Solves(Bounded):
    prop = 'C08'
    covers = ('openmdao.solvers: Newton.solve, NLGaussSeidel.solve (with Aitken relaxation), BackTracking.solve, RunOnce.solve inside nested groups; '
              'Group.solve_nonlinear, children_solve_nonlinear, _sys_linearize, solve_linear')
    samples = 4000
    parts = 2

    def sample(self, t, rng):
        m = gen.model(rng, cyclic=True, states=rng.random() < 0.5, quad=rng.random() < 0.5, contract=rng.choice([0.1, 0.3, 1.0]), styles=('lin',),
                      src_indices=rng.random() < 0.5, ncomp=rng.randint(2, 5))
        p = m.build()
        watch = []
        desc = []
        for g in m.groups:
            s = g.system
            k = rng.choice(['newton', 'gs', 'gs', 'aitken', 'once'])
            if k == 'once':
                nl = RunOnce()
            else:
                nl = Newton() if k == 'newton' else NLGaussSeidel()
                o = nl.options
                o['maxiter'] = rng.choice([0, 1, 2, 3, 4, 12])
                o['err_on_maxiter'] = rng.random() < 0.5
                o['atol'] = rng.choice([1e-10, 1e-3, 1.0])
                o['rtol'] = rng.choice([1e-10, 1e-3, 0.3])
                o['utol'] = rng.choice([1e-12, 1e-2])
                if k == 'newton':
                    o['solve_subsystems'] = rng.random() < 0.6
                    if rng.random() < 0.4:
                        nl.line_search = BackTracking()
                        nl.line_search.options['maxiter'] = rng.randint(0, 3)
                        nl.line_search.options['err_on_maxiter'] = rng.random() < 0.3
                        nl.line_search.options['iprint'] = -1
                if k == 'aitken':
                    o['use_aitken'] = True
            s.nl_solver = nl
            nl.options['iprint'] = -1
            s.ln_solver = DirectSolver() if rng.random() < 0.7 else ScipyGMRES()
            s.ln_solver.options['iprint'] = -1
            if rng.random() < 0.3 and not any(x.kind == 'indep' for x in m.comps if inside(x, g)):
                s.deriv_options['type'] = 'fd'
            desc.append('%s: %s %s' % (g.path or 'root', k, {x: nl.options[x] for x in ('maxiter', 'err_on_maxiter', 'atol', 'rtol', 'utol')} if k != 'once' else ''))
            watch.append((g.path, s, nl, k))
        t.note(m.describe() + '\n' + '\n'.join(desc))
        try:
            p.setup(check=False)
        except NotImplementedError:
            raise Reject()
        before = [(x.pathname, x.deriv_options['type'], x.deriv_options.locked) for x in all_systems(p.root)]
        state = {'left': rng.randint(1, 12) if rng.random() < 0.3 else None, 'boom': False}
        if state['left']:
            victim = rng.choice([x for x in all_systems(p.root) if isinstance(x, Component)])
            which = rng.choice(['solve_nonlinear', 'apply_nonlinear', 'linearize'])
            orig = getattr(victim, which)

            def failing(*a, **k):
                state['left'] -= 1
                if state['left'] == 0:
                    state['boom'] = True
                    raise AnalysisError('planned')
                return orig(*a, **k)
            setattr(victim, which, failing)
            t.note('%s.%s fails on call %d' % (victim.pathname, which, state['left']))
        for path, s, nl, k in watch:
            self.spy(t, s, nl, k, state)
        seen = None
        with np.errstate(all='ignore'):
            try:
                p.run()
            except AnalysisError as e:
                seen = e
            except np.linalg.LinAlgError:
                seen = 'singular'
            except ValueError as e:
                if 'inf' not in str(e).lower() and 'nan' not in str(e).lower():
                    raise
                seen = 'diverged'
        t.note('ended with %r' % (seen,))
        after = [(x.pathname, x.deriv_options['type'], x.deriv_options.locked) for x in all_systems(p.root)]
        t.check('options changed during a solve are restored', before == after)

    def spy(self, t, s, nl, k, state):
        if k == 'once':
            return
        orig, norm, search = nl.solve, s.resids.norm, getattr(nl, 'line_search', None)
        rec = []

        def watched_norm():
            v = norm()
            rec.append((v, s.unknowns.vec.copy()))
            return v
        marks = []
        if search is not None:
            ls = search.solve

            def watched_search(*a, **kw):
                n = len(rec)
                v = ls(*a, **kw)
                del rec[n:]                       # trials of the line search are its own
                x = rec.pop()
                rec.append((v, x[1]))
                return v
            search.solve = watched_search
        count = [0]
        kids = s.children_solve_nonlinear

        def run_children(*a, **kw):
            count[0] += 1
            return kids(*a, **kw)
        s.children_solve_nonlinear = run_children

        def solve(params, unknowns, resids, system, metadata=None):
            del rec[:]
            count[0] = 0
            s.resids.norm = watched_norm
            err = None
            try:
                orig(params, unknowns, resids, system, metadata)
            except AnalysisError as e:
                err = e
                if state['boom'] or not str(e).startswith("Solve in '%s': " % s.pathname) or 'BackTracking' in str(e):
                    raise
            finally:
                if 'norm' in s.resids.__dict__:
                    del s.resids.norm
            o = nl.options
            run = list(rec)
            if k == 'gs' or k == 'aitken':
                if o['maxiter'] == 1:
                    t.check('a single iteration runs the subsystems once and is not judged', err is None and count[0] == 1)
                    return
                n = len(run)
                t.check('one run of the subsystems per iteration', count[0] == n)
                t.check('at most maxiter iterations', n <= max(1, o['maxiter']))
                f0 = run[0][0] if run[0][0] > o['atol'] else 1.0
            else:
                n = len(run) - 1
                t.check('at most maxiter iterations', n <= o['maxiter'])
                f0 = run[0][0]
            t.check('iterations are counted', nl.iter_count == n)
            f = run[-1][0]
            t.note('%s %s: norms %s err %r' % (s.pathname, k, [x[0] for x in run], err))
            conv = f <= o['atol'] or (f0 > 0 and f / f0 <= o['rtol'])
            steps = len(run) > 1
            if steps and search is None and k != 'aitken':
                conv = conv or np.linalg.norm(run[-1][1] - run[-2][1]) <= o['utol']
            elif steps:
                if np.linalg.norm(run[-1][1] - run[-2][1]) <= 10 * o['utol']:
                    if err:
                        raise err
                    return                        # (relaxation or line search moves the point after the change is taken)
            finite = np.isfinite(f) and not (steps and np.isnan(np.linalg.norm(run[-1][1] - run[-2][1])))
            bad = not conv or not finite
            if err is None:
                t.check('it stops only at a rule', conv or not finite or n >= o['maxiter'])
                t.check('no error only if it converged or errors are not asked for', not bad or not o['err_on_maxiter'])
            else:
                t.check('an error only if asked for', o['err_on_maxiter'])
                if k == 'newton' and n == o['maxiter']:
                    t.check('Newton converging on its last iteration is no error', bad)
                else:
                    t.check('an error only if not converged', bad)
                raise err
        nl.solve = solve

    def known(self, f, t):
        # test_newton.test_sellar_analysis_error expects this error
        if f == 'Newton converging on its last iteration is no error':
            return 'C08-newton-last-iteration'
