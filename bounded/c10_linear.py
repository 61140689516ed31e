"""C10 bounded stand-in: linear solvers of random models against the operator applied column by column."""
from collections import OrderedDict
import numpy as np
from openmdao.api import ScipyGMRES, DirectSolver, LinearGaussSeidel, AnalysisError
from pyvc.contract import Bounded, Reject
from bounded import gen
from bounded.c01_storage import flat
from bounded.c11_totals import perturb
from bounded.c03_adjoint import rnd


def lgs(rng, maxiter):
    s = LinearGaussSeidel()
    s.options['maxiter'] = maxiter
    s.options['atol'] = 1e-13
    s.options['rtol'] = 1e-13
    s.options['err_on_maxiter'] = True
    s.options['single_voi_relevance_reduction'] = rng.random() < 0.5
    return s


def direct(rng, method='MVP'):
    s = DirectSolver()
    s.options['solve_method'] = rng.choice(['LU', 'solve'])
    s.options['jacobian_method'] = method
    return s


def operator(root, g, mode, voi):
    """the matrix of the operator a solver of g inverts"""
    sol, rhs = (g.dumat[voi], g.drmat[voi]) if mode == 'fwd' else (g.drmat[voi], g.dumat[voi])
    n = len(sol.vec)
    A = np.zeros((n, n))
    for i in range(n):
        sol.vec[:] = 0.0
        sol.vec[i] = 1.0
        rhs.vec[:] = 0.0
        root.clear_dparams()        # (nothing comes from outside of the group)
        g._sys_apply_linear(mode, g._do_apply, vois=(voi,))
        A[:, i] = rhs.vec
    return A


class Linear(Bounded):
    prop = 'C10'
    covers = ('openmdao.core.group: Group.solve_linear, assemble_jacobian, clear_dparams; LinearGaussSeidel.solve, DirectSolver.solve, ScipyGMRES.solve '
              '(with and without a preconditioner), MultLinearSolver.mult on nested groups, cycles, states, several variables of interest, both modes')
    samples = 6000
    parts = 3

    def sample(self, t, rng):
        cyclic = rng.random() < 0.35
        m = gen.model(rng, states=rng.random() < 0.4, cyclic=cyclic, styles=rng.choice([('lin',), ('lin', 'mf'), ('lin', 'mf', 'fd')]),
                      quad=not cyclic and rng.random() < 0.5, scalers=rng.random() < 0.3, contract=rng.choice([0.05, 0.2]),
                      ncomp=rng.randint(2, 6))
        p = m.build()
        self.mvp = DirectSolver()          # (options made after setup would unlock all options)
        mf = any(c.style == 'mf' for c in m.comps)
        desc = []
        fdable = lambda g: g.path and not any(v.pbo for c in m.comps if g in m._ancestors(c) for v in c.unknown_order + c.params) \
            and not any(c.kind == 'indep' for c in m.comps if g in m._ancestors(c))
        for g in m.groups:
            if rng.random() < 0.1 and fdable(g):
                g.system.deriv_options['type'] = 'fd'
                desc.append('%s: fd' % g.path)
            k = rng.choice(['lgs', 'lgs', 'direct', 'gmres', 'precon'] + ([] if mf else ['assemble']))
            if k == 'lgs':
                s = lgs(rng, 200 if cyclic else rng.choice([1, 1, 5]))
            elif k == 'direct':
                s = direct(rng)
            elif k == 'assemble':
                s = direct(rng, 'assemble')
            else:
                s = ScipyGMRES()
                s.options['atol'] = 1e-13
                s.options['err_on_maxiter'] = True
                if k == 'precon':
                    s.preconditioner = lgs(rng, rng.choice([1, 2])) if not cyclic and rng.random() < 0.7 else direct(rng)
                    s.preconditioner.options['iprint'] = -1
                    if 'err_on_maxiter' in s.preconditioner.options._options:
                        s.preconditioner.options['err_on_maxiter'] = False
            s.options['iprint'] = -1
            g.system.ln_solver = s
            desc.append('%s: %s' % (g.path or 'root', k))
        mode = rng.choice(['fwd', 'rev'])
        ins = [v for v in m.unknowns.values() if v.comp.kind == 'indep' and not v.pbo]
        outs = [v for v in m.unknowns.values() if not v.pbo and v.comp.kind != 'indep']
        if rng.random() < 0.6 and ins and outs:
            rng.shuffle(ins)
            rng.shuffle(outs)
            for v in ins[:rng.randint(1, 3)]:
                p.driver.add_desvar(v.top)
                desc.append('desvar %s' % v.top)
            for k, v in enumerate(outs[:rng.randint(1, 3)]):
                (p.driver.add_constraint(v.top, lower=0.0) if k else p.driver.add_objective(v.top))
                desc.append('response %s' % v.top)
            p.root.ln_solver.options['mode'] = mode
        t.note(m.describe() + '\n' + ', '.join(desc))
        try:
            p.setup(check=False)
        except (NotImplementedError, RuntimeError) as e:
            t.note(str(e))
            raise Reject()
        root = p.root
        for k in range(rng.choice([1, 2])):
            perturb(m, p, rng)
            try:
                p.run()
            except AnalysisError:
                raise Reject()
            if any(not np.all(np.abs(flat(p[v.top])) < 1e5) for v in m.unknowns.values() if not v.pbo):
                raise Reject()
            root._sys_linearize(root.params, root.unknowns, root.resids)
            below = [g.path + '.' for g in m.groups if g.path and g.system.deriv_options['type'] == 'fd']
            groups = [g for g in m.groups if not any(g.path.startswith(b) for b in below)]
            groups = [m.root] * (rng.random() < 0.6) + [rng.choice(groups) for _ in range(2)]
            for g in groups:
                for _ in range(rng.choice([1, 2])):
                    md = mode
                    vois = [v for v in g.system.dumat if v is not None]
                    if not vois or rng.random() < 0.4:
                        vois = [None]
                        md = rng.choice(['fwd', 'rev'])
                    else:
                        vois = [rng.choice(vois)]
                    try:
                        with np.errstate(all='ignore'):
                            self.solve(t, rng, root, g, g.system, md, vois)
                    except AnalysisError:
                        break
                    except RuntimeError as e:
                        if 're-entrant' in str(e):     # (gmres of this scipy cannot be nested)
                            break
                        raise

    def solve(self, t, rng, root, spec, g, mode, vois):
        where = '%s %s %s' % (spec.path or 'root', mode, vois)
        A, rhs = {}, OrderedDict()
        for v in vois:
            A[v] = operator(root, g, mode, v)
            if not A[v].size:
                return
            if np.linalg.cond(A[v]) > 1e5:
                raise Reject()
            rhs[v] = rnd(rng, len(g.dumat[v].vec))
            if rng.random() < 0.1:
                rhs[v][:] = 0.0
        fd = g.deriv_options['type'] != 'user'
        root.clear_dparams()
        how = 'group' if fd else rng.choice(['group', 'solver'])
        if how == 'group':
            for v in vois:
                a, b = (g.dumat[v], g.drmat[v]) if mode == 'fwd' else (g.drmat[v], g.dumat[v])
                b.vec[:] = rhs[v]
                a.vec[:] = rnd(rng, len(a.vec))
            g.solve_linear(g.dumat, g.drmat, vois, mode=mode)
            sol = {v: (g.dumat if mode == 'fwd' else g.drmat)[v].vec.copy() for v in vois}
        else:
            kept = OrderedDict((v, x.copy()) for v, x in rhs.items())
            buf = g.ln_solver.solve(rhs, g, mode)
            t.check('%s: a solution for every right-hand side' % where, list(buf) == list(kept) and list(rhs) == list(kept))
            sol = {v: np.array(buf[v]) for v in vois}
            for v in vois:
                t.check('%s: the right-hand side is not altered' % where, np.array_equal(kept[v], rhs[v]))
        for v in vois:
            r = A[v].dot(sol[v]) - rhs[v]
            t.note('%s %s residual %s' % (where, v, r))
            t.check('%s: the solution of %s satisfies the system' % (where, v),
                    not r.size or float(np.max(np.abs(r))) <= 1e-7 * (1.0 + float(np.max(np.abs(sol[v]))) * (1 + float(np.max(np.abs(A[v]))))))
        if not fd and rng.random() < 0.3:
            s = self.mvp
            s.system, s.mode = g, mode
            for v in vois:
                s.voi = v
                M, _ = g.assemble_jacobian(mode=mode, method='MVP', mult=s.mult, voi=v)
                t.check('%s: the matrix for %s is the operator' % (where, v), np.allclose(M, A[v], atol=1e-9, rtol=1e-9))
                below = [x for x in g.components(recurse=True)]
                if all(x._jacobian_cache is not None for x in below) and hasattr(g, '_icache') and \
                        not any(x.deriv_options['type'] != 'user' for x in g.subgroups(recurse=True)):
                    M, _ = g.assemble_jacobian(mode=mode, method='assemble', voi=v)
                    t.check('%s: the assembled matrix for %s is the operator' % (where, v), np.allclose(M, A[v], atol=1e-9, rtol=1e-9))
