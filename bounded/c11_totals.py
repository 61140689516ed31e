"""C11 bounded stand-in: total derivatives of random models against the exact ones."""
import numpy as np
from openmdao.api import ScipyGMRES, DirectSolver, LinearGaussSeidel
from pyvc.contract import Bounded, Reject
from bounded import gen
from bounded.c01_storage import flat, same, Storage


def choose_solvers(m, rng, kinds=('lgs', 'direct', 'assemble', 'gmres'), maxiter=12):
    out = []
    if any(c.style == 'mf' for c in m.comps):
        kinds = [k for k in kinds if k != 'assemble']       # refused with matrix-free components
    for g in m.groups:
        k = rng.choice(kinds)
        s = g.system
        if k == 'gmres':
            s.ln_solver = ScipyGMRES()
            s.ln_solver.options['atol'] = 1e-13
        elif k == 'direct':
            s.ln_solver = DirectSolver()
            s.ln_solver.options['solve_method'] = rng.choice(['LU', 'solve'])
        elif k == 'assemble':
            s.ln_solver = DirectSolver()
            s.ln_solver.options['jacobian_method'] = 'assemble'
        else:
            s.ln_solver = LinearGaussSeidel()
            s.ln_solver.options['maxiter'] = 1
            s.ln_solver.options['atol'] = 1e-14
            s.ln_solver.options['rtol'] = 1e-14
            s.ln_solver.options['single_voi_relevance_reduction'] = rng.random() < 0.5
        out.append('%s: %s' % (g.path, k))
        s.ln_solver.options['iprint'] = -1
    return ', '.join(out)


def perturb(m, p, rng):
    for v in m.unknowns.values():
        if v.comp.kind == 'indep' and not v.pbo:
            x = np.array([rng.randint(-8, 8) / 4.0 for _ in range(v.size)])
            v.val = x[0] if v.shape == 1 else x.reshape(v.shape)
            p[v.top] = v.val


class Totals(Bounded):
    prop = 'C11'
    covers = ('openmdao.core.problem: Problem.calc_gradient, _calc_gradient_ln_solver, _calc_gradient_fd; '
              'Driver.calc_gradient, _map_voi_indices; VecWrapper._get_local_idxs; Group.solve_linear, _sys_apply_linear')
    samples = 12000
    parts = 4
    styles = ('lin', 'mf', 'fd')
    kinds = ('lgs', 'direct', 'assemble', 'gmres')

    def sample(self, t, rng):
        m = gen.model(rng, states=rng.random() < 0.4, styles=rng.choice([('lin',), ('lin', 'mf'), ('lin', 'mf', 'fd')]),
                      quad=rng.random() < 0.5, scalers=rng.random() < 0.3)
        p = m.build()
        ins = [v for v in m.unknowns.values() if v.comp.kind == 'indep' and not v.pbo]
        outs = [v for v in m.unknowns.values() if not v.pbo]
        rng.shuffle(ins)
        rng.shuffle(outs)
        ins, outs = ins[:rng.randint(1, 3)], outs[:rng.randint(1, 3)]
        if not ins:
            raise Reject()
        names = [v.top for v in ins], [v.top for v in outs]
        sel, scal = {}, {}
        mode = rng.choice(['fwd', 'rev', 'fwd', 'rev', 'fd'])
        usedrv = rng.random() < 0.6

        def opts(v, which):
            kw = {}
            n = v.size
            if n > 1 and rng.random() < 0.5:
                idx = rng.sample(range(n), rng.randint(1, n))
                kw['indices'] = idx
                sel[which, v.abs] = idx
                n = len(idx)
            r = rng.random()
            if r < 0.3:
                kw['scaler'] = rng.choice([0.5, 2.0, -3.0])
            elif r < 0.5 and (mode == 'fd' or (which == 'in') != (mode == 'fwd')):
                # (array scalers of the seeded side: see SeedScalers)
                kw['scaler'] = np.array([rng.choice([0.5, 2.0, 3.0]) for _ in range(n)])
            if 'scaler' in kw:
                scal[which, v.abs] = kw['scaler']
            return kw
        both = set(v.abs for v in ins) & set(v.abs for v in outs)
        desc = []
        if usedrv:
            for v in ins:
                kw = opts(v, 'in')
                if v.abs in both and 'indices' in kw:
                    del kw['indices'], sel['in', v.abs]
                    kw.pop('scaler', None)
                    scal.pop(('in', v.abs), None)
                desc.append('desvar %s %s' % (v.top, kw))
                p.driver.add_desvar(v.top, **kw)
            for k, v in enumerate(outs):
                kw = opts(v, 'out')
                if v.abs in both:
                    kw = {}
                    sel.pop(('out', v.abs), None)
                    scal.pop(('out', v.abs), None)
                desc.append('response %s %s' % (v.top, kw))
                if k == 0:
                    p.driver.add_objective(v.top, **kw)
                else:
                    p.driver.add_constraint(v.top, lower=0.0, **kw)
            for x in both:
                scal.pop(('in', x), None)
        desc.append(choose_solvers(m, rng, self.kinds))
        fmt = rng.choice(['array', 'dict'])
        if mode == 'fd' and not all(any(q.source is v for q in m.params.values()) for v in ins):
            raise Reject()          # finite difference of an input nothing reads is refused with a KeyError
        desc.append('mode=%s %s in=%s out=%s' % (mode, fmt, names[0], names[1]))
        t.note(m.describe() + '\n' + '\n'.join(desc))
        if usedrv and both:
            for v in ins:
                if v.abs in both:
                    p.driver._desvars[v.top]['scaler'] = 1.0
        if mode != 'fd' and (usedrv or rng.random() < 0.5):
            # derivative vectors of a driver's variables are allocated for one mode
            p.root.ln_solver.options['mode'] = mode
        p.setup(check=False)
        perturb(m, p, rng)
        p.run()
        u = m.evaluate()
        try:
            T, off = m.totals(u)
        except np.linalg.LinAlgError:
            raise Reject()
        tol = 2e-4 if mode == 'fd' or any(c.style == 'fd' for c in m.comps) else 1e-6
        top = max([1.0] + [float(np.max(np.abs(x))) for x in (T,) if x.size])
        vals = max([1.0] + [float(np.max(np.abs(flat(x)))) for k, x in u.items() if not m.unknowns[k].pbo])
        if top > 1e6 or vals > 1e6 or (tol > 1e-5 and vals > 1e4) or (top > 1e3 and any('gmres' in x for x in desc)):
            raise Reject()          # nothing can be said about rounding
        st = Storage()
        before = st.snap(m, p)
        if usedrv:
            p.driver._problem = p
            J = p.driver.calc_gradient(names[0], names[1], mode=mode, return_format=fmt)
        else:
            J = p.calc_gradient(names[0], names[1], mode=mode, return_format=fmt)
        after = st.snap(m, p)
        for k in before:
            t.check('%s %s unchanged by the computation of derivatives' % (k[0], k[1]), same(before[k], after[k]))
        r = 0
        for o in outs:
            c0 = 0
            for i in ins:
                a, b = off[o.abs]
                e, f = off[i.abs]
                D = T[a:b, e:f]
                D = D[np.array(sel.get(('out', o.abs), range(o.size)), dtype=int)][:, np.array(sel.get(('in', i.abs), range(i.size)), dtype=int)]
                so, si = scal.get(('out', o.abs), 1.0), scal.get(('in', i.abs), 1.0)
                D = D * np.atleast_1d(so)[:, None] / np.atleast_1d(si)[None, :]
                if fmt == 'array':
                    G = J[r:r + D.shape[0], c0:c0 + D.shape[1]]
                else:
                    G = J[o.top][i.top]
                t.check('d(%s)/d(%s) has its own rows and columns' % (o.top, i.top), np.shape(G) == D.shape)
                s = top
                t.note('d(%s)/d(%s): %s want %s' % (o.top, i.top, np.array(G).tolist(), D.tolist()))
                t.check('d(%s)/d(%s) is the derivative' % (o.top, i.top), np.allclose(G, D, rtol=tol, atol=tol * s + (1e-9 * vals if tol > 1e-5 else 0.0)))
                c0 += D.shape[1]
            r += D.shape[0]
        if fmt == 'array':
            t.check('nothing but the requested rows and columns', J.shape == (r, c0))

    def known(self, f, t):
        # (restoring the params is ruled out by the repository's own test_simple_implicit_apply)
        if any('mode=fd' in str(x) for x in t.log) and f.startswith('param ') and 'unchanged by the computation' in f:
            return 'C11-fd-params'


class SeedScalers(Bounded):
    """array-valued scalers of the variables the linear solves are seeded with"""
    prop = 'C11'
    covers = 'Problem._calc_gradient_ln_solver: scaling of the seeded rows/columns'
    samples = 20
    parts = 1

    def sample(self, t, rng):
        from openmdao.api import Problem, Group, IndepVarComp, ExecComp
        n = rng.randint(2, 3)
        p = Problem(root=Group())
        p.root.add('p', IndepVarComp('x', np.ones(n)))
        p.root.add('c', ExecComp('y=3.0*x[0]+2.0*x', x=np.ones(n), y=np.ones(n)))
        p.root.connect('p.x', 'c.x')
        mode = rng.choice(['fwd', 'rev'])
        p.root.ln_solver.options['mode'] = mode
        s = np.array([rng.choice([2.0, 4.0, 0.5]) for _ in range(n)])
        q = np.array([rng.choice([2.0, 4.0, 0.5]) for _ in range(n)])
        p.driver.add_desvar('p.x', scaler=s if mode == 'fwd' else 1.0)
        p.driver.add_objective('c.y', scaler=q if mode == 'rev' else 1.0)
        t.note('%s: desvar scaler %s, response scaler %s' % (mode, s, q))
        p.setup(check=False)
        p.run()
        p.driver._problem = p
        J = p.driver.calc_gradient(['p.x'], ['c.y'], mode=mode)
        want = 2.0 * np.eye(n)
        want[:, 0] += 3.0
        want = want / s[None, :] if mode == 'fwd' else want * q[:, None]
        t.note('%s want %s' % (J.tolist(), want.tolist()))
        t.check('every entry has the scaler of its own element', np.allclose(J, want))

    def known(self, f, t):
        # test_driver_interface.test_scaler_adder_array_int expects the whole array to be applied to each column
        if f == 'every entry has the scaler of its own element':
            return 'C11-array-in-scale'
