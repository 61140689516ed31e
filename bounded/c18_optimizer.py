"""C18 bounded stand-in: what ScipyOptimizer hands to scipy.optimize.minimize, asked back at many points."""
import numpy as np
from openmdao.api import Problem, Group, Component, IndepVarComp
from openmdao.drivers.scipy_optimizer import ScipyOptimizer
import openmdao.drivers.scipy_optimizer as module
from pyvc.contract import Bounded, Reject

SHAPES = (1, (1,), (2,), (3,), (2, 2), (1, 2))


def arr(rng, n, k=8):
    return np.array([rng.randint(-k, k) / 4.0 for _ in range(n)])


class Quad(Component):
    """every output is A x + B x**2 + c in all inputs"""
    def __init__(self, ins, outs, rng):
        super(Quad, self).__init__()
        self.ins, self.outs = ins, outs
        self.A, self.B, self.c = {}, {}, {}
        self.runs = 0
        for n, s in ins.items():
            self.add_param(n, np.zeros(s) if s != 1 else 0.0)
        for o, s in outs.items():
            m = int(np.prod(s))
            self.add_output(o, np.zeros(s) if s != 1 else 0.0)
            self.c[o] = arr(rng, m)
            for n, t in ins.items():
                k = int(np.prod(t))
                self.A[o, n] = arr(rng, m * k).reshape(m, k)
                self.B[o, n] = arr(rng, m * k, 4).reshape(m, k)

    def at(self, o, x):
        return self.c[o] + sum(self.A[o, n].dot(x[n]) + self.B[o, n].dot(x[n] ** 2) for n in self.ins)

    def d(self, o, n, x):
        return self.A[o, n] + 2.0 * self.B[o, n] * x[n][None, :]

    def solve_nonlinear(self, p, u, r):
        self.runs += 1
        x = {n: np.ravel(p[n]).astype(float) for n in self.ins}
        for o, s in self.outs.items():
            v = self.at(o, x)
            u[o] = v[0] if s == 1 else v.reshape(s)

    def linearize(self, p, u, r):
        x = {n: np.ravel(p[n]).astype(float) for n in self.ins}
        return {(o, n): self.d(o, n, x) for o in self.outs for n in self.ins}


class Done(object):
    success = True


class Handed(Bounded):
    prop = 'C18'
    covers = ('openmdao.drivers.scipy_optimizer: ScipyOptimizer.run, _objfunc, _confunc, _gradfunc, _congradfunc; Driver.add_desvar, add_objective, '
              'add_constraint, get_constraints, set_desvar, calc_gradient')
    samples = 4000
    parts = 3

    def sample(self, t, rng):
        names = ['x', 'ax', 'z', 'x1'][:rng.randint(1, 4)]
        rng.shuffle(names)
        ins = {n: rng.choice(SHAPES) for n in names}
        outs = {n: rng.choice(SHAPES) for n in ['g', 'ag', 'h', '2g'.replace('2', 'k')][:rng.randint(0, 4)]}
        outs['f'] = rng.choice([1, 1, (1,), (2,), (2, 2)])
        order = list(outs)
        rng.shuffle(order)
        q = Quad(ins, {o: outs[o] for o in order}, rng)
        p = Problem(root=Group())
        start = {n: arr(rng, int(np.prod(s))) for n, s in ins.items()}
        promo = rng.random() < 0.5
        for n, s in ins.items():
            p.root.add('p_' + n, IndepVarComp(n, float(start[n][0]) if s == 1 else start[n].reshape(s)), promotes=[n] if promo else [])
        p.root.add('q', q, promotes=['*'] if promo else [])
        if not promo:
            for n in ins:
                p.root.connect('p_%s.%s' % (n, n), 'q.' + n)
        top = lambda n: n if promo else ('p_%s.%s' % (n, n) if n in ins else 'q.' + n)
        d = p.driver = ScipyOptimizer()
        opt = rng.choice(['SLSQP', 'SLSQP', 'SLSQP', 'COBYLA', 'L-BFGS-B', 'TNC', 'BFGS', 'CG', 'Newton-CG', 'Nelder-Mead', 'Powell'])
        d.options['optimizer'] = opt
        d.options['disp'] = False
        d.options['tol'] = rng.choice([1e-6, 1e-3])
        d.options['maxiter'] = rng.randint(1, 300)
        if rng.random() < 0.3:
            p.root.deriv_options['type'] = 'user'
        gradients = opt not in ('COBYLA', 'Nelder-Mead', 'Powell')
        desc = ['%s %s %s' % (opt, ins, outs)]
        neg = rng.random() < 0.1

        def scaling(n, arrays=True):
            kw, sc, ad = {}, np.ones(n), np.zeros(n)
            if rng.random() < 0.4:
                if arrays and rng.random() < 0.4:
                    sc = np.array([rng.choice([2.0, 0.5, 4.0, -2.0 if neg else 1.0]) for _ in range(n)])
                    kw['scaler'] = sc.copy()
                else:
                    s = rng.choice([2.0, 0.5, 3.0, -2.0 if neg else 1.0])
                    sc = np.full(n, s)
                    kw['scaler'] = s
            if rng.random() < 0.4:
                if arrays and rng.random() < 0.4:
                    ad = arr(rng, n)
                    kw['adder'] = ad.copy()
                else:
                    a = rng.randint(-4, 4) / 2.0
                    ad = np.full(n, a)
                    kw['adder'] = a
            return kw, sc, ad

        def limit(n, s, sub):
            if rng.random() < 0.5:
                v = rng.randint(-12, 12) / 4.0
                return v, np.full(n, v)
            v = arr(rng, n, 12)
            return (v.reshape(s).copy() if not sub and s != 1 else v.copy()), v
        dv = [n for n in names if rng.random() < 0.8] or names[:1]
        rng.shuffle(dv)
        xs, bounds = [], []
        for n in dv:
            size = int(np.prod(ins[n]))
            idx = list(range(size))
            kw = {}
            sub = size > 1 and rng.random() < 0.3
            if sub:
                idx = rng.sample(idx, rng.randint(1, size))
                kw['indices'] = list(idx)
            k2, sc, ad = scaling(len(idx), not gradients)
            kw.update(k2)
            lo = hi = None
            if rng.random() < 0.6:
                kw['lower'], lo = limit(len(idx), ins[n], sub)
            if rng.random() < 0.6:
                kw['upper'], hi = limit(len(idx), ins[n], sub)
            d.add_desvar(top(n), **kw)
            desc.append('desvar %s %s' % (n, kw))
            xs.append((n, idx, sc, ad))
            for j in range(len(idx)):
                b = [None if v is None else (v[j] + ad[j]) * sc[j] for v in (lo, hi)]
                bounds.append(tuple(b if sc[j] > 0 else b[::-1]))
        fs = int(np.prod(outs['f']))
        k2, fsc, fad = scaling(1, False)
        fi = 0
        if fs > 1:
            fi = rng.randrange(fs)
            k2['indices'] = [fi]
        if rng.random() < 0.5:
            k2['scaler'] = -2.0
            fsc = np.array([-2.0])
        cons = []

        def objective():
            d.add_objective(top('f'), **k2)
            desc.append('objective %s' % k2)

        def constraints():
            for g in order:
                if g == 'f' or opt not in ('SLSQP', 'COBYLA') or rng.random() < 0.2:
                    continue
                size = int(np.prod(outs[g]))
                idx = list(range(size))
                kw = {}
                sub = size > 1 and rng.random() < 0.3
                if sub:
                    idx = rng.sample(idx, rng.randint(1, size))
                    kw['indices'] = list(idx)
                k3, sc, ad = scaling(len(idx), not gradients)
                kw.update(k3)
                kind = rng.choice(['lower', 'upper', 'both'] + (['equals'] if opt == 'SLSQP' else []))
                for w in (('lower', 'upper') if kind == 'both' else (kind,)):
                    kw[w], v = limit(len(idx), outs[g], sub)
                    cons.append((g, idx, sc, ad, w, v))
                d.add_constraint(top(g), **kw)
                desc.append('constraint %s %s' % (g, kw))
        if rng.random() < 0.5:
            objective()
            constraints()
        else:
            constraints()
            objective()
        t.note('\n'.join(desc))
        t.neg = any(s < 0 for n, i, sc, ad in xs for s in sc) or any(s < 0 for g, i, sc, ad, w, v in cons for s in sc)
        p.setup(check=False)
        calls = []

        def fake(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
            calls.append(dict(x0=np.array(x0), method=method, bounds=bounds, tol=tol, options=dict(options or {}), jac=jac, cons=constraints))
            self.ask(t, rng, q, fun, x0, jac, bounds, constraints, opt, start, xs, bounds_, fi, fsc, fad, cons, outs, p, top, dv, names)
            return Done()
        bounds_ = bounds
        real = module.minimize
        module.minimize = fake
        try:
            p.run()
        finally:
            module.minimize = real
        t.check('the optimizer is called once', len(calls) == 1)
        c = calls[0]
        t.check('the method, tolerance and iteration limit are those asked for', c['method'] == opt and c['tol'] == d.options['tol'] and
                c['options'].get('maxiter') == d.options['maxiter'])

    def known(self, f, t):
        if t.neg and (f.startswith('every constraint is positive') or f.startswith('bounds are') or f.startswith('an element without a bound')):
            return 'C18-negative-scaler'

    def ask(self, t, rng, q, fun, x0, jac, bounds, constraints, opt, start, xs, want, fi, fsc, fad, cons, outs, p, top, dv, names):
        flat0 = np.concatenate([(start[n][idx] + ad) * sc for n, idx, sc, ad in xs])
        t.check('the optimizer starts at the initial design', np.shape(x0) == flat0.shape and np.allclose(x0, flat0, atol=1e-12))
        if opt in ('SLSQP', 'L-BFGS-B', 'TNC'):
            t.check('one pair of bounds for each design variable element', bounds is not None and len(bounds) == len(want))
            for got, w in zip(bounds, want):
                for g, v, s in zip(got, w, (-1, 1)):
                    if v is None:
                        t.check('an element without a bound is free', g is None or g * s > 1e50)
                    else:
                        t.check('bounds are the declared ones', g is not None and np.isscalar(g) and abs(g - v) < 1e-9)
        if opt not in ('COBYLA', 'Nelder-Mead', 'Powell'):
            t.check('a gradient is provided', jac is not None)
        asked = None
        for k in range(3):
            x = flat0.copy() if k == 0 else np.array([rng.randint(-12, 12) / 4.0 for _ in flat0])
            val = {n: start[n].copy() for n in names}
            i = 0
            for n, idx, sc, ad in xs:
                val[n][idx] = x[i:i + len(idx)] / sc - ad
                i += len(idx)
            dx = lambda o, rows: np.hstack([q.d(o, n, val)[rows][:, idx] / sc[None, :] for n, idx, sc, ad in xs])
            # most methods ask for a gradient right where they asked for the value; Newton-CG also elsewhere
            lone = jac is not None and opt == 'Newton-CG' and rng.random() < 0.5
            t.lone = lone
            if not lone:
                f = fun(x.copy())
                t.check('the objective is a number', np.size(f) == 1)
                t.check('the objective value is that of the point asked for', abs(float(np.ravel(f)[0]) - (q.at('f', val)[fi] + fad[0]) * fsc[0]) < 1e-8)
                for n in names:
                    t.check('the model runs at the point asked for', np.allclose(np.ravel(p[top(n)]), val[n], atol=1e-9))
            exp = []
            for g, idx, sc, ad, w, v in cons:
                y = q.at(g, val)[idx]
                J = dx(g, idx)
                for j in range(len(idx)):
                    s = abs(sc[j]) * (1 if w != 'upper' else -1)
                    exp.append((w == 'equals', (y[j] - v[j]) * s, J[j] * s))
            order = ['f', 'g', 'j', 'gj']
            if jac is not None:
                G = np.array(jac(x.copy()))
                e = dx('f', [fi])[0] * fsc[0]
                t.check('the gradient of the objective is that of the point asked for', G.shape == e.shape and np.allclose(G, e, atol=1e-7))
            got = []
            for cd in constraints:
                v = cd['fun'](x.copy(), *cd.get('args', ()))
                t.check('a constraint is a number', np.size(v) == 1)
                j = np.array(cd['jac'](x.copy(), *cd.get('args', ()))) if cd.get('jac') is not None else None
                got.append((cd['type'] == 'eq', float(np.ravel(v)[0]), j))
            t.check('one constraint for each limit of each element', len(got) == len(exp))
            left = list(exp)
            for eq, v, j in got:
                t.check('gradients of constraints are provided', opt != 'SLSQP' or j is not None)
                hit = None
                for m, (eq2, v2, j2) in enumerate(left):
                    for s in ((1, -1) if eq else (1,)):
                        if eq == eq2 and abs(v - s * v2) < 1e-8 and (j is None or j.shape == j2.shape and np.allclose(j, s * j2, atol=1e-7)):
                            hit = m
                if hit is None:
                    t.check('every constraint is positive exactly when its limit holds, and its gradient is its own', False)
                    return
                left.pop(hit)
