"""C09 bounded stand-in: Newton and line-search runs of an implicit component with bounds, step by step."""
import numpy as np
from openmdao.api import Problem, Group, Component, Newton, DirectSolver, ScipyGMRES, IndepVarComp
from openmdao.solvers.backtracking import BackTracking
from pyvc.contract import Bounded, Reject

SHAPES = (1, (2,), (3,), (2, 2), (1, 3))


class Imp(Component):
    """A x + x^3 * q - b = 0 for a vector x split over several states; e is an explicit output with a bound"""

    def __init__(self, spec, A, b, q):
        super(Imp, self).__init__()
        self.A, self.b, self.q, self.spec = A, b, q, spec
        self.add_param('p', 1.0)
        for name, shape, val, lo, up, pbo in spec:
            kw = {}
            if lo is not None:
                kw['lower'] = lo
            if up is not None:
                kw['upper'] = up
            if pbo:
                kw['pass_by_obj'] = False
            self.add_state(name, val, **kw)
        self.trail = []

    def x(self, u):
        return np.concatenate([np.ravel(u[s[0]]) for s in self.spec]).astype(float)

    def residual(self, x):
        return self.A.dot(x) + self.q * x ** 3 - self.b

    def jac(self, x):
        return self.A + np.diag(3 * self.q * x ** 2)

    def solve_nonlinear(self, params, unknowns, resids):
        pass

    def apply_nonlinear(self, params, unknowns, resids):
        x = self.x(unknowns)
        self.trail.append(x)
        r = self.residual(x)
        k = 0
        for s in self.spec:
            n = np.size(s[2])
            resids[s[0]] = r[k] if s[1] == 1 else r[k:k + n].reshape(s[1])
            k += n

    def linearize(self, params, unknowns, resids):
        J, A = {}, self.jac(self.x(unknowns))
        i = 0
        for s in self.spec:
            n = np.size(s[2])
            j = 0
            for r in self.spec:
                m = np.size(r[2])
                J[s[0], r[0]] = A[i:i + n, j:j + m]
                j += m
            i += n
        return J


class Steps(Bounded):
    prop = 'C09'
    covers = 'openmdao.solvers.newton: Newton.solve; openmdao.solvers.backtracking: BackTracking.solve; SrcVecWrapper.distance_along_vector_to_limit'
    samples = 3000
    parts = 2

    def sample(self, t, rng):
        spec, lo, up = [], [], []
        for k in range(rng.randint(1, 3)):
            shape = rng.choice(SHAPES)
            n = 1 if shape == 1 else int(np.prod(shape))
            v = np.array([rng.randint(-6, 6) / 2.0 for _ in range(n)])

            def lim(sg):
                h = rng.choice(['none', 'real', 'array'])
                edge = rng.random() < 0.2
                if h == 'none':
                    return None, np.full(n, sg * np.inf)
                if h == 'real' or shape == 1:
                    x = float((max if sg > 0 else min)(v)) + (0.0 if edge else sg * rng.randint(1, 6) / 2.0)
                    return x, np.full(n, x)
                x = v + np.array([0.0 if edge else sg * rng.randint(1, 6) / 2.0 for _ in range(n)])
                return x.reshape(shape), x
            l, l_ = lim(-1)
            u, u_ = lim(1)
            spec.append(('s%d' % k, shape, float(v[0]) if shape == 1 else v.reshape(shape), l, u, rng.random() < 0.2))
            lo.append(l_)
            up.append(u_)
        lo, up = np.concatenate(lo), np.concatenate(up)
        n = len(lo)
        A = np.array([[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)]) + 6.0 * np.eye(n) * rng.choice([1, -1])
        b = np.array([rng.randint(-40, 40) / 2.0 for _ in range(n)])
        q = rng.choice([0.0, 0.0, 0.25])
        t.note('spec %r A %s b %s q %s' % (spec, A.tolist(), b.tolist(), q))
        p = Problem()
        p.root = Group()
        comp = p.root.add('c', Imp(spec, A, b, q))
        p.root.add('i', IndepVarComp('p', 1.0))
        p.root.connect('i.p', 'c.p')
        nl = p.root.nl_solver = Newton()
        nl.options['maxiter'] = rng.randint(1, 4)
        nl.options['alpha'] = alpha = rng.choice([1.0, 1.0, 0.5, 1.5])
        nl.options['iprint'] = -1
        p.root.ln_solver = DirectSolver()
        ls = rng.random() < 0.5
        if ls:
            nl.line_search = BackTracking()
            nl.line_search.options['maxiter'] = lsmax = rng.randint(1, 3)
            nl.line_search.options['rho'] = rho = rng.choice([0.5, 0.25])
            nl.line_search.options['c'] = cc = rng.choice([0.0, 0.5, 0.9])
            nl.line_search.options['iprint'] = -1
            t.note('line search maxiter %s rho %s c %s' % (lsmax, rho, cc))
        t.note('maxiter %s alpha %s' % (nl.options['maxiter'], alpha))
        p.setup(check=False)
        comp.trail = []
        p.run()
        trail = comp.trail
        if not np.all(np.isfinite(trail)) or any(abs(np.linalg.det(comp.jac(x))) < 1e-6 for x in trail):
            raise Reject()         # a singular jacobian: there is no step
        tol = 1e-9
        for x in trail:
            t.check('every point visited is within the limits', bool(np.all(x >= lo - tol) and np.all(x <= up + tol)))
        # replay the solver
        k, x, it = 1, trail[0], 0
        nrm = lambda x: np.linalg.norm(np.concatenate([comp.residual(x), [0.0]]))
        f0 = f = nrm(x)
        while it < nl.options['maxiter'] and k < len(trail):
            if f <= nl.options['atol'] or f / f0 <= nl.options['rtol']:
                t.check('a converged solve stops', k == len(trail))
            try:
                d = np.linalg.solve(comp.jac(x), -comp.residual(x))
            except np.linalg.LinAlgError:
                return
            it += 1
            base, fb, a = x, f, alpha

            def step(a):
                return np.minimum(np.maximum(base + a * d, lo), up), base
            want = np.clip(base + a * d, lo, up)
            stuck = ((base >= up - tol) & (d < 0)) | ((base <= lo + tol) & (d > 0))
            got = trail[k]
            t.check('the step is the longest one within the limits', bool(np.all(np.abs(got - want)[~stuck] < 1e-6)))
            t.check('an unknown at a limit may step away from it', bool(np.all(np.abs(got - want)[stuck] < 1e-6)))
            k, x = k + 1, got
            f = nrm(x)
            n_ls = 0
            while ls and n_ls < lsmax and fb - f < cc * a * fb and k < len(trail):
                a *= rho
                n_ls += 1
                want = np.clip(base + a * d, lo, up)
                got = trail[k]
                t.check('the line search step is the longest one within the limits', bool(np.all(np.abs(got - want)[~stuck] < 1e-6)))
                k, x = k + 1, got
                f = nrm(x)
        t.check('no further steps', k == len(trail))

    def known(self, f, t):
        # test_backtracking.test_bounds_array_initially_violated expects an unknown at a limit to stay there
        if f == 'an unknown at a limit may step away from it':
            return 'C09-no-step-from-limit'
