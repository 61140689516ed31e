"""C19 bounded stand-ins: surrogates against differences of their own predictions; metamodels with any mix of params."""
import numpy as np
from openmdao.api import Problem, Group, IndepVarComp, MetaModel, MultiFiMetaModel
from openmdao.surrogate_models.surrogate_model import SurrogateModel, MultiFiSurrogateModel
from openmdao.surrogate_models.nearest_neighbor import NearestNeighbor
from openmdao.surrogate_models.response_surface import ResponseSurface
from openmdao.surrogate_models.kriging import KrigingSurrogate, FloatKrigingSurrogate
from pyvc.contract import Bounded, Reject


def points(rng, m, n):
    return np.array([[rng.uniform(-2.0, 2.0) for _ in range(n)] for _ in range(m)])


class Gradients(Bounded):
    prop = 'C19'
    covers = ('openmdao.surrogate_models: ResponseSurface, KrigingSurrogate, FloatKrigingSurrogate and NearestNeighbor (linear, weighted and radial basis '
              'interpolation): train, predict, linearize')
    samples = 1200
    parts = 3

    def make(self, t, rng, n):
        k = rng.choice(['response', 'response', 'linear', 'weighted', 'rbf', 'rbf', 'rbf'] + ['kriging', 'float kriging'] * (rng.random() < 0.3))
        if k == 'rbf':
            comp = rng.choice([-3, -2, -1, 0, 1, 2, 3, 4])
            return k + ' %d' % comp, NearestNeighbor('rbf', comp=comp, n=rng.choice([5, 6]))
        return k, {'response': ResponseSurface, 'kriging': KrigingSurrogate, 'float kriging': FloatKrigingSurrogate}.get(k, lambda: NearestNeighbor(k))()

    def sample(self, t, rng):
        n, ny = rng.randint(1, 6), rng.randint(1, 3)
        kind, s = self.make(t, rng, n)
        if kind == 'float kriging':
            ny = 1
        m = rng.randint(8, 14) if 'kriging' in kind else rng.randint(max(n + 2, 7), 30)
        if 'kriging' in kind:
            n = min(n, 3)
        x = points(rng, m, n)
        c = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(ny)]
        y = np.array([[np.sin(np.dot(cc, r)) + r[0] ** 2 for cc in c] for r in x])
        x0, y0 = x.copy(), y.copy()
        try:
            s.train(x, y)
        except ValueError as e:
            if 'optimization failed' in str(e):
                raise Reject()
            raise
        t.check('the training data stay', np.array_equal(x, x0) and np.array_equal(y, y0))
        t.note('%s n=%d ny=%d\nx=%r\ny=%r' % (kind, n, ny, x, y))
        for _ in range(2):
            p = points(rng, 1, n)[0]
            J = np.asarray(s.linearize(p.copy()))
            q = p.copy()
            s.predict(q)
            t.check('a prediction leaves its input as it is', q.shape == p.shape and np.array_equal(q, p))
            J2 = np.asarray(s.linearize(q))
            t.check('a gradient leaves its input as it is', q.shape == p.shape and np.array_equal(q, p))

            def diff(h):
                return np.stack([(np.ravel(s.predict(p + h * e)) - np.ravel(s.predict(p - h * e))) / (2 * h) for e in np.eye(n)], axis=1)
            F, G = diff(1e-5), diff(2.5e-6)
            if not np.allclose(F, G, rtol=1e-3, atol=1e-3 * (1 + np.max(np.abs(F)))):
                # at a kink
                continue
            t.check('a row for each output and a column for each input', J.shape == (ny, n))
            t.log.append((p, J, F))
            tol = 1e-3 * (1 + np.max(np.abs(F)))
            t.check('the gradient is that of the prediction', np.allclose(J, F, atol=tol, rtol=1e-3))
            t.check('the gradient is that of the prediction after it was made', np.allclose(J2, F, atol=tol, rtol=1e-3))
            t.log.pop()


class Quadratics(Bounded):
    prop = 'C19'
    covers = 'openmdao.surrogate_models.response_surface: ResponseSurface.train, predict, linearize'
    samples = 1500
    parts = 1

    def sample(self, t, rng):
        n, ny = rng.randint(1, 5), rng.randint(1, 3)
        m = (n + 1) * (n + 2) // 2 + rng.randint(0, 8)
        x = points(rng, m, n)
        c = [(rng.uniform(-2, 2), np.array([rng.uniform(-2, 2) for _ in range(n)]), np.array([rng.uniform(-2, 2) for _ in range(n * n)]).reshape(n, n))
             for _ in range(ny)]
        f = lambda p: np.array([a + b.dot(p) + p.dot(q).dot(p) for a, b, q in c])
        df = lambda p: np.array([b + (q + q.T).dot(p) for a, b, q in c])
        s = ResponseSurface()
        if rng.random() < 0.3:
            # (trained on something else before)
            k = rng.randint(1, 4)
            s.train(points(rng, 20, k), points(rng, 20, 1))
        X = np.ones((m, 1 + n + n * (n + 1) // 2))
        X[:, 1:n + 1] = x
        X[:, n + 1:] = np.stack([x[:, i] * x[:, j] for i in range(n) for j in range(i, n)], axis=1)
        if np.linalg.cond(X) > 1e5:
            raise Reject()
        s.train(x, np.array([f(r) for r in x]))
        for _ in range(3):
            p = points(rng, 1, n)[0]
            t.note(repr((x, c, p)))
            t.check('a quadratic is reproduced', np.allclose(s.predict(p), f(p), atol=1e-7))
            t.check('with its derivative', np.allclose(s.linearize(p), df(p), atol=1e-7))


class Kept(SurrogateModel):
    def train(self, x, y):
        super(Kept, self).train(x, y)
        self.x, self.y, self.times = np.array(x), np.array(y), getattr(self, 'times', 0) + 1

    def predict(self, x):
        SurrogateModel.predict(self, x)
        self.at = np.array(x)
        v = np.arange(self.size) + np.sum(x)
        return v.reshape(self.shape) if self.shape != 1 else float(v[0])

    def linearize(self, x):
        self.lin = np.array(x)
        return np.arange(self.size * x.size).reshape(self.size, x.size) + 0.5


class KeptMulti(MultiFiSurrogateModel):
    def train_multifi(self, x, y):
        self.x, self.y = [np.array(v) for v in x], [np.array(v) for v in y]
        self.trained = True
    predict, linearize = Kept.predict, Kept.linearize


class Meta(Bounded):
    prop = 'C19'
    covers = 'openmdao.components.meta_model: MetaModel; openmdao.components.multifi_meta_model: MultiFiMetaModel'
    samples = 1500
    parts = 2

    def data(self, rng, shape, m):
        """m values of a variable, in one of the forms they may be given in"""
        v = [np.array([rng.randint(-20, 20) / 4.0 for _ in range(int(np.prod(shape)) if shape != 1 else 1)]) for _ in range(m)]
        if shape == 1:
            form = rng.choice(['floats', 'array'])
            given = [float(x[0]) for x in v] if form == 'floats' else np.array([float(x[0]) for x in v])
        else:
            form = rng.choice(['arrays', 'lists', 'matrix'])
            given = [x.reshape(shape) for x in v] if form == 'arrays' else [x.reshape(shape).tolist() for x in v] if form == 'lists' else np.array([x.reshape(shape) for x in v])
        return given, np.array(v).reshape(m, -1)

    def sample(self, t, rng):
        nfi = rng.choice([1, 1, 2, 3])
        multi = nfi > 1 or rng.random() < 0.2
        shapes = [1, 1, (1,), (2,), (3,), (2, 2)]
        ins = [(n, rng.choice(shapes)) for n in rng.sample(['x', 'a', 'z', 'q1', 'train_x'], rng.randint(1, 4))]
        outs = [(n, rng.choice(shapes)) for n in rng.sample(['y', 'f', 'b'], rng.randint(1, 3))]
        mm = MultiFiMetaModel(nfi=nfi) if multi else MetaModel()
        mm.warm_restart = warm = rng.random() < 0.4
        zero = lambda s: 0.0 if s == 1 else np.zeros(s)
        order = [('p',) + v for v in ins] + [('u',) + v for v in outs]
        rng.shuffle(order)
        sur = {}
        for k, n, s in order:
            if k == 'p':
                mm.add_param(n, zero(s))
                continue
            sur[n] = (KeptMulti if multi and nfi > 1 else Kept)()
            sur[n].size, sur[n].shape = int(np.prod(s)), s
            mm.add_output(n, zero(s), surrogate=sur[n])
        ins = [(n, s) for k, n, s in order if k == 'p']
        outs = [(n, s) for k, n, s in order if k == 'u']
        p = Problem(root=Group())
        p.root.add('m', mm)
        for n, s in ins:
            p.root.add('i_' + n, IndepVarComp('v', zero(s)))
            p.root.connect('i_%s.v' % n, 'm.' + n)
        p.setup(check=False)
        t.note('%r %r nfi=%d warm=%s multi=%s' % (ins, outs, nfi, warm, multi))
        old = {}
        cols = sum(int(np.prod(s)) for n, s in ins)
        for k in range(3):
            train = k == 0 or rng.random() < 0.5
            if train:
                mm.train = True
                for fi in range(nfi):
                    m = rng.randint(1, 4)
                    for n, s in ins + outs:
                        given, flat = self.data(rng, s, m)
                        p['m.train:' + n + ('_fi%d' % (fi + 1) if fi else '')] = given
                        before = old.get((n, fi))
                        old[n, fi] = np.vstack([before, flat]) if warm and before is not None else flat
            cur = {n: np.array([rng.randint(-20, 20) / 4.0 for _ in range(int(np.prod(s)))]) for n, s in ins}
            for n, s in ins:
                p['i_%s.v' % n] = float(cur[n][0]) if s == 1 else cur[n].reshape(s)
            p.run()
            flat = np.concatenate([cur[n] for n, s in ins])
            for n, s in outs:
                g = sur[n]
                for fi in range(nfi):
                    x = g.x[fi] if nfi > 1 else g.x if not isinstance(g.x, list) else g.x[0]
                    y = g.y[fi] if nfi > 1 else g.y if not isinstance(g.y, list) else g.y[0]
                    want = np.hstack([old[v, fi] for v, _ in ins])
                    t.check('trained with every point, each param in its columns', x.shape == want.shape and np.array_equal(x, want))
                    t.check('trained with the values of its output', y.shape == old[n, fi].shape and np.array_equal(y, old[n, fi]))
                if hasattr(g, 'times') and not multi:
                    t.check('trained when asked to', g.times == 1 + self.extra(t, k, train))
                t.check('evaluated at the params, in the order of the columns', np.array_equal(np.ravel(g.at), flat))
                t.check('its prediction is the output', np.allclose(np.ravel(p['m.' + n]), np.arange(g.size) + flat.sum()))
            J = mm.linearize(mm.params, mm.unknowns, mm.resids)
            for n, s in outs:
                t.check('derivatives at the params', np.array_equal(np.ravel(sur[n].lin), flat))
                want, i = np.arange(sur[n].size * cols).reshape(sur[n].size, cols) + 0.5, 0
                for v, z in ins:
                    w = int(np.prod(z))
                    t.check('each param has the columns of its inputs', np.array_equal(J[n, v], want[:, i:i + w]))
                    i += w

    def extra(self, t, k, train):
        if k == 0:
            t.extra = 0
        elif train and t.counted != k:
            t.extra += 1
        t.counted = k
        return t.extra


class Mixed(Bounded):
    prop = 'C19'
    covers = 'openmdao.components.meta_model: MetaModel.solve_nonlinear, linearize with different surrogates for its outputs'
    samples = 150
    parts = 1

    def sample(self, t, rng):
        n = rng.randint(1, 3)
        mk = [ResponseSurface, ResponseSurface] + [lambda k=k: NearestNeighbor(k) for k in ('linear', 'weighted', 'rbf')] + [FloatKrigingSurrogate] * (rng.random() < 0.2)
        outs = [('y%d' % i, rng.choice(mk)) for i in range(rng.randint(2, 4))]
        x = points(rng, 20, n)
        y = {o: np.array([np.sin(r.sum()) + i * r[0] ** 2 for r in x]) for i, (o, _) in enumerate(outs)}
        mm = MetaModel()
        mm.add_param('x', np.zeros(n))
        alone = {}
        for o, k in outs:
            mm.add_output(o, 0.0, surrogate=k())
            alone[o] = k()
            try:
                alone[o].train(x.copy(), y[o].reshape(-1, 1))
            except ValueError:
                raise Reject()
        p = Problem(root=Group())
        p.root.add('m', mm)
        p.root.add('i', IndepVarComp('v', np.zeros(n)))
        p.root.connect('i.v', 'm.x')
        p.setup(check=False)
        p['m.train:x'] = [r for r in x]
        for o, _ in outs:
            p['m.train:' + o] = [float(v) for v in y[o]]
        for _ in range(2):
            q = points(rng, 1, n)[0]
            t.note(repr(([type(a).__name__ for a in alone.values()], q)))
            p['i.v'] = q
            p.run()
            J = mm.linearize(mm.params, mm.unknowns, mm.resids)
            for o, _ in outs:
                t.check('each output is the prediction of its surrogate', np.allclose(np.ravel(p['m.' + o]), np.ravel(alone[o].predict(q.copy()))))
                t.check('each derivative is that of its surrogate', np.allclose(np.ravel(J[o, 'x']), np.ravel(alone[o].linearize(q.copy()))))
