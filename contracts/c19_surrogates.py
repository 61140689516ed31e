"""C19: metamodels and the response surface (openmdao/components/meta_model.py, openmdao/surrogate_models/response_surface.py)."""
import itertools
from pyvc.contract import *
from openmdao.surrogate_models.response_surface import ResponseSurface
from openmdao.components.meta_model import MetaModel
import openmdao.surrogate_models.response_surface as rs

M = 'openmdao.'


class Box(object):
    """stands for anything with attributes"""


def terms(n):
    return (n + 1) * (n + 2) // 2


class Gradient(Contract):
    """What is reported is the derivative of the prediction: for a quadratic p that is the J with
    p(d) - p(-d) = 2 J(0) d and p(x + d) - p(x) - J(x) d = p(d) - p(0) - J(0) d, for all x and d."""
    prop = 'C19'
    target = M + 'surrogate_models.response_surface:ResponseSurface.linearize'
    cases = ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (5, 1))

    def build(self, c, case):
        n, ny = case
        S = NS(n=n, ny=ny)
        S.betas = c.array('betas', (terms(n), ny))
        S.b0 = c.snap(S.betas)
        S.x, S.d = c.array('x', n), c.array('d', n)
        S.x0 = c.snap(S.x)
        S.s = c.obj(ResponseSurface, trained=True, n=n, m=c.int('m', 0), betas=S.betas)
        S.args = (S.s, S.x, S.d)
        return S

    @staticmethod
    def program(s, x, d):
        return [s.linearize(x), s.linearize(0.0 * d)], [s.predict(d), s.predict(-d), s.predict(x + d), s.predict(x), s.predict(0.0 * d)]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        (J, J0), (pd, pm, px, p, p0) = [c.keys_(v) for v in out.value]
        c.check('shape', And(c.eq(c.dim(J, 0), S.ny), c.eq(c.dim(J, 1), S.n)))
        for k in range(S.ny):
            dot = lambda m: sum((c.at(m, k, i) * c.at(S.d, i) for i in range(1, S.n)), c.at(m, k, 0) * c.at(S.d, 0))
            at = lambda v: c.at(v, k)
            c.check('derivative where the inputs are zero', c.eq(at(pd) - at(pm), 2.0 * dot(J0)))
            c.check('derivative anywhere', c.eq(at(px) - at(p) - dot(J), at(pd) - at(p0) - dot(J0)))
        c.check('input and coefficients stay', And(c.eq(S.x, S.x0), c.eq(c.attr(S.s, 'betas'), S.b0)))


class Fits(Contract):
    """trained with data some quadratic fits, the surface predicts every one of them (least squares trusted to fit)"""
    prop = 'C19'
    target = M + 'surrogate_models.response_surface:ResponseSurface.train'
    cases = (1, 2, 3, 4)
    rac = 60

    def build(self, c, case):
        n = case
        S = NS(n=n)
        S.m = c.int('m', terms(n))
        S.x, S.y = c.array('x', (S.m, n)), c.array('y', (S.m, 1))
        if not c.sym:
            # (values of a quadratic)
            S.y[:, 0] = [1.5 - 2.0 * r.sum() + r.sum() ** 2 + r[0] ** 2 for r in S.x]
            S.x *= 0.1
            S.y[:, 0] = [1.5 - 2.0 * r.sum() + r.sum() ** 2 + r[0] ** 2 for r in S.x]
        S.x0, S.y0 = c.snap(S.x), c.snap(S.y)
        S.k = c.idx('k', S.m)
        S.s = c.obj(ResponseSurface, trained=c.flag('trained'), n=c.int('n_old', 0), m=c.int('m_old', 0), betas=c.array('old', (3, 1)))
        S.args = (S.s, S.x, S.y, S.k)
        return S

    def overrides(self, c, S):
        def lstsq(X, y, *args, **kw):
            b = c.array('betas', (c.dim(X, 1), c.dim(y, 1)))
            X0, y0 = c.snap(X), c.snap(y)
            K = terms(S.n)
            c.check('as many coefficients as terms', c.eq(c.dim(X, 1), K))
            c.assume(c.forall(0, S.m, lambda i: c.eq(sum((c.at(X0, i, j) * c.at(b, j, 0) for j in range(1, K)), c.at(X0, i, 0) * c.at(b, 0, 0)), c.at(y0, i, 0))))
            return b, None, K, None
        return {'lstsq': c.model(lstsq, 'lstsq')}

    @staticmethod
    def program(s, x, y, k):
        s.train(x, y)
        return s.predict(x[k])

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('the data are reproduced', c.eq(c.at(out.value, 0), c.at(S.y0, S.k, 0)) if c.sym else abs(out.value[0] - S.y0[S.k, 0]) < 1e-6)
        c.check('the data stay', And(c.eq(S.x, S.x0), c.eq(S.y, S.y0)))


class Surrogate(object):
    """stands for a surrogate"""


def metamodel(c, S, ins, outs, **attrs):
    """params and outputs: a, b arrays of any size, s, r numbers; f an array of any size, y a number"""
    S.ins, S.outs = ins, outs
    S.size = {v: 1 if v in 'sry' else c.int('n_' + v, 1) for v in ins + outs}
    S.at, pos = {}, 0
    for v in ins:
        S.at[v] = pos
        pos = pos + S.size[v]
    S.width = pos
    S.sur = {v: c.obj(Surrogate, **attrs.pop(v)) for v in outs}
    S.unk = c.odict([(v, c.odict([('surrogate', S.sur[v]), ('shape', 1 if v == 'y' else (S.size[v],))])) for v in outs])
    return c.obj(MetaModel, pathname='m', _surrogate_param_names=[(v, S.size[v]) for v in ins], _surrogate_output_names=[(v, 1 if v == 'y' else (S.size[v],)) for v in outs],
                 _input_size=S.width, _init_unknowns_dict=S.unk, **attrs)


class Train(Contract):
    """every surrogate is trained, once, with every point: what was there (if it is kept) and then the new ones, each variable in its own columns"""
    prop = 'C19'
    target = M + 'components.meta_model:MetaModel._train'
    cases = tuple((ins, outs, warm) for ins, outs in (('s', 'y'), ('a', 'f'), ('as', 'fy'), ('sa', 'y'), ('ab', 'f'), ('abs', 'yf'), ('asb', 'y')) for warm in (False, True))
    weight = 2

    def build(self, c, case):
        ins, outs, warm = case
        S = NS(warm=warm, runs=[])
        m = S.m = c.int('m', 1)
        old = S.old = c.int('old', 0) if warm else 0

        def train(v):
            def f(x, y):
                S.runs.append((v, c.snap(x), c.snap(y)))
            return f
        comp = metamodel(c, S, list(ins), list(outs), warm_restart=warm, train=True, **{v: dict(train=c.method(train(v))) for v in outs})
        val = lambda v: c.array('train_' + v, m if S.size[v] == 1 and v in 'sry' else (m, S.size[v]))
        S.val = {v: val(v) for v in ins + outs}
        S.val0 = {v: c.snap(S.val[v]) for v in ins + outs}
        S.oldx = c.array('old_x', (old, S.width)) if warm else c.array('old_x', 0)
        S.oldy = {v: c.array('old_' + v, (old, S.size[v])) if warm else c.array('old_' + v, 0) for v in outs}
        S.x0, S.y0 = c.snap(S.oldx), {v: c.snap(S.oldy[v]) for v in outs}
        c.put_attr(comp, '_training_input', S.oldx)
        c.put_attr(comp, '_training_output', c.dict([(v, S.oldy[v]) for v in outs]))
        c.put_attr(comp, 'params', c.odict([('train:' + v, S.val[v]) for v in ins + outs]))
        S.comp = comp
        S.args = (comp,)
        return S

    @staticmethod
    def program(comp):
        comp._train()

    def point(self, c, S, v, i, j):
        """element j of v in new point i"""
        return c.at(S.val0[v], i) if v in 'sry' else c.at(S.val0[v], i, j)

    def rows(self, c, S, x, v, at, k):
        return c.forall(0, k, lambda i: c.forall(0, S.size[v], lambda j: c.eq(c.at(x, S.old + i, at + j), self.point(c, S, v, i, j))))

    def kept(self, c, S, x, was):
        if not S.warm:
            return True
        return c.forall(0, S.old, lambda i: c.forall(0, c.dim(was, 1), lambda j: c.eq(c.at(x, i, j), c.at(was, i, j))))

    def loopspecs(self, c, S):
        def given(L):
            return [('the given data stay', And([c.eq(S.val[v], S.val0[v]) for v in S.ins + S.outs]))]

        def inputs(L, k, S_):
            x = L.inputs
            now = L.name
            out = [('old points stay', self.kept(c, S, x, S.x0))]
            for v in S.ins[:S.ins.index(now)]:
                out.append(('columns of %s' % v, self.rows(c, S, x, v, S.at[v], S.m)))
            return out + [('points so far of %s' % now, self.rows(c, S, x, now, S.at[now], k))] + given(L)

        def outputs(L, k, S_):
            x = L.outputs
            return [('old values stay', self.kept(c, S, x, S.y0[L.name])), ('values so far', self.rows(c, S, x, L.name, 0, k))] + given(L)
        return {3: LoopSpec(inv=inputs), 5: LoopSpec(inv=outputs)}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('each surrogate is trained once', len(S.runs) == len(S.outs) and sorted(r[0] for r in S.runs) == sorted(S.outs))
        for v, x, y in S.runs:
            c.check('as many points as given', And(c.eq(c.dim(x, 0), S.old + S.m), c.eq(c.dim(x, 1), S.width), c.eq(c.dim(y, 0), S.old + S.m), c.eq(c.dim(y, 1), S.size[v])))
            c.check('old points', self.kept(c, S, x, S.x0))
            for p in S.ins:
                c.check('%s in its own columns' % p, self.rows(c, S, x, p, S.at[p], S.m))
            c.check('old values', self.kept(c, S, y, S.y0[v]))
            c.check('values of the output', self.rows(c, S, y, v, 0, S.m))
        c.check('no more training', Not(c.attr(S.comp, 'train')))
        c.check('the given data stay', And([c.eq(S.val[v], S.val0[v]) for v in S.ins + S.outs]))
        c.check('the points are kept', c.eq(c.dim(c.attr(S.comp, '_training_input'), 0), S.old + S.m))


class Unequal(Train):
    """variables with different numbers of points are an error, before anything is trained"""
    cases = (('as', 'y', False), ('s', 'yf', True), ('ab', 'fy', False))

    def build(self, c, case):
        S = super(Unequal, self).build(c, case)
        S.which = c.choice('which', list(S.ins + S.outs))
        S.m2 = c.int('m2', 0)
        c.assume(Not(c.eq(S.m, S.m2)))
        v = c.array('other', S.m2 if S.which in 'sry' else (S.m2, S.size[S.which]))
        c.put(c.attr(S.comp, 'params'), 'train:' + S.which, v)
        return S

    def loopspecs(self, c, S):
        return {}

    def ensures(self, c, S, out):
        c.check('an error', Or(out.exc is RuntimeError, len(S.ins + S.outs) == 1))
        c.check('nothing is trained', len(S.runs) == 0)


class Predict(Contract):
    """every surrogate is asked for its prediction at the params in the order of the columns, and that is the output"""
    prop = 'C19'
    target = M + 'components.meta_model:MetaModel.solve_nonlinear'
    cases = tuple((ins, outs) for ins, outs in (('s', 'y'), ('a', 'f'), ('as', 'fy'), ('sa', 'y'), ('ab', 'f'), ('abs', 'yf'), ('asb', 'y')))

    def build(self, c, case):
        ins, outs = case
        S = NS(seen=[], lin=[])
        attrs = {}
        S.pred, S.jac = {}, {}

        def predict(v):
            def f(x):
                S.seen.append((v, c.snap(c.flat(x))))
                return S.pred[v]
            return f

        def linearize(v):
            def f(x):
                S.lin.append((v, c.snap(c.flat(x))))
                return S.jac[v]
            return f
        comp = metamodel(c, S, list(ins), list(outs), train=False, **{v: dict(predict=c.method(predict(v)), linearize=c.method(linearize(v))) for v in outs})
        for v in outs:
            S.pred[v] = c.real('pred_' + v) if v == 'y' else c.array('pred_' + v, S.size[v])
            S.jac[v] = c.array('jac_' + v, (S.size[v], S.width))
        S.val = {v: c.real(v) if v in 'sr' else c.array(v, S.size[v]) for v in ins}
        S.val0 = {v: S.val[v] if v in 'sr' else c.snap(S.val[v]) for v in ins}
        S.jac0 = {v: c.snap(S.jac[v]) for v in outs}
        S.p = c.odict([(v, S.val[v]) for v in ins])
        S.u = c.odict([(v, None) for v in outs])
        S.comp = comp
        S.args = (comp, S.p, S.u)
        return S

    @staticmethod
    def program(comp, p, u):
        comp.solve_nonlinear(p, u, None)
        return comp.linearize(p, u, None)

    def right(self, c, S, x):
        out = [c.eq(c.len(x), S.width)]
        for v in S.ins:
            out.append(c.forall(0, S.size[v], lambda j, v=v: c.eq(c.at(x, S.at[v] + j), S.val0[v] if v in 'sr' else c.at(S.val0[v], j))))
        return And(out)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('each surrogate is asked once', sorted(v for v, x in S.seen) == sorted(S.outs) and sorted(v for v, x in S.lin) == sorted(S.outs))
        for v, x in S.seen + S.lin:
            c.check('at the params, in the order of the columns', self.right(c, S, x))
        for v in S.outs:
            c.check('the prediction is the output', c.same(c.item(S.u, v), S.pred[v]) if v != 'y' else c.eq(c.item(S.u, v), S.pred[v]))
            for p in S.ins:
                J = c.item(out.value, (v, p))
                c.check('shape', And(c.eq(c.dim(J, 0), S.size[v]), c.eq(c.dim(J, 1), S.size[p])))
                c.check('each param has its own columns of the derivatives', c.forall(0, S.size[v], lambda i, v=v, p=p, J=J: c.forall(
                    0, S.size[p], lambda j: c.eq(c.at(J, i, j), c.at(S.jac0[v], i, S.at[p] + j)))))
        c.check('a derivative for each pair', c.len(c.keys(out.value)) == len(S.ins) * len(S.outs))
        for v in S.ins:
            c.check('the params stay', c.eq(c.item(S.p, v), S.val0[v]))
