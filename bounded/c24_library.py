"""C24 bounded stand-ins: expression, constraint and linear-system components against independent evaluation."""
import warnings
import numpy as np
from openmdao.api import Problem, Group, IndepVarComp, ExecComp, ConstraintComp, LinearSystem, DirectSolver, ScipyGMRES
from pyvc.contract import Bounded, Reject


class Tree(object):
    """an expression: text, and its value and derivative at values and a direction"""
    def __init__(self, text, f, prec=9):
        self.text, self.f, self.prec = text, f, prec


def lift(a):
    return np.asarray(a, float)


FUNCS = {'sin': (np.sin, np.cos), 'cos': (np.cos, lambda x: -np.sin(x)), 'exp': (np.exp, np.exp), 'tanh': (np.tanh, lambda x: 1.0 / np.cosh(x) ** 2),
         'sinh': (np.sinh, np.cosh), 'cosh': (np.cosh, np.sinh), 'atan': (np.arctan, lambda x: 1.0 / (1.0 + x * x)), 'expm1': (np.expm1, np.exp),
         'abs': (np.abs, np.sign)}
POSITIVE = {'log': (np.log, lambda x: 1.0 / x), 'sqrt': (np.sqrt, lambda x: 0.5 / np.sqrt(x)), 'log10': (np.log10, lambda x: 1.0 / x / np.log(10.0))}


def steep(x, dx):
    # too steep, or near a kink, for a step of 1e-6 to tell
    if np.max(np.abs(x), initial=0) > 20 or np.max(np.abs(dx), initial=0) > 100:
        raise Reject()


def par(t, prec):
    return '(%s)' % t.text if t.prec < prec else t.text


def tree(rng, vars_, depth, shape):
    """vars_: name -> shape; the tree's value has the given shape (elementwise) or is a number if shape == ()"""
    pick = rng.random()
    fit = [n for n, s in vars_.items() if s == shape]
    elem = [n for n, s in vars_.items() if s != () and int(np.prod(s)) > 0]
    if depth == 0 or pick < 0.15:
        r = rng.random()
        if fit and r < 0.6:
            n = rng.choice(fit)
            return Tree(n, lambda v, d, n=n: (lift(v[n]), lift(d[n])))
        if shape == () and elem and r < 0.9:
            n = rng.choice(elem)
            ix = tuple(rng.randrange(k) for k in vars_[n])
            return Tree('%s[%s]' % (n, ', '.join(map(str, ix))), lambda v, d, n=n, ix=ix: (lift(v[n])[ix], lift(d[n])[ix]))
        c = rng.choice([0.5, 2.0, 3.0, 1.25])
        return Tree(repr(c), lambda v, d, c=c: (np.full(shape, c), np.zeros(shape)))
    if shape == () and elem and pick < 0.25:
        n = rng.choice(elem)
        return Tree('numpy.sum(%s)' % n, lambda v, d, n=n: (np.sum(v[n]), np.sum(d[n])))
    a = tree(rng, vars_, depth - 1, shape)
    if pick < 0.5:
        k = rng.choice(sorted(FUNCS) + sorted(POSITIVE))
        if k in FUNCS:
            g, h = FUNCS[k]

            def f(v, d):
                x, dx = a.f(v, d)
                steep(x, dx)
                if k == 'abs' and np.min(np.abs(x), initial=1) < 1e-3:
                    raise Reject()
                return g(x), h(x) * dx
            return Tree('%s(%s)' % (k, a.text), f)
        g, h = POSITIVE[k]

        def f(v, d):
            x, dx = a.f(v, d)
            steep(x, dx)
            return g(1.0 + x * x), h(1.0 + x * x) * 2.0 * x * dx
        return Tree('%s(1.0 + %s*%s)' % (k, par(a, 7), par(a, 7)), f)
    if pick < 0.6:
        n = rng.choice([2, 3])
        return Tree('%s**%d' % (par(a, 9), n), lambda v, d: (a.f(v, d)[0] ** n, n * a.f(v, d)[0] ** (n - 1) * a.f(v, d)[1]), 8)
    if pick < 0.65:
        return Tree('-' + par(a, 8), lambda v, d: tuple(-x for x in a.f(v, d)), 6)
    b = tree(rng, vars_, depth - 1, shape if rng.random() < 0.7 else ())
    op = rng.choice('+-*/')
    if op == '+':
        return Tree('%s + %s' % (par(a, 5), par(b, 5)), lambda v, d: tuple(x + y for x, y in zip(a.f(v, d), b.f(v, d))), 5)
    if op == '-':
        return Tree('%s - %s' % (par(a, 5), par(b, 6)), lambda v, d: tuple(x - y for x, y in zip(a.f(v, d), b.f(v, d))), 5)
    if op == '*':
        def f(v, d):
            (x, dx), (y, dy) = a.f(v, d), b.f(v, d)
            return x * y, dx * y + x * dy
        return Tree('%s*%s' % (par(a, 7), par(b, 7)), f, 7)

    def f(v, d):
        (x, dx), (y, dy) = a.f(v, d), b.f(v, d)
        steep(y, dy)
        w, dw = 2.0 + y * y, 2.0 * y * dy
        return x / w, dx / w - x * dw / w ** 2
    return Tree('%s/(2.0 + %s*%s)' % (par(a, 7), par(b, 7), par(b, 7)), f, 7)


SHAPES = ((), (), (1,), (2,), (3,), (2, 2))


def value(rng, shape):
    return np.array([rng.randint(-8, 8) / 4.0 + 0.125 for _ in range(int(np.prod(shape)))]).reshape(shape)


def plain(v):
    return float(v) if np.shape(v) == () else np.array(v)


class Expressions(Bounded):
    prop = 'C24'
    covers = 'openmdao.components.exec_comp: ExecComp.__init__, solve_nonlinear, linearize, _TmpDict, _UPDict'
    samples = 1500
    parts = 2

    def sample(self, t, rng):
        ins = {n: rng.choice(SHAPES) for n in rng.sample(['x', 'x1', 'a:b', 'a', 'a:b:c', 'zz', 'in:x:y', 'b', 'x:y', 'a0b'], rng.randint(1, 4))}
        known = dict(ins)
        exprs, work = [], []
        outs = {}
        for n in rng.sample(['y', 'y1', 'o:y', 'sinx', 'w'], rng.randint(1, 3)):
            shape = rng.choice(SHAPES)
            if shape != () and rng.random() < 0.2:
                # element by element
                for ix in np.ndindex(*shape):
                    e = tree(rng, known, rng.randint(1, 3), ())
                    exprs.append('%s[%s] = %s' % (n, ', '.join(map(str, ix)), e.text))
                    work.append((n, ix, e))
            else:
                spread = shape != () and rng.random() < 0.1
                e = tree(rng, known, rng.randint(1, 4), () if spread else shape)
                if shape != () and not spread:
                    # (a lone number does not fit an array output)
                    e = Tree('numpy.zeros(%r) + %s' % (shape, par(e, 6)), e.f, 5)
                exprs.append('%s%s= %s' % (n, rng.choice(['', ' ']), e.text) if not spread else '%s[:] = %s' % (n, e.text))
                work.append((n, None, e))
            outs[n] = shape
            known[n] = shape
        used = ' '.join(exprs)
        # (a variable has to occur in some expression)
        import re
        ins = {n: s for n, s in ins.items() if n in re.findall(r'[A-Za-z_][\w:]*', used)}
        if not ins:
            raise Reject()
        val = {n: value(rng, s) for n, s in ins.items()}
        t.note('\n'.join(exprs) + '\n' + repr(val))
        kw = {n: plain(v) for n, v in val.items()}
        for n, s in outs.items():
            if s != () or rng.random() < 0.5:
                kw[n] = plain(np.zeros(s))
        form = exprs[0] if len(exprs) == 1 and rng.random() < 0.5 else exprs
        colon = any(':' in n for n in kw)
        if colon or rng.random() < 0.3:
            c = ExecComp(form, inits=kw)
        else:
            c = ExecComp(form, **kw)
        p = Problem(root=Group())
        p.root.add('c', c)
        for n in ins:
            p.root.add('p_' + n.replace(':', '_'), IndepVarComp('v', plain(val[n])))
            p.root.connect('p_%s.v' % n.replace(':', '_'), 'c.' + n)
        p.setup(check=False)

        def oracle(v, d):
            V, D = dict(v), dict(d)
            for n, s in outs.items():
                V[n], D[n] = np.zeros(s), np.zeros(s)
            for n, ix, e in work:
                x, dx = e.f(V, D)
                if ix is None:
                    V[n], D[n] = np.zeros(outs[n]) + x, np.zeros(outs[n]) + dx
                else:
                    V[n][ix], D[n][ix] = x, dx
            return V, D
        for k in range(2):
            if k:
                val = {n: value(rng, s) for n, s in ins.items()}
                for n in ins:
                    p['p_%s.v' % n.replace(':', '_')] = plain(val[n])
            with np.errstate(all='ignore'):
                p.run()
                zero = {n: np.zeros(s) for n, s in ins.items()}
                V, _ = oracle(val, zero)
            if not all(np.all(np.isfinite(v)) and np.max(np.abs(v), initial=0) < 1e6 for v in V.values()):
                raise Reject()
            for n, s in outs.items():
                got = p['c.' + n]
                t.check('an output is the value of its expression', np.size(got) == np.size(V[n]) and np.allclose(np.ravel(got), np.ravel(V[n]), rtol=1e-10, atol=1e-10))
            before = {n: np.array(c.params[n]) for n in ins}, {n: np.array(c.unknowns[n]) for n in outs}
            J = c.linearize(c.params, c.unknowns, c.resids)
            after = {n: np.array(c.params[n]) for n in ins}, {n: np.array(c.unknowns[n]) for n in outs}
            t.check('computing derivatives changes no value', all(np.array_equal(a[n], b[n]) for a, b in zip(before, after) for n in a))
            for n, s in ins.items():
                for i, ix in enumerate(np.ndindex(*s)):
                    d = {m: np.zeros(q) for m, q in ins.items()}
                    d[n][ix] = 1.0
                    _, D = oracle(val, d)
                    for o in outs:
                        e = np.ravel(D[o])
                        t.check('a derivative for each output and param', (o, n) in J)
                        j = np.asarray(J[o, n])
                        t.check('one row for each output element, one column for each param element', j.shape == (e.size, int(np.prod(s))))
                        scale = 1.0 + np.max(np.abs(e), initial=0)
                        t.log.append((o, n, j[:, i], e)) if not np.allclose(j[:, i], e, atol=2e-5 * scale) else None
                        t.check('each derivative is that of the expression', np.allclose(j[:, i], e, atol=2e-5 * scale))


class Oriented(Bounded):
    prop = 'C24'
    covers = 'openmdao.components.constraint: ConstraintComp.__init__, _combined_expr, _parse_constraint'
    samples = 2000
    parts = 1

    def sample(self, t, rng):
        ins = {n: () for n in rng.sample(['x', 'y', 'z1'], rng.randint(1, 3))}

        def side():
            if rng.random() < 0.3:
                c = rng.choice(['0', '0.0', '1', '2.5', '-1.0', '-0', ' 0 ', '0.5'])
                return Tree(c, lambda v, d: (float(c), 0.0))
            return tree(rng, ins, rng.randint(0, 3), ())
        a, b = side(), side()
        op = rng.choice(['<', '<=', '>', '>=', '='])
        expr = a.text + rng.choice(['', ' ']) + op + rng.choice(['', ' ', '  ']) + b.text
        t.note(expr)
        import re
        used = [n for n in ins if n in re.findall(r'[A-Za-z_][\w:]*', expr)]
        if not used:
            raise Reject()
        p = Problem(root=Group())
        with warnings.catch_warnings(record=True):
            p.root.add('c', ConstraintComp(expr, out='res'))
        for n in used:
            p.root.add('p_' + n, IndepVarComp('v', 0.5))
            p.root.connect('p_%s.v' % n, 'c.' + n)
        p.setup(check=False)
        for _ in range(4):
            v = {n: value(rng, ()) for n in ins}
            for n in used:
                p['p_%s.v' % n] = float(v[n])
            with np.errstate(all='ignore'):
                p.run()
            x, y = float(a.f(v, v)[0]), float(b.f(v, v)[0])
            if not (np.isfinite(x) and np.isfinite(y)) or max(abs(x), abs(y)) > 1e6:
                raise Reject()
            got = p['c.res']
            if abs(x - y) < 1e-9:
                t.check('zero at the limit', abs(got) < 1e-8)
            elif op == '=':
                t.check('zero only when equal', abs(got) > 0)
            else:
                t.check('positive exactly when the inequality is violated', (got > 0) == ((x > y) if op[0] == '<' else (x < y)))


class Systems(Bounded):
    prop = 'C24'
    covers = 'openmdao.components.linear_system: LinearSystem'
    samples = 600
    parts = 1

    def sample(self, t, rng):
        n = rng.randint(1, 4)
        vals = lambda: (np.array([rng.randint(-8, 8) / 4.0 for _ in range(n * n)]).reshape(n, n) + np.diag([6.0] * n), value(rng, (n,)))
        A, b = vals()
        p = Problem(root=Group())
        p.root.add('A', IndepVarComp('v', A))
        p.root.add('b', IndepVarComp('v', b))
        p.root.add('s', LinearSystem(n))
        p.root.connect('A.v', 's.A')
        p.root.connect('b.v', 's.b')
        p.root.ln_solver = rng.choice([ScipyGMRES, DirectSolver])()
        mode = p.root.ln_solver.options['mode'] = rng.choice(['fwd', 'rev'])
        p.setup(check=False)
        for _ in range(2):
            p['A.v'], p['b.v'] = A, b
            t.note(repr((A, b, mode)))
            p.run()
            x = p['s.x']
            t.check('the state solves the system', np.allclose(A.dot(x), b, atol=1e-8))
            p.root.apply_nonlinear(p.root.params, p.root.unknowns, p.root.resids)
            t.check('no residual is left', np.allclose(p.root.resids['s.x'], 0.0, atol=1e-8))
            J = p.calc_gradient(['b.v', 'A.v'], ['s.x'], return_format='dict')
            inv = np.linalg.inv(A)
            t.check('derivatives by the right-hand side', np.allclose(J['s.x']['b.v'], inv, atol=1e-7))
            want = np.stack([-np.outer(inv[:, i], x)[:, :] for i in range(n)], axis=1).reshape(n, n * n)
            t.check('derivatives by the matrix', np.allclose(J['s.x']['A.v'], want, atol=1e-7))
            A, b = vals()
