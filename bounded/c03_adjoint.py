"""C03 bounded stand-in: the linear operator of every group and component of random models, in both directions."""
import numpy as np
from openmdao.api import Problem, Group, IndepVarComp, LinearSystem, UnitComp, ScipyGMRES
from pyvc.contract import Bounded, Reject
from bounded import gen
from bounded.c01_storage import flat, same
from bounded.c11_totals import perturb


def rnd(rng, n):
    return np.array([rng.randint(-16, 16) / 8.0 for _ in range(n)])


class Operator(object):
    """the linear operator of one system; its domain is its unknowns and the params fed from outside of it"""
    def __init__(self, root, system, ext):
        self.root, self.s, self.ext = root, system, ext      # ext: [(component system, param name)]

    def params(self):
        out = []
        for comp, name in self.ext:
            v = comp.dpmat[None]._dat[name].val
            out.append(v.reshape(-1) if isinstance(v, np.ndarray) else v)
        return out

    def run(self, mode):
        self.s._sys_apply_linear(mode, self.root._do_apply)

    @property
    def du(self):
        return self.s.dumat[None].vec

    @property
    def dr(self):
        return self.s.drmat[None].vec


class Adjoint(Bounded):
    prop = 'C03'
    covers = ('openmdao.core.group: Group._sys_apply_linear, _transfer_data; System._sys_apply_linear, _apply_linear_jac; '
              'IndepVarComp._sys_apply_linear; DataTransfer.transfer; TgtVecWrapper._apply_unit_derivatives; SrcVecWrapper._scale_derivatives')
    samples = 4000
    parts = 3

    def sample(self, t, rng):
        cyc = rng.random() < 0.2
        m = gen.model(rng, states=rng.random() < 0.5, styles=rng.choice([('lin',), ('lin', 'mf'), ('lin', 'mf', 'fd')]),
                      quad=not cyc and rng.random() < 0.5, scalers=rng.random() < 0.5, cyclic=cyc)
        p = m.build()
        # the jacobian of a finite differenced group stands for all that is below it
        def fdable(g):
            # pass-by-object variables and IndepVarComps with connections inside of a finite differenced group are not supported
            vs = [v for c in m.comps if g in m._ancestors(c) for v in c.unknown_order + c.params]
            return g.path and not any(v.pbo for v in vs) and not any(
                v.abs.startswith(g.path + '.') and q.source is v and q.abs.startswith(g.path + '.')
                for v in m.unknowns.values() if v.comp.kind == 'indep' for q in m.params.values())
        fdg = [g for g in m.groups if rng.random() < 0.25 and fdable(g)]
        for g in fdg:
            g.system.deriv_options['type'] = 'fd'
        t.note(m.describe() + '\nfinite differenced groups: %s' % [g.path for g in fdg])
        for g in m.groups:
            g.system.ln_solver = ScipyGMRES()          # (the default one refuses cycles; none is solved here)
        p.setup(check=False)
        perturb(m, p, rng)
        p.run()
        root = p.root
        if any(np.max(np.abs(flat(p[v.top]))) > 1e5 for v in m.unknowns.values() if not v.pbo):
            raise Reject()
        root._sys_linearize(root.params, root.unknowns, root.resids)
        below = [g.path + '.' for g in fdg]
        out = []
        for x in m.groups + [c for c in m.comps]:
            if any(x.path.startswith(b) for b in below):
                continue
            out.append(x)
        rng.shuffle(out)
        if m.root in out and rng.random() < 0.7:
            out.remove(m.root)
            out.insert(0, m.root)
        for x in out[:3]:
            self.one(t, rng, m, root, x, any(x.path + '.' == b for b in below))

    def one(self, t, rng, m, root, x, isfd):
        isg = hasattr(x, 'children')
        pre = (x.path + '.') if x.path else ''
        ext = []
        for q in m.params.values():
            inside = q.abs.startswith(pre) if isg else q.comp is x
            if not inside or q.source is None or q.pbo:
                continue
            if isg and q.source.abs.startswith(pre):
                continue
            if isfd and isg:
                # only the params of the group itself are seen
                continue
            ext.append((q.comp.system, q.name))
        op = Operator(root, x.system, ext)
        if op.s.dumat[None].vec.size == 0:
            return
        what = 'group %s' % x.path if isg else 'component %s' % x.path

        def zero():
            for s in root.subsystems(recurse=True, include_self=True):
                for mat in (s.dumat, s.drmat, s.dpmat):
                    if mat.get(None) is not None and hasattr(mat[None], 'vec') and mat[None].vec is not None:
                        mat[None].vec[:] = 0.0
        # y = A v
        zero()
        v = rnd(rng, op.du.size)
        op.du[:] = v
        vp = [rnd(rng, b.size) for b in op.params()]
        for b, c in zip(op.params(), vp):
            b[:] = c
        op.run('fwd')
        y = op.dr.copy()
        t.check('%s: forward leaves the unknown direction alone' % what, np.array_equal(op.du, v))
        # linear: A(v) + A(v) == A(2 v) catches leftovers
        op.du[:] = 2.0 * v
        for b, c in zip(op.params(), vp):
            b[:] = 2.0 * c
        op.run('fwd')
        t.check('%s: forward is linear' % what, np.allclose(op.dr, 2.0 * y, rtol=1e-9, atol=1e-9))
        # A^T w
        w = rnd(rng, y.size)
        zero()
        op.du[:] = rnd(rng, v.size)        # whatever was there before
        for b in op.params():
            b[:] = rnd(rng, b.size)
        op.dr[:] = w
        op.run('rev')
        t.check('%s: reverse leaves the residual direction alone' % what, np.array_equal(op.dr, w))
        lhs = float(w.dot(y))
        rhs = float(op.du.dot(v)) + sum(float(b.dot(c)) for b, c in zip(op.params(), vp))
        scale = 1.0 + max(abs(w).sum() * (abs(y).max() if y.size else 0.0), abs(op.du).max() * abs(v).sum())
        t.note('%s: <w, A v> = %r, <A^T w, v> = %r' % (what, lhs, rhs))
        t.check('%s: reverse is the transpose of forward' % what, abs(lhs - rhs) <= 1e-9 * scale)
        # the operator is the one of the model's equations
        if isg and not isfd and not any(c.style == 'fd' for c in m.comps) and not self.fdinside(m, x):
            self.exact(t, m, root, x, op, v, y, what, zero)

    def fdinside(self, m, x):
        return any(g.system.deriv_options['type'] == 'fd' for g in m.groups if g.path.startswith(x.path))

    def exact(self, t, m, root, x, op, v, y, what, zero):
        u = {q.abs: flat(root.unknowns[q.top]) for q in m.unknowns.values() if not q.pbo}
        M, off = m.system_matrix(u)
        pre = (x.path + '.') if x.path else ''
        zero()
        op.du[:] = v
        op.run('fwd')
        full = np.zeros(M.shape[0])
        mine = [q for q in m.unknowns.values() if not q.pbo and q.abs.startswith(pre)]
        dat = {}
        for nm, acc in x.system.dumat[None]._dat.items():
            dat[acc.meta['pathname']] = nm
        for q in mine:
            a, b = off[q.abs]
            full[a:b] = flat(x.system.dumat[None]._dat[dat[q.abs]].val)
        want = -M.dot(full)
        for q in mine:
            a, b = off[q.abs]
            D = q.comp.D[q.name] / (q.scaler or 1.0) if q in q.comp.states else None
            e = want[a:b] if D is None else -D.dot(want[a:b])
            g = flat(x.system.drmat[None]._dat[dat[q.abs]].val)
            t.check('%s: the residual direction of %s is the derivative of its equation' % (what, q.abs),
                    np.allclose(g, e, rtol=1e-7, atol=1e-7 * (1.0 + abs(want).max())))


class Library(Bounded):
    """library components with their own products: against finite differences of their own residuals, both directions"""
    prop = 'C03'
    covers = 'components.linear_system: LinearSystem; components.unit_comp: UnitComp'
    samples = 400
    parts = 1

    def sample(self, t, rng):
        n = rng.randint(1, 4)
        p = Problem(root=Group())
        if rng.random() < 0.6:
            A = rnd(rng, n * n).reshape(n, n) + 4.0 * np.eye(n)
            c = LinearSystem(n)
            vals = {'A': A, 'b': rnd(rng, n)}
            outs = ['x']
        else:
            sh = rng.choice([(n,), (n, 2), 1])
            c = UnitComp(shape=sh, param_name='a', out_name='b', units='ft')
            vals = {'a': rnd(rng, int(np.prod(sh))).reshape(sh) if sh != 1 else 1.5}
            outs = ['b']
        p.root.add('c', c)
        for k, x in vals.items():
            p.root.add('p_' + k, IndepVarComp('v', x, **({} if 'A' in vals else {'units': rng.choice(['ft', 'inch', 'm'])})))
            p.root.connect('p_%s.v' % k, 'c.' + k)
        p.setup(check=False)
        p.run()
        t.note('%s %r' % (type(c).__name__, vals))
        root = p.root
        root._sys_linearize(root.params, root.unknowns, root.resids)
        if outs == ['x']:
            # r = A x - b
            du, dr, dp = c.dumat[None], c.drmat[None], c.dpmat[None]
            dx, dA, db = rnd(rng, n), rnd(rng, n * n).reshape(n, n), rnd(rng, n)
            x0 = np.array(c.unknowns['x'])
            du['x'], dp['A'], dp['b'] = dx, dA, db
            c._sys_apply_linear('fwd', root._do_apply)
            want = A.dot(dx) + dA.dot(x0) - db
            t.check('forward product', np.allclose(dr['x'], want))
            w = rnd(rng, n)
            dr['x'] = w
            c._sys_apply_linear('rev', root._do_apply)
            t.check('reverse product, x', np.allclose(du['x'], A.T.dot(w)))
            t.check('reverse product, A', np.allclose(dp['A'], np.outer(w, x0)))
            t.check('reverse product, b', np.allclose(dp['b'], -w))
            for mode in ('fwd', 'rev'):
                s, d = (dr, du) if mode == 'fwd' else (du, dr)
                s['x'] = w
                c.solve_linear(c.dumat, c.drmat, [None], mode)
                t.check('%s solve' % mode, np.allclose((A if mode == 'fwd' else A.T).dot(d['x']), w))
        else:
            for mode in ('fwd', 'rev'):
                J = p.calc_gradient(['p_a.v'], ['c.b'], mode=mode)
                g = p.calc_gradient(['p_a.v'], ['c.b'], mode='fd')
                t.check('%s derivative of a unit component' % mode, np.allclose(J, g, rtol=1e-5, atol=1e-6))
