"""C01 bounded stand-in: storage of random hierarchical models."""
import numpy as np
from pyvc.contract import relayout, Bounded
from bounded import gen


def flat(x):
    return np.atleast_1d(np.asarray(x, dtype=float)).flatten()


def same(a, b):
    if isinstance(a, (float, int, np.ndarray)) and isinstance(b, (float, int, np.ndarray)):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-12, atol=1e-12)
    return a == b


def systems(p):
    return list(p.root.subsystems(recurse=True, include_self=True))


class Storage(Bounded):
    prop = 'C01'
    covers = ('openmdao.core.vec_wrapper: SrcVecWrapper.setup, TgtVecWrapper.setup, get_view, Accessor; '
              'Group._setup_vectors, _create_vecs; System._create_views')
    samples = 2400
    parts = 3

    def vectors(self, p):
        out = []
        for s in systems(p):
            for nm in ('unknowns', 'resids'):
                out.append((s, nm, getattr(s, nm)))
        return out

    def sample(self, t, rng):
        m = gen.model(rng, states=rng.random() < 0.5, scalers=True, bounds=rng.random() < 0.3)
        t.note(m.describe())
        p = m.setup()
        p.run()
        root = p.root
        byabs = m.unknowns
        # the promoted name of a variable at every system that contains it is the same storage
        for s in systems(p):
            names = {}
            pre = s.pathname + '.' if s.pathname else ''
            mine = [v for a, v in byabs.items() if a.startswith(pre)]
            gs = [g for g in m.groups if g.path == s.pathname]
            for v in mine:
                names[m._prom_in(v, gs[0]) if gs else v.name] = v
            t.check('every unknown of %s is there under its promoted name' % s.pathname, set(s.unknowns.keys()) == set(names))
            t.check('residuals carry the same names as unknowns', list(s.resids.keys()) == list(s.unknowns.keys()))
            for vec in (s.unknowns, s.resids):
                # contiguous blocks in declaration order
                pos = 0
                arr = vec.vec
                keep = arr.copy()
                for n in vec.keys():
                    v = names[n]
                    if v.pbo:
                        continue
                    mark = np.arange(v.size) + 101.5
                    arr[:] = 0.0
                    arr[pos:pos + v.size] = mark
                    got = vec[n]
                    want = mark[0] if v.shape == 1 else mark.reshape(v.shape)
                    t.check('%s of %s occupies its own block in order' % (n, s.pathname), same(got, want))
                    t.check('a scalar is read as a plain float', v.shape != 1 or isinstance(got, float))
                    others = [k for k in vec.keys() if k != n and not names[k].pbo]
                    t.check('no other variable lies in the block', all(not np.any(vec[k]) for k in others))
                    pos += v.size
                t.check('the blocks fill the vector', pos == arr.size)
                arr[:] = keep
        # writes
        for _ in range(6):
            s, nm, vec = rng.choice(self.vectors(p))
            keys = list(vec.keys())
            if not keys:
                continue
            n = rng.choice(keys)
            g = [x for x in m.groups if x.path == s.pathname]
            v = [x for x in byabs.values() if x.abs.startswith(s.pathname + '.' if s.pathname else '')
                 and (m._prom_in(x, g[0]) if g else x.name) == n][0]
            if v.pbo and nm == 'resids':
                continue
            before = self.snap(m, p)
            if v.pbo:
                new = ('new', rng.random())
            elif v.shape == 1:
                new = rng.randint(-99, 99) / 8.0
            else:
                new = np.array([rng.randint(-99, 99) / 8.0 for _ in range(v.size)]).reshape(v.shape)
            vec[n] = new if v.pbo or v.shape == 1 else new.copy()
            t.check('read after write of %s.%s' % (s.pathname, n), same(vec[n], new))
            after = self.snap(m, p)
            for k in before:
                if k == (nm, v.abs):
                    t.check('the same storage seen from the root', same(after[k], new))
                else:
                    if v.pbo and k[0] == 'param' and m.params[k[1]].source is v:
                        continue    # pass-by-object params share the source's object
                    t.check('%s %s is unchanged' % k, same(before[k], after[k]))
        # params: declared shape, unit conversion on access, isolation
        for pr in m.params.values():
            sy = pr.comp.system
            got = sy.params[pr.name]
            if pr.pbo:
                continue
            t.check('param %s has its declared shape' % pr.abs, np.shape(got) == (() if pr.shape == 1 else pr.shape))
        pars = [q for q in m.params.values() if not q.pbo and q.source is not None]
        if pars:
            q = rng.choice(pars)
            vecp = q.comp.system.params
            before = self.snap(m, p)
            new = np.array([rng.randint(-99, 99) / 8.0 for _ in range(q.size)])
            val = new[0] if q.shape == 1 else relayout(new.reshape(q.shape), rng.choice(['C', 'F', 'strided']))
            vecp[q.name] = val
            sc, of = gen.conv(q.source.units, q.units)
            want = sc * (new + of)
            t.check('unit-converted access of %s' % q.abs, np.allclose(flat(vecp[q.name]), want, rtol=1e-9, atol=1e-9))
            after = self.snap(m, p)
            for k in before:
                if k != ('param', q.abs):
                    t.check('%s %s is unchanged by writing a param' % k, same(before[k], after[k]))

    def snap(self, m, p):
        d = {}
        for a, v in m.unknowns.items():
            for nm in ('unknowns', 'resids'):
                x = getattr(p.root, nm)[v.top]
                d[nm, a] = x.copy() if isinstance(x, np.ndarray) else x
        for a, q in m.params.items():
            x = q.comp.system.params[q.name]
            d['param', a] = x.copy() if isinstance(x, np.ndarray) else x
        return d


class ScaledResiduals(Bounded):
    """scaled residual access divides by the declared residual scaler"""
    prop = 'C01'
    covers = 'openmdao.core.vec_wrapper.SrcVecWrapper._scale_values; Component._sys_apply_nonlinear'
    samples = 800

    def sample(self, t, rng):
        m = gen.model(rng, states=True, scalers=True, pbo=False)
        t.note(m.describe())
        p = m.setup()
        p.run()
        for v in m.unknowns.values():
            if v.comp.kind == 'comp' and v in v.comp.states:
                x = rng.randint(-9, 9) / 4.0
                if v.shape == 1:
                    p.root.unknowns[v.top] = x
                else:
                    p.root.unknowns[v.top] = np.full(v.shape, x) + np.arange(v.size).reshape(v.shape)
        u0 = p.root.unknowns.vec.copy()
        p.root.apply_nonlinear(p.root.params, p.root.unknowns, p.root.resids)
        u = {v.abs: flat(p.root.unknowns[v.top]) for v in m.unknowns.values()}
        t.check('evaluating residuals keeps the unknowns', np.allclose(u0, p.root.unknowns.vec, rtol=1e-12, atol=1e-12))
        for v in m.unknowns.values():
            c = v.comp
            if c.kind == 'indep' or not c.states:
                continue
            x = {q.name: m.param_value(q, u) for q in c.ins()}
            r = c.D[v.name].dot(u[v.abs]) - c.rhs(v, x) if v in c.states else c.rhs(v, x) - u[v.abs]
            r = r / (v.scaler or 1.0)
            t.check('residual of %s' % v.abs, np.allclose(flat(p.root.resids[v.top]), r, rtol=1e-8, atol=1e-8))
