"""C02 bounded stand-in: what every component sees when it runs, on random models."""
import numpy as np
from pyvc.contract import Bounded
from bounded import gen
from bounded.c01_storage import flat, same, systems


class Transfer(Bounded):
    prop = 'C02'
    covers = ('openmdao.core.group: Group._setup_data_transfer, _get_global_idxs, _transfer_data, children_solve_nonlinear; '
              'DataTransfer.transfer; Problem._setup_connections, _setup_units')
    samples = 2000
    parts = 3

    def sample(self, t, rng):
        m = gen.model(rng, states=rng.random() < 0.3)
        t.note(m.describe())
        p = m.setup()
        # different values than the declared ones
        over = {}
        for v in m.unknowns.values():
            if v.comp.kind == 'indep' and not v.pbo:
                x = np.array([rng.randint(-40, 40) / 8.0 for _ in range(v.size)])
                v.val = x[0] if v.shape == 1 else x.reshape(v.shape)
                p[v.top] = v.val
        p.run()
        u = m.evaluate()
        for v in m.unknowns.values():
            if not v.pbo:
                t.check('value of %s after a run' % v.abs, np.allclose(flat(p[v.top]), u[v.abs], rtol=1e-9, atol=1e-9))
        for q in m.params.values():
            seen = q.comp.seen[q.name]
            if q.pbo:
                if q.source is not None:
                    t.check('%s receives the object of its source' % q.abs, seen == p[q.source.top])
                continue
            want = m.param_value(q, u)
            t.check('%s receives its source values' % q.abs, np.allclose(flat(seen), want, rtol=1e-9, atol=1e-9))
            t.check('%s has its declared shape' % q.abs, np.shape(seen) == (() if q.shape == 1 else q.shape))

        # one transfer: exactly the params of the destination change
        from bounded.c01_storage import Storage
        st = Storage()
        g = rng.choice(m.groups)
        gs = g.system
        ch = rng.choice(g.children)
        for v in m.unknowns.values():
            if not v.pbo:
                x = np.array([rng.randint(-40, 40) / 8.0 for _ in range(v.size)])
                p.root.unknowns[v.top] = x[0] if v.shape == 1 else x.reshape(v.shape)
        before = st.snap(m, p)
        gs._transfer_data(ch.name)
        after = st.snap(m, p)
        u = {v.abs: flat(p.root.unknowns[v.top]) for v in m.unknowns.values() if not v.pbo}
        pre = g.path + '.' if g.path else ''
        for k in before:
            q = m.params.get(k[1]) if k[0] == 'param' else None
            inside = q is not None and q.source is not None and q.abs.startswith(pre + ch.name + '.') and q.source.abs.startswith(pre)
            # connections that pass between two children of g
            here = inside and not q.source.abs.startswith(pre + ch.name + '.')
            if here and not q.pbo:
                t.check('%s receives its source values' % q.abs, np.allclose(flat(after[k]), m.param_value(q, u), rtol=1e-9, atol=1e-9))
            elif here:
                t.check('%s receives the object' % q.abs, after[k] == p[q.source.top])
            else:
                t.check('%s %s is unchanged by a transfer to %s' % (k[0], k[1], pre + ch.name), same(before[k], after[k]))
