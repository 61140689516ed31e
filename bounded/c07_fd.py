"""C07 bounded stand-in: finite difference and complex step of random models against quotients taken by hand."""
import numpy as np
from openmdao.api import Group, Component
from pyvc.contract import Bounded, Reject
from bounded import gen
from bounded.c01_storage import systems
from bounded.c11_totals import perturb


class Values(object):
    """every vector of every system, real and imaginary"""
    def __init__(self, p):
        self.arrays = {}
        for s in systems(p):
            for nm in ('params', 'unknowns', 'resids'):
                w = getattr(s, nm)
                for a in ('vec', 'imag_vec'):
                    x = getattr(w, a, None)
                    if x is not None:
                        self.arrays[s.pathname, nm, a] = (x, x.copy())

    def restore(self):
        for x, old in self.arrays.values():
            x[:] = old

    def changed(self, imag=False):
        return [(s, nm) for (s, nm, a), (x, old) in self.arrays.items()
                if (imag or a == 'vec') and not np.array_equal(x, old, equal_nan=True)]


def options(rng, tiny=False):
    d = {}
    if rng.random() < 0.7:
        d['form'] = rng.choice(['forward', 'backward', 'central'])
    if rng.random() < 0.7:
        # (a complex step is exact only in the limit)
        d['step_size'] = rng.choice([1e-6, 1e-8] if tiny else [1e-2, 0.125, 0.5])
    if rng.random() < 0.7:
        d['step_calc'] = rng.choice(['relative', 'absolute'])
    return d


class Quotient(Bounded):
    prop = 'C07'
    covers = ('System.fd_jacobian, Component.complex_step_jacobian, Component/Group._get_fd_params and _get_fd_unknowns, the complex accessors '
              'of the vectors and vec_wrapper_complex_step: components and groups at any depth, states, units, source indices')
    samples = 6000
    parts = 3

    def sample(self, t, rng):
        cs = rng.random() < 0.35
        m = gen.model(rng, states=rng.random() < 0.4, quad=True, scalers=rng.random() < 0.4, ncomp=rng.randint(2, 5))
        desc = []
        for c in m.comps:
            for q in c.params:
                if not q.pbo and rng.random() < 0.25:
                    q.fdopts = options(rng, cs)
                    desc.append('%s.%s: %s' % (c.path, q.name, q.fdopts))
        p = m.build()
        conf = {}
        for s in [x.system for x in m.groups + m.comps]:
            conf[s] = options(rng, cs)
            if rng.random() < 0.3:
                conf[s].update(('check_' + k, v) for k, v in options(rng, cs).items())
            for k, v in conf[s].items():
                s.deriv_options[k] = v
        if cs:
            p.root.deriv_options['type'] = 'cs'
        for x in m.comps:
            if x.kind != 'indep' and rng.random() < 0.4 and not cs:
                x.system.deriv_options['type'] = 'cs'
        try:
            p.setup(check=False)
        except RuntimeError as e:
            if 'same promoted name' in str(e) and 'different' in str(e):
                raise Reject()
            raise
        perturb(m, p, rng)
        p.run()
        todo = [x for x in m.groups + m.comps if getattr(x, 'kind', '') != 'indep']
        for x in rng.sample(todo, min(len(todo), 3)):
            self.system(t, rng, m, p, x, conf[x.system], cs, desc)

    def base(self, rng, p):
        for s in systems(p):
            s.resids.vec[:] = [rng.randint(-8, 8) / 4.0 for _ in s.resids.vec]

    def system(self, t, rng, m, p, x, conf, cs, desc):
        s = x.system
        isgroup = isinstance(s, Group)
        path = s.pathname
        inside = [c for c in m.comps if path == '' or c.path.startswith(path + '.') or c is x]
        if isgroup and path and any(c.kind == 'indep' for c in inside):
            return
        if max([np.max(np.abs(v)) for w in (s.unknowns.vec, p.root.unknowns.vec) for v in [w] if w.size] or [0.0]) > 3e3:
            return  # (rounding would hide the quotients)
        use_check = rng.random() < 0.3
        g = (lambda k, d: conf.get('check_' + k if use_check else k, d))
        opts = dict(form=g('form', 'forward'), step_size=g('step_size', s.deriv_options['check_step_size' if use_check else 'step_size']), step_calc=g('step_calc', 'absolute'))
        how = 'cs' if isgroup and cs and (use_check or s.deriv_options['type'] == 'cs') else 'fd'
        own = not isgroup and rng.random() < 0.5
        if own and any(v.pbo for v in x.unknown_order + x.params) and rng.random() < 0.5:
            own = False
        self.base(rng, p)
        keep = Values(p)
        title = '%s %s of %s, %s%s' % ('complex step' if own or how == 'cs' else 'difference', 'totals' if isgroup else 'partials', path or 'root', opts, ' check' if use_check else '')
        t.note(m.describe() + '\n' + '\n'.join(desc) + '\n' + title)
        if own:
            J = s.complex_step_jacobian(s.params, s.unknowns, s.resids, use_check=use_check)
        else:
            kw = dict(option_overrides={'check_type': how}) if use_check else {}
            if not isgroup and s.deriv_options['type'] == 'cs':
                kw['option_overrides'] = {'check_type': 'fd'}
                use = True
            J = s.fd_jacobian(s.params, s.unknowns, s.resids, total_derivs=isgroup, use_check=use_check, **kw)
        ch = keep.changed()
        for sp, nm in ch:
            if isgroup and nm == 'params':
                t.note('total differences changed params')
            t.check('%s unchanged by %s derivatives' % (nm, 'total' if isgroup else 'partial'), False)
        if not ch:
            t.check('everything unchanged', True)
        keep.restore()
        # the inputs
        ins = {}
        if isgroup:
            for q in m.params.values() if hasattr(m.params, 'values') else []:
                c = q.comp
                if q.pbo or q.source is None or not (c in inside):
                    continue
                if q.source.pbo:
                    continue
                if path == '' and q.source.comp.kind == 'indep':
                    ins[q.abs] = (q, s.unknowns, q.source.top)
                elif path and q.source.comp not in inside:
                    ins[q.abs[len(path) + 1:]] = (q, s.params, q.abs[len(path) + 1:])
        else:
            for q in x.params:
                # (an unconnected param is passed by object)
                if not q.pbo and q.source is not None:
                    ins[q.name] = (q, s.params, q.name)
            for o in x.states:
                ins[o.name] = (o, s.unknowns, o.name)
        outs = {}
        for n, acc in s.unknowns._dat.items():
            if not acc.pbo:
                outs[n] = acc
        if path == '':
            outs = {n: a for n, a in outs.items() if not any(v.top == n and v.comp.kind == 'indep' for v in m.unknowns.values())}
        t.note('entries %s, want %s x %s' % (sorted(J), sorted(outs), sorted(ins)))
        t.check('an entry for every output and input', set(J) == set((o, i) for o in outs for i in ins))
        run = s._sys_solve_nonlinear if isgroup else s._sys_apply_nonlinear
        res = s.unknowns if isgroup else s.resids
        for iname, (q, vec, key) in ins.items():
            o = dict(opts)
            if q in getattr(q.comp, 'params', []):
                o.update(getattr(q, 'fdopts', None) or {})
            n = vec._dat[key].val.size

            def at(k, d):
                vec._dat[key].val[k] += d
                run(s.params, s.unknowns, s.resids)
                r = res.vec.copy()
                keep.restore()
                return r
            r0 = res.vec.copy() if isgroup else at(0, 0.0) if n else None
            for k in range(n):
                v = vec._dat[key].val[k]
                h = o['step_size']
                # (complex steps and those of a quadratic function are exact)
                if own or how == 'cs':
                    f, h = 'central', 1e-3
                else:
                    f = o['form']
                    if o['step_calc'] == 'relative':
                        h = max(abs(v) * h, h)
                if f == 'forward':
                    want = (at(k, h) - r0) / h
                elif f == 'backward':
                    want = (r0 - at(k, -h)) / h
                else:
                    want = (at(k, h) - at(k, -h)) / (2 * h)
                extra = 0.0
                if own or how == 'cs':
                    half = (at(k, h / 2) - at(k, -h / 2)) / h
                    extra, want = 2 * np.abs(want - half), (4 * half - want) / 3
                for oname, acc in outs.items():
                    a, b = res._dat[oname].slice
                    got = J[oname, iname]
                    w = want[a:b]
                    big = max(1.0, np.max(np.abs(r0)) if len(r0) else 0.0, np.max(np.abs(want)) if len(want) else 0.0)
                    if big > 1e7:
                        raise Reject()
                    tol = 1e-8 * big + 1e-10 * big / h + (extra[a:b] if own or how == 'cs' else 0.0)
                    t.note('d %s / d %s[%d] = %s want %s step %s %s' % (oname, iname, k, got[:, k].tolist(), w.tolist(), h, f))
                    t.check('shape of an entry', got.shape == (b - a, n))
                    t.check('quotient of %s step' % f, np.allclose(got[:, k], w, rtol=1e-6, atol=tol))

    def known(self, f, t):
        if f == 'params unchanged by total derivatives' and any('total differences changed params' in str(x) for x in t.log):
            return 'C07-fd-params'
