"""C16 bounded stand-in: relevance of random models against reachability, and its effect on derivatives."""
import numpy as np
from openmdao.core.relevance import Relevance
from openmdao.api import LinearGaussSeidel
from pyvc.contract import Bounded, Reject
from bounded import gen
from bounded.c15_order import closure
from bounded.c11_totals import choose_solvers, perturb
from bounded.c01_storage import systems


def expected(m, ins, outs):
    """{(variable of interest): (relevant names, relevant systems)} for tuples of names of inputs and outputs"""
    by = {v.top: v for v in m.unknowns.values()}
    comps = [c.path for c in m.comps]
    E = set((s.rsplit('.', 1)[0], t.rsplit('.', 1)[0]) for t, (s, _) in m.conns.items())
    r = closure(comps, E) | set((c, c) for c in comps)
    cin = {i: by[i].comp.path for i in ins}
    cout = {o: by[o].comp.path for o in outs}
    rel = {}
    for i in ins:
        rel.setdefault(i, set()).update(c for c in comps for o in outs if (cin[i], c) in r and (c, cout[o]) in r)
    for o in outs:
        rel.setdefault(o, set()).update(c for c in comps for i in ins if (cin[i], c) in r and (c, cout[o]) in r)
    res = {}
    allv = set(ins) | set(outs)
    for v, cs in rel.items():
        names = set(n for n in allv if by[n].comp.path in cs)
        for tgt, (src, _) in m.conns.items():
            a, b = src.rsplit('.', 1)[0], tgt.rsplit('.', 1)[0]
            if a in cs and b in cs:
                names.add(m.unknowns[src].top)
                names.add(m.params[tgt].top)
        sy = set(cs)
        for c in cs:
            p = c.split('.')
            sy.update('.'.join(p[:k]) for k in range(1, len(p)))
        res[v] = names, sy
    return res


class Queries(Bounded):
    prop = 'C16'
    covers = 'openmdao.core.relevance: Relevance.__init__, _setup_sys_graph, _compute_relevant_vars, is_relevant, is_relevant_system, vars_of_interest'
    samples = 2500
    parts = 3

    def sample(self, t, rng):
        m = gen.model(rng, ncomp=rng.randint(3, 10), depth=3, cyclic=rng.random() < 0.4, quad=False, units=False,
                      unconnected=rng.choice([0.15, 0.35]), pbo=rng.random() < 0.3, arrays=rng.random() < 0.3)
        p = m.build()
        from openmdao.api import ScipyGMRES
        for g in m.groups:
            g.system.ln_solver = ScipyGMRES()
        tops = [v.top for v in m.unknowns.values()]
        t.note(m.describe())
        p.setup(check=False)

        def groups(names):
            names, out = list(names), []
            while names:
                k = rng.randint(1, min(2, len(names)))
                out.append(names[0] if k == 1 and rng.random() < 0.5 else tuple(names[:k]))
                names = names[k:]
            return out
        ins = rng.sample(tops, min(len(tops), rng.randint(1, 4)))
        outs = rng.sample(tops, min(len(tops), rng.randint(1, 4)))
        gi, go = groups(ins), groups(outs)
        t.note('inputs %s outputs %s' % (gi, go))
        want = expected(m, ins, outs)
        r0 = p._probdata.relevance
        kept = []
        for mode in ('fwd', 'rev'):
            r = Relevance(p.root, r0.params_dict, r0.unknowns_dict, p.root.connections, gi, go, mode)
            tup = [(x,) if isinstance(x, str) else x for x in gi], [(x,) if isinstance(x, str) else x for x in go]
            t.check('variables of interest', r.vars_of_interest('fwd') == tup[0] and r.vars_of_interest('rev') == tup[1]
                    and r.vars_of_interest() == tup[0 if mode == 'fwd' else 1])
            got = {}
            for v, (names, sys) in want.items():
                for n in tops + [q.top for q in m.params.values()]:
                    if bool(r.is_relevant(v, n)) != (n in names):
                        t.note('%s for %s: want %s' % (n, v, n in names))
                        t.check('a variable is relevant exactly when it is on a path', False)
                    got[v, n] = bool(r.is_relevant(v, n))
                for s in systems(p):
                    if s.pathname:
                        if bool(r.is_relevant_system(v, s)) != (s.pathname in sys):
                            t.note('system %s for %s: want %s' % (s.pathname, v, s.pathname in sys))
                            t.check('a system is relevant exactly when it is on a path', False)
                        got[v, s.pathname, 's'] = bool(r.is_relevant_system(v, s))
            t.check('checked', True)
            for n in tops + [q.top for q in m.params.values()]:
                t.check('everything is relevant to no variable in particular', r.is_relevant(None, n))
            for s in systems(p):
                t.check('every system is relevant to no variable in particular', r.is_relevant_system(None, s))
            kept.append(got)
        t.check('forward and reverse relevance are the same', kept[0] == kept[1])


class Skipping(Bounded):
    prop = 'C16'
    covers = ('use of relevance: Group._sys_apply_linear, solve_linear, SrcVecWrapper.setup, _setup_data_transfer; '
              'LinearGaussSeidel with single_voi_relevance_reduction; Problem._calc_gradient_ln_solver')
    samples = 1500
    parts = 3

    def sample(self, t, rng):
        m = gen.model(rng, ncomp=rng.randint(4, 9), depth=3, states=rng.random() < 0.3, quad=False, units=False,
                      unconnected=0.15, pbo=False)
        p = m.build()
        ins = [v for v in m.unknowns.values() if v.comp.kind == 'indep']
        outs = [v for v in m.unknowns.values() if v.comp.kind != 'indep']
        rng.shuffle(ins)
        rng.shuffle(outs)
        ins, outs = ins[:rng.randint(1, 3)], outs[:rng.randint(1, 3)]
        if not ins or not outs:
            raise Reject()
        mode = rng.choice(['fwd', 'rev'])
        for v in ins:
            p.driver.add_desvar(v.top)
        p.driver.add_objective(outs[0].top)
        for v in outs[1:]:
            p.driver.add_constraint(v.top, upper=1.0)
        desc = choose_solvers(m, rng)
        if rng.random() < 0.6:
            p.root.ln_solver = LinearGaussSeidel()
            p.root.ln_solver.options['maxiter'] = 1
            p.root.ln_solver.options['single_voi_relevance_reduction'] = True
            p.root.ln_solver.options['iprint'] = -1
            desc += ' (root: lgs with relevance reduction)'
        p.root.ln_solver.options['mode'] = mode
        names = [v.top for v in ins], [v.top for v in outs]
        t.note(m.describe() + '\n%s %s\n%s %s' % (desc, mode, names[0], names[1]))
        p.setup(check=False)
        perturb(m, p, rng)
        p.run()
        u = m.evaluate()
        T, off = m.totals(u)
        if max(np.max(np.abs(T)), max([np.max(np.abs(x)) for x in u.values() if x.size])) > 1e3:
            raise Reject()
        for k in range(2):
            # only some of the variables may be asked for
            J = p.calc_gradient(names[0], names[1], mode=mode, return_format='dict')
            for o in outs:
                for i in ins:
                    a, b = off[o.abs]
                    e, f = off[i.abs]
                    if o.top in names[1] and i.top in names[0]:
                        t.note('d(%s)/d(%s): %s want %s' % (o.top, i.top, np.array(J[o.top][i.top]).tolist(), T[a:b, e:f].tolist()))
                        t.check('d(%s)/d(%s) is the derivative' % (o.top, i.top),
                                np.allclose(J[o.top][i.top], T[a:b, e:f], rtol=1e-6, atol=1e-6))
            names = (rng.sample(names[0], rng.randint(1, len(names[0]))), rng.sample(names[1], rng.randint(1, len(names[1]))))
            t.note('then %s %s' % names)
