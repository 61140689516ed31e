"""C20 bounded stand-in: sequences of declarations on real components, against an independent record of what was declared."""
import numpy as np
from openmdao.api import Problem, Group, Component, IndepVarComp
from pyvc.contract import Bounded, Reject

FIRST = '_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
NAMES = ('x', 'y', 'x1', '_', 'a:b', 'a:b:c', 'x_2', 'Xy', '1x', 'a.b', 'a:', ':a', 'a::b', 'a:1', 'a b', '', 'x-y', 'x!', 'x\n', 'naïve', 'a:b.c', 'x ')


def legal(name):
    return all(p and p[0] in FIRST and all(ch in FIRST + '0123456789' for ch in p) for p in name.split(':'))


class Plain(Component):
    def solve_nonlinear(self, p, u, r):
        pass


class Histories(Bounded):
    prop = 'C20'
    covers = ('openmdao.core.component: Component.add_param, add_output, add_state, _add_variable, _get_initial_val, _check_val, _check_varname, '
              '_setup_variables; IndepVarComp.__init__')
    samples = 3000
    parts = 2

    def value(self, rng):
        """(value, kind, shape, size) with kind 'd' for a differentiable one"""
        k = rng.randrange(9)
        if k < 3:
            v = rng.choice([1.5, -2.0, np.float64(0.5), 0.0])
            return v, 'd', 1, 1
        if k < 6:
            sh = rng.choice([(1,), (3,), (2, 3), (0,), (2, 1, 2), ()])
            v = np.array(rng.choice([1.0, 2.5])) * np.ones(sh) + np.arange(int(np.prod(sh))).reshape(sh)
            if sh == ():
                v = np.array(1.5)
            return v, 'd', sh, int(np.prod(sh))
        v = rng.choice([lambda: 3, lambda: 'text', lambda: [1.0, 2.0], lambda: {'a': 1}, lambda: np.array([1, 2]), lambda: True, lambda: np.array(['a', 'b']), lambda: object()])()
        return v, 'o', None, 0

    def sample(self, t, rng):
        c = Plain()
        want = {'p': [], 'u': []}
        names = []
        steps = []
        for _ in range(rng.randint(1, 7)):
            kind = rng.choice(['param', 'output', 'state'])
            n = rng.choice(NAMES if rng.random() < 0.7 else (names or NAMES))
            kw = {}
            v, k, sh, size = self.value(rng)
            given = rng.random() < 0.7
            errors = []
            if not given:
                s = rng.choice([None, 1, 2, 5, (1,), (2, 2), [3], (0,)])
                if s is None:
                    if kind != 'param':
                        errors.append(ValueError)
                    elif rng.random() < 0.5:
                        continue
                    k, sh, size = 'd', (), 1
                else:
                    kw['shape'] = s
                    sh = 1 if s == 1 else tuple(np.zeros(s).shape)
                    k, size = 'd', int(np.prod(s))
            elif rng.random() < 0.3 and k == 'd':
                # a shape in addition to a value: what counts is the value
                kw['shape'] = rng.choice([sh, size, 2, (3,)])
            if rng.random() < 0.2:
                kw['pass_by_obj'] = rng.random() < 0.8
                if kw['pass_by_obj']:
                    k, size = 'o', 0
            for key, x in (('units', 'ft'), ('lower', -1.0), ('desc', 'what'), ('mine', [1])):
                if rng.random() < 0.3:
                    kw[key] = x
            if rng.random() < 0.05:
                kw[rng.choice(['low', 'high'])] = 0.0
                errors.append(TypeError)
            if rng.random() < 0.15:
                kw['resid_scaler'] = rng.choice([2.0, 3, 0.0])
                if kind != 'state' or kw['resid_scaler'] == 0:
                    errors.append(ValueError)
            if n in names:
                errors.append(RuntimeError)
            if not legal(n):
                errors.append(NameError)
            steps.append('%s %r %s %s' % (kind, n, repr(v) if given else '', kw))
            t.note('\n'.join(steps))
            add = {'param': c.add_param, 'output': c.add_output, 'state': c.add_state}[kind]
            given_kw = dict(kw)
            try:
                if given:
                    add(n, v, **kw)
                else:
                    add(n, **kw)
                ok = None
            except (RuntimeError, NameError, ValueError, TypeError) as ex:
                ok = type(ex)
            t.check('an error exactly when the declaration is not acceptable', (ok is None) == (not errors) and (ok is None or ok in errors))
            t.check('the options of the caller stay', kw == given_kw)
            if ok is None:
                names.append(n)
                want['p' if kind == 'param' else 'u'].append((n, kind, v if given else None, given, k, sh, size, kw))
            self.compare(t, c, want)
        if not names:
            raise Reject()
        # (an unconnected param with an array of no dimensions counts as one without a shape)
        if rng.random() < 0.5 and not any(w[5] == () and w[4] == 'd' for w in want['p']):
            p = Problem(root=Group())
            from openmdao.api import ScipyGMRES
            g = p.root.add('g', Group())
            g.add('c', c)
            g.ln_solver, p.root.ln_solver = ScipyGMRES(), ScipyGMRES()
            try:
                p.setup(check=False)
            except Exception as ex:
                # (e.g. values or shapes that cannot live in a vector)
                raise
            for f in (c.add_param, c.add_output, c.add_state):
                try:
                    f('late', 1.0)
                    late = True
                except RuntimeError:
                    late = False
                t.check('nothing can be declared after setup', not late)
            self.compare(t, c, want)
            for n, kind, v, given, k, sh, size, kw in want['u']:
                if k == 'd':
                    got = p['g.c.' + n]
                    t.check('the model has a variable of the declared shape and value', np.shape(got) == (() if sh == 1 else sh) and
                            np.allclose(got, v if given else 0.0))

    def compare(self, t, c, want):
        for which, d in (('p', c._init_params_dict), ('u', c._init_unknowns_dict)):
            t.check('the declared variables, in order', list(d) == [w[0] for w in want[which]])
            for n, kind, v, given, k, sh, size, kw in want[which]:
                m = d[n]
                for key, x in kw.items():
                    if key not in ('shape', 'pass_by_obj'):
                        t.check('options are recorded as given', key in m and m[key] == x)
                t.check('a state is marked', bool(m.get('state')) == (kind == 'state'))
                t.check('size', m['size'] == size)
                t.check('passed by object exactly if it cannot be differentiated or is asked for', bool(m.get('pass_by_obj')) == (k == 'o'))
                if given:
                    t.check('the value is the one given', m['val'] is v or np.all(np.asarray(m['val'] == v)) and np.shape(m['val']) == np.shape(v))
                else:
                    t.check('zeros', np.shape(m['val']) == (() if sh == 1 else sh) and not np.any(m['val']))
                if k == 'd':
                    t.check('the shape is that of the value', m['shape'] == sh)


class Independent(Bounded):
    prop = 'C20'
    covers = 'openmdao.components.indep_var_comp: IndepVarComp.__init__, _setup_variables'
    samples = 800
    parts = 1

    def sample(self, t, rng):
        names = rng.sample(['x', 'y', 'z', 'a:b'], rng.randint(1, 4))
        vals = [rng.choice([1.5, np.arange(3.0), np.ones((2, 2)), 'text']) for _ in names]
        kws = [rng.choice([None, {}, {'units': 'm'}, {'lower': 0.0, 'desc': 'd'}]) for _ in names]
        form = rng.choice(['one', 'list', 'tuple', 'generator'])
        t.note(repr((form, names, vals, kws)))
        if form == 'one':
            names, vals, kws = names[:1], vals[:1], kws[:1]
            c = IndepVarComp(names[0], vals[0], **(kws[0] or {}))
        else:
            tups = [(n, v) if k is None else (n, v, k) for n, v, k in zip(names, vals, kws)]
            bad = rng.random() < 0.2
            if bad:
                tups.insert(rng.randint(0, len(tups)), rng.choice([('q',), 'q', ['q', 1.0], 3]))
            try:
                c = IndepVarComp({'list': lambda: tups, 'tuple': lambda: tuple(tups), 'generator': lambda: iter(tups)}[form]())
                ok = True
            except ValueError:
                ok = False
            t.check('an error exactly when some item is not a variable', ok == (not bad))
            if bad:
                return
        d = c._init_unknowns_dict
        t.check('each variable declared, in order', list(d) == names)
        for n, v, k in zip(names, vals, kws):
            t.check('with its value', d[n]['val'] is v or d[n]['val'] == v)
            for key, x in (k or {}).items():
                t.check('and its options', d[n].get(key) == x)
        p = Problem(root=Group())
        p.root.add('i', c)
        p.setup(check=False)
        for n, v in zip(names, vals):
            t.check('the model starts with it', np.all(p['i.' + n] == v))
