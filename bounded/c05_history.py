"""C05 bounded stand-in: histories of operations on real dictionaries against a reference model."""
import warnings
from pyvc.contract import Bounded
from openmdao.util.options import OptionsDictionary, DeprecatedOptionsDictionary

POOL = {'float': [0.0, 1.0, -1.0, 2.5, 1e-6], 'int': [0, 1, 5, -3], 'bool': [True, False],
        'str': ['fd', 'cs', 'user', '']}


class OptionsHistory(Bounded):
    prop = 'C05'
    covers = 'openmdao.util.options:OptionsDictionary (whole-history)'
    samples = 400
    parts = 1

    def sample(self, t, rng):
        warnings.simplefilter('ignore')
        d = OptionsDictionary()
        lock_now = False
        model, dep = {}, {}
        names = ['a', 'b', 'c', 'd']
        olds = ['x', 'y']
        ops = []
        anyval = [v for vs in POOL.values() for v in vs] + [None, float('inf')]
        try:
            for step in range(rng.randint(3, 14)):
                op = rng.choice(['add', 'add', 'set', 'set', 'set', 'set', 'get', 'remove', 'dep', 'lock', 'attr', 'items'])
                name = rng.choice(names + olds)
                v = rng.choice(anyval)
                res = dep.get(name, name) if name not in model else name
                exp = 'ok'
                if op == 'add':
                    name = rng.choice(names)
                    ty = rng.choice(list(POOL))
                    v = rng.choice(POOL[ty])
                    rec = dict(val=v, lo=None, hi=None, vals=None, lock=rng.random() < 0.3)
                    if ty in ('float', 'int') and rng.random() < 0.6:
                        b = sorted([rng.choice(POOL[ty]), rng.choice(POOL[ty])])
                        rec['lo'] = rng.choice([None, b[0]])
                        rec['hi'] = rng.choice([None, b[1]])
                    elif rng.random() < 0.4:
                        rec['vals'] = [rng.choice(POOL[ty]) for _ in range(2)]
                    if name in model or self.bad(rec, v, lock_now):
                        exp = 'err'
                    ops.append(('add', name, rec))
                    got = self.do(lambda: d.add_option(name, v, lower=rec['lo'], upper=rec['hi'], values=rec['vals'],
                                                       lock_on_setup=rec['lock']))
                    t.check('add_option raises exactly when the declaration is invalid', (got == 'ok') == (exp == 'ok'))
                    if exp == 'ok':
                        model[name] = rec
                elif op == 'set':
                    ops.append(('set', name, v))
                    if res not in model or self.bad(model[res], v, lock_now):
                        exp = 'err'

                    def f():
                        d[name] = v
                    got = self.do(f)
                    t.check('setting raises exactly when name or value is invalid', (got == 'ok') == (exp == 'ok'))
                    if exp == 'ok':
                        model[res]['val'] = v
                elif op == 'remove':
                    ops.append(('remove', name))
                    self.do(lambda: d.remove_option(name))
                    model.pop(name, None)
                    for o in [o for o in dep if dep[o] == name]:
                        pass
                elif op == 'dep':
                    if not model:
                        continue
                    o, n = rng.choice(olds), rng.choice(sorted(model))
                    ops.append(('dep', o, n))
                    d._add_deprecation(o, n)
                    dep[o] = n
                elif op == 'lock':
                    lock_now = not lock_now
                    ops.append(('lock', lock_now))
                    d.locked = lock_now
                elif op == 'attr':
                    ops.append(('attr', name))
                    t.check('attribute-style set raises', self.do(lambda: setattr(d, name, 1)) == 'err')
                # after every step the dictionary equals the model
                for n in names + olds:
                    r = n if n in model else dep.get(n, n)
                    if r in model:
                        a = d[n]
                        t.check('read returns the held value', a == model[r]['val'] and type(a) is type(model[r]['val']))
                        t.check('get returns the held value', d.get(n) == model[r]['val'])
                        t.check('declared option is contained', n in d)
                    else:
                        t.check('reading an undeclared option raises KeyError', self.do(lambda: d[n]) == 'err')
                t.check('items lists exactly the options', dict(d.items()) == {k: r['val'] for k, r in model.items()})
                if t.failures:
                    break
        finally:
            OptionsDictionary.locked = False
            t.note(ops)

    @staticmethod
    def bad(rec, v, locked):
        if locked and rec['lock']:
            return True
        if rec['vals'] is not None:
            return v not in rec['vals']
        if type(v) is not type(rec['val']):
            return True
        return (rec['lo'] is not None and v < rec['lo']) or (rec['hi'] is not None and v > rec['hi'])

    @staticmethod
    def do(f):
        try:
            f()
            return 'ok'
        except (KeyError, ValueError, RuntimeError, NameError):
            return 'err'


class LibraryOptions(Bounded):
    """every option the library declares: defaults valid; bad values rejected without effect"""
    prop = 'C05'
    covers = 'options declared by systems, solvers and drivers'
    samples = 60
    parts = 1

    def sample(self, t, rng):
        import openmdao.api as om
        from openmdao.solvers.solver_base import SolverBase
        warnings.simplefilter('ignore')
        mk = [om.Group, om.Newton, om.NLGaussSeidel, om.RunOnce, om.ScipyGMRES, om.LinearGaussSeidel, om.DirectSolver,
              om.BacktrackingLineSearch if hasattr(om, 'BacktrackingLineSearch') else om.Newton,
              om.ScipyOptimizer, om.InMemoryRecorder, om.ExecComp]
        cls = rng.choice(mk)
        o = cls('y=x') if cls is om.ExecComp else cls()
        t.note(cls.__name__)
        for attr in ('options', 'deriv_options'):
            od = getattr(o, attr, None)
            if not isinstance(od, OptionsDictionary):
                continue
            names = sorted(od._options)
            chg = set()
            for n in rng.sample(names, len(names)):
                before = dict(od.items())
                opt = od._options[n]
                ok = rng.choice([rng.choice(v) for v in POOL.values()])
                bad = (ok not in opt['values']) if opt['values'] is not None else \
                    (type(ok) is not type(opt['val']) or (opt['lower'] is not None and ok < opt['lower']) or
                     (opt['upper'] is not None and ok > opt['upper']))

                def f():
                    od[n] = ok
                r = OptionsHistory.do(f)
                t.check('%s: set %r raises exactly when invalid' % (n, ok), (r == 'err') == bad)
                if not bad:
                    before[n] = ok
                    self.couple(od, n, ok, before, chg)
                    chg.add(n)
                t.check('only that option changes', dict(od.items()) == before)


    @staticmethod
    def couple(od, n, v, before, chg):
        """documented: an untouched step size follows the derivative type"""
        for ty, st in (('type', 'step_size'), ('check_type', 'check_step_size')):
            if n == ty and st in before and st not in chg and v in ('fd', 'cs'):
                before[st] = 1e-6 if v == 'fd' else 1e-30


class FdOptionsAlias(Bounded):
    """the deprecated fd_options view sets exactly the option it names"""
    prop = 'C05'
    covers = 'openmdao.util.options:DeprecatedOptionsDictionary'
    samples = 80
    parts = 1

    def sample(self, t, rng):
        import openmdao.api as om
        warnings.simplefilter('ignore')
        g = om.Group()
        od = g.deriv_options
        before = dict(od.items())
        key, val, tgt, tval = rng.choice([('force_fd', True, 'type', 'fd'), ('force_fd', False, 'type', 'user'),
                                          ('step_type', 'relative', 'step_calc', 'relative'),
                                          ('form', 'complex_step', 'type', 'cs'), ('form', 'central', 'form', 'central'),
                                          ('step_size', 0.5, 'step_size', 0.5)])
        t.note(key, val)
        g.fd_options[key] = val
        before[tgt] = tval
        LibraryOptions.couple(od, tgt, tval, before, ())
        t.check('alias sets exactly the renamed option', dict(od.items()) == before)
        t.check('alias reads it', key not in ('force_fd',) or g.fd_options[key] == (tval in ('fd', 'cs')))
