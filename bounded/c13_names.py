"""C13 bounded stand-in: promoted and absolute names of random models; string helpers on adversarial names."""
import numpy as np
from pyvc.contract import Bounded
from bounded import gen
from bounded.c01_storage import systems
from openmdao.util import string_util as SU


class Promotion(Bounded):
    prop = 'C13'
    covers = ('openmdao.core.system: System._promoted, _init_sys_data; Group._setup_variables, _promoted_name; '
              'Component._setup_variables; Group.find_subsystem, subsystems')
    samples = 2500
    parts = 3

    def sample(self, t, rng):
        m = gen.model(rng, ncomp=rng.randint(2, 9), depth=4, promote=0.6)
        t.note(m.describe())
        p = m.setup()
        specs = {g.path: g for g in m.groups}
        for s in systems(p):
            g = specs.get(s.pathname)
            pre = s.pathname + '.' if s.pathname else ''
            sd = s._sysdata
            want = {}
            for a, v in list(m.unknowns.items()) + list(m.params.items()):
                if a.startswith(pre):
                    want[a] = m._prom_in(v, g) if g else v.name
            t.check('the names of %s are its promoted names' % s.pathname, dict(sd.to_prom_name) == want)
            for a, n in want.items():
                if a in m.unknowns:
                    t.check('%s resolves back' % n, sd.to_abs_uname[n] == a)
                else:
                    t.check('%s resolves back to its params' % n, list(sd.to_abs_pnames[n]).count(a) == 1)
            t.check('no other names resolve', sorted(sd.to_abs_uname) == sorted(set(n for a, n in want.items() if a in m.unknowns)))
            t.check('params resolve to all their paths', sorted(x for l in sd.to_abs_pnames.values() for x in l) ==
                    sorted(a for a in want if a in m.params))
            if s.pathname:
                t.check('find_subsystem returns the system', p.root.find_subsystem(s.pathname) is s)
            for a in want:
                rel = SU.name_relative_to(s.pathname, a)
                t.check('relative name re-qualifies to the path', pre + rel == a)
                t.check('scoped name', sd._scoped_abs_name(a) == rel)
            for nm, vec in (('unknowns', s.unknowns), ('resids', s.resids)):
                t.check('%s holds exactly the variables of %s' % (nm, s.pathname),
                        sorted(vec.keys()) == sorted(n for a, n in want.items() if a in m.unknowns))
        allpaths = sorted(s.pathname for s in systems(p))
        want = sorted([g.path for g in m.groups] + [c.path for c in m.comps])
        t.check('subsystems lists every system once', allpaths == want)
        # promotion: a name is promoted exactly when it matches a pattern
        for s in m.comps + m.groups[1:]:
            sy = s.system
            for a, n in sy._sysdata.to_prom_name.items():
                t.check('%s of %s is promoted exactly when it matches' % (n, s.path),
                        bool(sy._promoted(n)) == gen.matches(n, s.promotes))
            t.check('a name the system does not have is not promoted', not sy._promoted('zzz_not_there'))
        # params and unknowns are reachable through the problem by their promoted names
        for v in m.unknowns.values():
            if not v.pbo:
                t.check('problem[%s] is the variable' % v.top, np.array_equal(np.asarray(p[v.top]), np.asarray(p.root.unknowns[v.top])))


class BadPromotes(Bounded):
    prop = 'C13'
    covers = 'openmdao.core.system: System._check_promotes; Group._setup_variables (duplicate promoted unknowns), Group.add'
    samples = 600

    def sample(self, t, rng):
        m = gen.model(rng, ncomp=rng.randint(2, 6), depth=3)
        kind = rng.choice(['nomatch', 'dup', 'string', 'dupname', 'badname'])
        t.note(kind, m.describe())
        if kind == 'nomatch':
            s = rng.choice(m.comps + m.groups[1:])
            names = [v.name for v in list(m.unknowns.values()) + list(m.params.values())]
            s.promotes.insert(rng.randint(0, len(s.promotes)), rng.choice(['zz*', 'notthere', rng.choice(names) + '_', rng.choice(names)[:-1] + 'q']))
        elif kind == 'string':
            s = rng.choice(m.comps + m.groups[1:])
            s.promotes = None
        elif kind == 'dup':
            # two sibling components promote an output of one name
            p = m.build()
            g = rng.choice(m.groups)
            from openmdao.api import IndepVarComp
            g.system.add('dupa', IndepVarComp('samename', 1.0), promotes=['*'])
            g.system.add('dupb', IndepVarComp('samename', 2.0), promotes=rng.choice([['*'], ['same*'], ['samename']]))
            self.fails(t, p, 'two unknowns promoted to one name are an error')
            return
        elif kind == 'dupname':
            p = m.build()
            g = rng.choice([g for g in m.groups if g.children])
            from openmdao.api import Group
            try:
                g.system.add(g.children[0].name, Group())
                t.check('adding a second subsystem of one name is an error', False)
            except RuntimeError:
                t.check('adding a second subsystem of one name is an error', True)
            return
        else:
            p = m.build()
            from openmdao.api import Group
            try:
                p.root.add(rng.choice(['a.b', '1a', 'a b', 'a-b', '', 'a:b']), Group())
                t.check('an illegal system name is an error', False)
            except NameError:
                t.check('an illegal system name is an error', True)
            return
        if kind == 'string':
            s.promotes = []
            p = m.build()
            s.system._promotes = 'v1'
            try:
                p.setup(check=False)
                t.check('a string as promotes is an error', False)
            except TypeError:
                t.check('a string as promotes is an error', True)
            return
        p = m.build()
        self.fails(t, p, 'a pattern that promotes nothing is an error')

    def fails(self, t, p, what):
        try:
            p.setup(check=False)
            t.check(what, False)
        except RuntimeError:
            t.check(what, True)


def parts(x):
    return x.split('.') if x else []


class Strings(Bounded):
    prop = 'C13'
    covers = 'openmdao.util.string_util: nearest_child, name_relative_to, get_common_ancestor'
    samples = 4000

    def sample(self, t, rng):
        pool = ['a', 'ab', 'abc', 's', 'sub', 'sub1', 'a1', 'b', 'x']

        def path(n):
            return '.'.join(rng.choice(pool) for _ in range(n))
        base = path(rng.randint(0, 3))
        tail = path(rng.randint(1, 3))
        full = (base + '.' + tail) if base else tail
        t.note(repr(base), repr(tail))
        t.check('name_relative_to', SU.name_relative_to(base, full) == tail)
        t.check('nearest_child', SU.nearest_child(base, full) == tail.split('.')[0])
        other = path(rng.randint(1, 4))
        if rng.random() < 0.6:
            other = '.'.join(parts(full)[:rng.randint(1, len(parts(full)))] + parts(path(rng.randint(0, 2))))
        a, b = parts(full), parts(other)
        k = 0
        while k < min(len(a), len(b)) and a[k] == b[k]:
            k += 1
        t.note(full, other)
        t.check('common ancestor', SU.get_common_ancestor(full, other) == '.'.join(a[:k]))
