"""C04 bounded stand-in: the unit library and unit expressions against an independent reading of the .ini file."""
import ast
import keyword
import math
import os
import random
import re
from pyvc.contract import Bounded
from openmdao.units import units as U

INI = os.path.join(os.path.dirname(U.__file__), 'unit_library.ini')


class Lib(object):
    """independent reader of unit_library.ini"""
    def __init__(self):
        self.prefix, self.base, self.defs = {}, [], {}
        sec = None
        for line in open(INI):
            line = line.split('\n')[0].strip()
            if not line or line.startswith('#') or line.startswith(';'):
                continue
            if line.startswith('['):
                sec = line.strip('[]')
                continue
            k, v = [x.strip() for x in line.split(':', 1)]
            if sec == 'prefixes':
                self.prefix[k] = float(v.split(',')[0])
            elif sec == 'base_units':
                self.base.append(v)
            elif sec == 'units':
                p = [x.strip() for x in v.split(',')]
                if len(p) == 4:
                    self.defs[k] = ('off', float(p[0]), p[1], float(p[2]))
                else:
                    self.defs[k] = ('expr', p[0])
        self.cache = {}

    def named(self, n):
        """(factor, offset, {base: power}) of a unit name"""
        if n in self.cache:
            return self.cache[n]
        if n in self.base:
            r = (1.0, 0.0, {n: 1})
        elif n == 'unitless':
            r = (1.0, 0.0, {})
        elif n in self.defs:
            d = self.defs[n]
            if d[0] == 'off':
                f, o, p = self.expr(d[2])
                r = (f * d[1], d[3], p)
            else:
                r = self.expr(d[1])
        else:
            r = None
            for pl in (1, 2):
                if n[:pl] in self.prefix and (n[pl:] in self.base or n[pl:] in self.defs):
                    f, o, p = self.named(n[pl:])
                    if o:
                        raise TypeError('offset')
                    r = (f * self.prefix[n[:pl]], 0.0, p)
                    break
            if r is None:
                raise ValueError(n)
        self.cache[n] = r
        return r

    def expr(self, s):
        def ev(t):
            if isinstance(t, ast.Constant):
                return float(t.value)
            if isinstance(t, ast.Name):
                return math.pi if t.id == 'pi' else self.named(t.id)
            if isinstance(t, ast.UnaryOp):
                return -ev(t.operand)
            a, b = ev(t.left), ev(t.right)
            if isinstance(t.op, ast.Pow):
                if isinstance(a, float):
                    return a ** b
                if a[1]:
                    raise TypeError('offset')
                return (a[0] ** b, 0.0, {k: v * b for k, v in a[2].items()})
            sg = 1 if isinstance(t.op, ast.Mult) else -1
            if isinstance(a, float) and isinstance(b, float):
                return a * b if sg == 1 else a / b
            if isinstance(a, float):
                a = (a, 0.0, {})
            if isinstance(b, float):
                b = (b, 0.0, {})
            if a[1] or b[1]:
                raise TypeError('offset')
            p = dict(a[2])
            for k, v in b[2].items():
                p[k] = p.get(k, 0) + sg * v
            return (a[0] * b[0] ** sg, 0.0, p)
        t = ast.parse(s.replace(' ', ''), mode='eval').body
        return ev(t)

    def powers(self, p):
        return [p.get(b, 0) for b in self.base]


LIB = Lib()
# library names that are usable inside expressions
NAMES = [n for n in LIB.base + list(LIB.defs) if re.match(r'^[A-Za-z][A-Za-z0-9_]*$', n) and not keyword.iskeyword(n)]


def rel(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def random_expr(rng):
    # names with an underscore are only used by themselves: the code cannot mix
    # them with prefixed units (it raises ValueError), which the property allows
    if rng.random() < 0.05:
        return rng.choice([n for n in NAMES if '_' in n])
    plain = [n for n in NAMES if '_' not in n]

    def atom():
        n = rng.choice(plain)
        if rng.random() < 0.35:
            p = rng.choice(sorted(LIB.prefix))
            if p + n not in LIB.defs and p + n not in LIB.base and not keyword.iskeyword(p + n):
                n = p + n
        return n
    s = atom()
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        s += rng.choice(['*', '/']) + atom()
        if rng.random() < 0.4:
            s += '**%d' % rng.choice([2, 3, -1, -2])
    return s


def read(s):
    try:
        return LIB.expr(s)
    except (TypeError, ValueError, ZeroDivisionError, OverflowError):
        return None


class UnitLibrary(Bounded):
    prop = 'C04'
    covers = 'openmdao.units.units: import_library, _find_unit, convert_units, get_conversion_tuple, name'
    samples = 1500
    parts = 2
    budget = 40

    def sample(self, t, rng):
        s = random_expr(rng)
        t.note(s)
        want = read(s)
        try:
            u = U._find_unit(s)
        except (TypeError, ValueError, AttributeError):
            u = None
        t.check('a unit expression is accepted exactly when it is meaningful', (u is None) == (want is None))
        if u is None or want is None:
            return
        t.check('factor of the expression', rel(u.factor, want[0]))
        t.check('offset of the expression', rel(u.offset, want[1]))
        t.check('base-dimension exponents', list(u.powers) == LIB.powers(want[2]))
        # a conversion partner
        same = [n for n in NAMES if read(n) and LIB.powers(read(n)[2]) == LIB.powers(want[2])]
        v = rng.randint(-40, 40) / 4.0
        if same and rng.random() < 0.8:
            tn = rng.choice(same)
            near = [n for n in same if n != s and n.lower() == s.lower()]
            if near and rng.random() < 0.5:
                tn = rng.choice(near)
            w = read(tn)
            t.note('to', tn, 'value', v)
            exp = (v + want[1]) * want[0] / w[0] - w[1]
            tol = 1e-9 * (1 + abs(exp) + abs(w[1]) + abs(want[1] * want[0] / w[0]))
            got = U.convert_units(v, s, tn)
            t.check('conversion value', abs(got - exp) <= tol)
            f, o = U.get_conversion_tuple(s, tn)
            t.check('conversion tuple', abs((v + o) * f - exp) <= tol)
            back = U.convert_units(got, tn, s)
            tb = 1e-9 * (1 + abs(v) + abs(want[1]) + abs((abs(w[1]) + abs(exp)) * w[0] / want[0]))
            t.check('conversion there and back', abs(back - v) <= tb)
        other = rng.choice(NAMES)
        w = read(other)
        if w and LIB.powers(w[2]) != LIB.powers(want[2]):
            t.note('incompatible', other)
            for f in (lambda: U.convert_units(v, s, other), lambda: U.get_conversion_tuple(s, other)):
                try:
                    f()
                    t.check('incompatible units raise', False)
                except TypeError:
                    t.check('incompatible units raise', True)
        # the name of a unit denotes the unit (integer powers)
        if want[1] == 0:
            try:
                again = U._find_unit(u.name())
            except Exception:
                again = None
            if again is not None:
                t.check('name denotes the same dimensions', list(again.powers) == list(u.powers))
                t.check('name denotes the same unit', rel(again.factor, u.factor))
            elif u.name() != '1':
                t.check('a unit name can be read back', False)
        q = U.PhysicalQuantity(v, s)
        if any(LIB.powers(want[2])):
            b = q.in_base_units()
            base = (v + want[1]) * want[0]
            t.check('base-unit value', rel(b.value * b.unit.factor, base, 1e-8) and list(b.unit.powers) == LIB.powers(want[2]))


class UnitHistory(Bounded):
    """the meaning of a unit does not depend on which units were used before"""
    prop = 'C04'
    covers = 'openmdao.units.units: _find_unit, add_unit (prefix handling, cache)'
    samples = 60
    parts = 1

    def sample(self, t, rng):
        with open(INI) as f:
            U.import_library(f)
        names = [random_expr(rng) for _ in range(25)]
        names += ['am', 'dam', 'ym', 'dag', 'ag', 'das']
        rng.shuffle(names)
        t.note(names)
        for s in names:
            want = read(s)
            try:
                u = U._find_unit(s)
            except (TypeError, ValueError, AttributeError):
                u = None
            if want is None or u is None:
                t.check('%s is accepted exactly when meaningful' % s, (u is None) == (want is None))
                continue
            t.check('%s has its own factor and dimensions' % s, rel(u.factor, want[0]) and rel(u.offset, want[1]) and
                    list(u.powers) == LIB.powers(want[2]))


class QuantityOps(Bounded):
    prop = 'C04'
    covers = 'openmdao.units.units: PhysicalQuantity arithmetic and comparison'
    samples = 500
    parts = 1

    def sample(self, t, rng):
        s1, s2 = random_expr(rng), random_expr(rng)
        a, b = read(s1), read(s2)
        if a is None or b is None:
            return
        v, w = rng.randint(1, 40) / 4.0, rng.randint(-40, -1) / 4.0
        p, q = U.PhysicalQuantity(v, s1), U.PhysicalQuantity(w, s2)
        t.note(v, s1, w, s2)

        def amount(x):
            return x * 1.0 if not isinstance(x, U.PhysicalQuantity) else x.value * x.unit.factor

        def dims(x):
            return [0] * len(LIB.base) if not isinstance(x, U.PhysicalQuantity) else list(x.unit.powers)
        pa, pb = LIB.powers(a[2]), LIB.powers(b[2])
        if a[1] == 0 and b[1] == 0:
            for nm, f, amt, dm in (('*', lambda: p * q, v * a[0] * w * b[0], [x + y for x, y in zip(pa, pb)]),
                                   ('/', lambda: p / q, (v * a[0]) / (w * b[0]), [x - y for x, y in zip(pa, pb)]),
                                   ('**2', lambda: p ** 2, (v * a[0]) ** 2, [2 * x for x in pa]),
                                   ('neg', lambda: -p, -v * a[0], pa),
                                   ('*k', lambda: 3.0 * p, 3.0 * v * a[0], pa),
                                   ('/k', lambda: p / 2.0, v * a[0] / 2.0, pa),
                                   ('k/', lambda: 2.0 / p, 2.0 / (v * a[0]), [-x for x in pa])):
                r = f()
                t.check('%s: amount' % nm, rel(amount(r), amt))
                t.check('%s: dimensions' % nm, dims(r) == dm)
            if pa == pb:
                t.check('+', rel(amount(p + q), v * a[0] + w * b[0], 1e-6))
                t.check('-', rel(amount(p - q), v * a[0] - w * b[0], 1e-6))
                t.check('==', (p == q) == rel(v * a[0], w * b[0]))
                t.check('<', (p < q) == (v * a[0] < w * b[0]))
            else:
                for f in (lambda: p + q, lambda: p - q, lambda: p < q):
                    try:
                        f()
                        t.check('mixing dimensions raises', False)
                    except TypeError:
                        t.check('mixing dimensions raises', True)
                t.check('different dimensions are not equal', not (p == q))
        else:
            for f in (lambda: p.unit * q.unit, lambda: p.unit / q.unit,
                      lambda: (p if a[1] else q).unit ** 2, lambda: 1.0 / (p if a[1] else q).unit):
                try:
                    f()
                    t.check('arithmetic on a unit with an offset raises', False)
                except TypeError:
                    t.check('arithmetic on a unit with an offset raises', True)
