"""C04: unit conversion is physically consistent (openmdao/units/units.py)."""
from pyvc.contract import *
from openmdao.units import units as U
from openmdao.units.units import PhysicalUnit, PhysicalQuantity, NumberDict

M = 'openmdao.units.units:'


def unit(c, name, n, offset=None, powers=None):
    """any unit: positive factor, any offset, any exponents of the n base dimensions"""
    f = c.real(name + '_factor', nonzero=True, lo=0)
    if offset is None:
        offset = c.real(name + '_offset')
    p = powers if powers is not None else c.symlist(name + '_powers', n, 'int')
    nm = c.obj(NumberDict) if c.sym else NumberDict([(name, 1)])
    u = c.obj(PhysicalUnit, names=nm, factor=f, offset=offset, powers=p)
    return NS(u=u, f=f, o=offset, p=p, n=n, pt=c.snap(p))


def names_model(c):
    """contracts of NumberDict arithmetic (dimension bookkeeping of unit *names* only)"""
    def mk(*a, **k):
        return c.obj(NumberDict)
    return {q: c.model(mk, q) for q in ('NumberDict.__add__', 'NumberDict.__sub__', 'NumberDict.__rsub__',
                                        'NumberDict.__mul__', 'NumberDict.__truediv__', 'NumberDict.__div__')} \
        | {'PhysicalUnit.name': c.model(lambda self: 'name', 'name')}


def same_powers(c, p, q, n):
    return c.forall(0, n, lambda i: c.at(p, i) == c.at(q, i))


def is_unit(c, u, f, o, pw, n):
    """u is a unit with factor f, offset o and exponents pw(i)"""
    P = c.attr(u, 'powers')
    return And(c.eq(c.attr(u, 'factor'), f), c.eq(c.attr(u, 'offset'), o), c.len(P) == n,
               c.forall(0, n, lambda i: c.at(P, i) == pw(i)))


class UnitBase(Contract):
    prop = 'C04'

    def uses(self, c, S):
        return names_model(c)

    def intact(self, c, S, *us):
        for k, x in enumerate(us):
            c.check('operand %d is not modified' % k, And(c.eq(c.attr(x.u, 'factor'), x.f), c.eq(c.attr(x.u, 'offset'), x.o),
                    c.attr(x.u, 'powers') is x.p, c.eq(x.p, x.pt)))


class ConversionTuple(UnitBase):
    target = M + 'PhysicalUnit.conversion_tuple_to'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n)
        b = unit(c, 'b', n, powers=c.choice('same', [a.p, None]))
        return NS(a=a, b=b, n=n, v=c.real('v'), args=(a.u, b.u))

    def ensures(self, c, S, out):
        a, b = S.a, S.b
        same = same_powers(c, a.p, b.p, S.n)
        c.check('incompatible dimensions raise TypeError, compatible ones convert', Iff(same, out.ok))
        c.check('the error is a TypeError', Or(out.ok, out.raised(TypeError)))
        if out.ok:
            fac, off = out.value
            c.check('conversion agrees with base-unit factors and offsets',
                    c.eq((S.v + off) * fac, (S.v + a.o) * a.f / b.f - b.o))
        self.intact(c, S, a, b)


class RoundTrip(UnitBase):
    """a -> b -> a is the identity, and a -> b -> d equals a -> d"""
    target = M + 'PhysicalUnit.conversion_tuple_to'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n)
        b = unit(c, 'b', n, powers=a.p)
        d = unit(c, 'd', n, powers=a.p)
        S = NS(a=a, b=b, d=d, n=n, v=c.real('v'), args=())
        pairs = [(a, b), (b, a), (b, d), (a, d)]
        S.call = lambda ip, fr: tuple(ip.call_func(fr, [x.u, y.u], {}) for x, y in pairs)
        S.realcall = lambda: tuple(x.u.conversion_tuple_to(y.u) for x, y in pairs)
        return S

    def ensures(self, c, S, out):
        c.check('compatible units convert', out.ok)
        if not out.ok:
            return
        (f1, o1), (f2, o2), (f3, o3), (f4, o4) = out.value
        w = (S.v + o1) * f1
        c.check('there and back returns the value', c.eq((w + o2) * f2, S.v))
        c.check('through an intermediate unit equals directly', c.eq((w + o3) * f3, (S.v + o4) * f4))


class ConversionFactor(UnitBase):
    target = M + 'PhysicalUnit.conversion_factor_to'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n)
        b = unit(c, 'b', n, powers=c.choice('same', [a.p, None]))
        return NS(a=a, b=b, n=n, args=(a.u, b.u))

    def ensures(self, c, S, out):
        a, b = S.a, S.b
        same = same_powers(c, a.p, b.p, S.n)
        c.check('incompatible dimensions raise TypeError', Implies(Not(same), out.raised(TypeError)))
        c.check('units that differ in offset and size raise TypeError',
                Implies(And(a.o != b.o, a.f != b.f), out.raised(TypeError)))
        c.check('units without offset always convert', Implies(And(same, a.o == 0, b.o == 0), out.ok))
        if out.ok:
            c.check('the factor is the quotient of the base-unit factors', c.eq(out.value * b.f, a.f))
        self.intact(c, S, a, b)


class Compatible(UnitBase):
    target = M + 'PhysicalUnit.is_compatible'

    def build(self, c, case):
        n = c.int('n', 1)
        a, b = unit(c, 'a', n), unit(c, 'b', n)
        return NS(a=a, b=b, n=n, args=(a.u, b.u))

    def ensures(self, c, S, out):
        c.check('compatible exactly when the dimensions are equal',
                Iff(out.value, same_powers(c, S.a.p, S.b.p, S.n)) if out.ok else False)


class UnitEq(UnitBase):
    target = M + 'PhysicalUnit.__eq__'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n)
        b = unit(c, 'b', n, powers=c.choice('same', [a.p, None]))
        return NS(a=a, b=b, n=n, args=(a.u, b.u))

    def ensures(self, c, S, out):
        c.check('equal exactly when factor, offset and dimensions are',
                Iff(out.value, And(S.a.f == S.b.f, S.a.o == S.b.o, same_powers(c, S.a.p, S.b.p, S.n))) if out.ok else False)


class Dimensionless(UnitBase):
    target = M + 'PhysicalUnit.is_dimensionless'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n)
        return NS(a=a, n=n, args=(a.u,))

    def ensures(self, c, S, out):
        c.check('dimensionless exactly when every exponent is zero',
                Iff(out.value, c.forall(0, S.n, lambda i: c.at(S.a.p, i) == 0)) if out.ok else False)


class Mul(UnitBase):
    target = M + 'PhysicalUnit.__mul__'
    cases = ('unit', 'number')

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n, c.choice('oa', [0.0, None]))
        S = NS(a=a, n=n)
        if case == 'unit':
            S.b = unit(c, 'b', n, c.choice('ob', [0.0, None]))
            S.args = (a.u, S.b.u)
        else:
            S.x = c.real('x', nonzero=True)
            S.args = (a.u, S.x)
        return S

    def ensures(self, c, S, out):
        a = S.a
        if hasattr(S, 'b'):
            b = S.b
            okv = And(a.o == 0, b.o == 0)
            if out.ok:
                c.check('product of factors, sum of exponents',
                        is_unit(c, out.value, a.f * b.f, 0, lambda i: c.at(a.p, i) + c.at(b.p, i), S.n))
            self.intact(c, S, a, b)
        else:
            okv = a.o == 0
            if out.ok:
                c.check('scaled factor, same exponents',
                        is_unit(c, out.value, a.f * S.x, 0, lambda i: c.at(a.p, i), S.n))
            self.intact(c, S, a)
        c.check('multiplying a unit with an offset raises TypeError', And(Iff(okv, out.ok), Or(out.ok, out.raised(TypeError))))


class Div(UnitBase):
    target = M + 'PhysicalUnit.__div__'
    cases = ('unit', 'number')

    def build(self, c, case):
        return Mul.build(self, c, case)

    def ensures(self, c, S, out):
        a = S.a
        if hasattr(S, 'b'):
            b = S.b
            okv = And(a.o == 0, b.o == 0)
            if out.ok:
                c.check('quotient of factors, difference of exponents',
                        is_unit(c, out.value, a.f / b.f, 0, lambda i: c.at(a.p, i) - c.at(b.p, i), S.n))
            self.intact(c, S, a, b)
        else:
            okv = a.o == 0
            if out.ok:
                c.check('scaled factor, same exponents',
                        is_unit(c, out.value, a.f / S.x, 0, lambda i: c.at(a.p, i), S.n))
            self.intact(c, S, a)
        c.check('dividing a unit with an offset raises TypeError', And(Iff(okv, out.ok), Or(out.ok, out.raised(TypeError))))


class RDiv(UnitBase):
    target = M + 'PhysicalUnit.__rdiv__'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n, c.choice('oa', [0.0, None]))
        x = c.real('x', nonzero=True)
        return NS(a=a, n=n, x=x, args=(a.u, x))

    def ensures(self, c, S, out):
        a = S.a
        if out.ok:
            c.check('inverse factor, negated exponents', is_unit(c, out.value, S.x / a.f, 0, lambda i: -c.at(a.p, i), S.n))
        c.check('dividing by a unit with an offset raises TypeError',
                And(Iff(a.o == 0, out.ok), Or(out.ok, out.raised(TypeError))))
        self.intact(c, S, a)


class PowInt(UnitBase):
    target = M + 'PhysicalUnit.__pow__'
    cases = tuple(range(-4, 5)) + ('any',)

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n, c.choice('oa', [0.0, None]))
        k = case if case != 'any' else c.int('k')
        return NS(a=a, n=n, k=k, args=(a.u, k))

    def ensures(self, c, S, out):
        a = S.a
        if out.ok:
            c.check('power of the factor, multiple of the exponents',
                    is_unit(c, out.value, a.f ** S.k, 0, lambda i: c.at(a.p, i) * S.k, S.n))
        c.check('powers of a unit with an offset raise TypeError',
                And(Iff(a.o == 0, out.ok), Or(out.ok, out.raised(TypeError))))
        self.intact(c, S, a)


class PowRoot(UnitBase):
    """inverse-integer exponents: the k-th root, when all exponents divide"""
    target = M + 'PhysicalUnit.__pow__'
    cases = (1, 2, 4, 5)

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n, c.choice('oa', [0.0, None]), powers=c.symlist('p', 12, 'int'))
        return NS(a=a, n=12, k=case, args=(a.u, 1.0 / case))

    def uses(self, c, S):
        d = names_model(c)
        return d

    def overrides(self, c, S):
        k = c.int('name_power')
        S.a.u.attrs['names'].attrs['values'] = c.model(lambda: c.list([k]), 'values')
        lib = Obj(U.ConfigParser, dict(base_names=c.list(['b%d' % i for i in range(12)])))
        return {'NumberDict': c.model(lambda *a: PDict(label='names'), 'NumberDict'), '_UNIT_LIB': lib}

    def ensures(self, c, S, out):
        a, k = S.a, S.k
        div = c.forall(0, S.n, lambda i: c.at(a.p, i) % k == 0)
        if out.ok:
            P = c.attr(out.value, 'powers')
            c.check('exponents are divided by the root',
                    And(c.len(P) == S.n, c.eq(c.attr(out.value, 'factor'), a.f ** (1.0 / k)), c.attr(out.value, 'offset') == 0,
                        [c.at(P, i) * k == c.at(a.p, i) for i in range(S.n)]))
        c.check('raises TypeError exactly for an offset or exponents that do not divide',
                And(Iff(And(a.o == 0, div), out.ok), Or(out.ok, out.raised(TypeError))))
        self.intact(c, S, a)


# ---------------------------------------------------------------- quantities

def quantity(c, name, u):
    v = c.real(name)
    return NS(q=c.obj(PhysicalQuantity, value=v, unit=u.u), v=v, u=u)


NAME_POOL = ('mm', 'Mm', 'MM', 'um', 'm', 'm*m', 'mmm', 'km', 'k', 'Km')


def unit_names(c):
    """the names of two different units: any two different strings"""
    sn, tn = c.str('source_name', NAME_POOL), c.str('target_name', NAME_POOL)
    c.assume(sn != tn)
    return sn, tn


class QBase(UnitBase):
    def uses(self, c, S):
        d = names_model(c)

        def find(x):
            if isinstance(x, Obj) and x.cls is PhysicalUnit:
                return x
            if x is S.sn:
                return S.a.u
            if x is S.tn:
                return S.b.u
            raise Unsupported('unit lookup')
        d['_find_unit'] = c.model(find, '_find_unit')
        return d

    def patches(self, c, S):
        real = U._find_unit

        def find(x):
            if isinstance(x, str) and x == S.sn:
                return S.a.u
            if isinstance(x, str) and x == S.tn:
                return S.b.u
            return real(x)
        return [(U, '_find_unit', find)]

    def conv(self, v, a, b):
        return (v + a.o) * a.f / b.f - b.o


class ConvertValue(QBase):
    target = M + 'PhysicalQuantity.convert_value'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n)
        b = unit(c, 'b', n, powers=c.choice('same', [a.p, None]))
        q = quantity(c, 'v', a)
        return NS(a=a, b=b, n=n, q=q, args=(q.q, b.u))

    def ensures(self, c, S, out):
        same = same_powers(c, S.a.p, S.b.p, S.n)
        c.check('raises TypeError exactly for incompatible units', And(Iff(same, out.ok), Or(out.ok, out.raised(TypeError))))
        if out.ok:
            c.check('value agrees with factors and offsets', c.eq(out.value, self.conv(S.q.v, S.a, S.b)))
        c.check('the quantity is unchanged', And(c.eq(c.attr(S.q.q, 'value'), S.q.v), c.attr(S.q.q, 'unit') is S.a.u))


class ConvertTo(ConvertValue):
    target = M + 'PhysicalQuantity.convert_to_unit'

    def ensures(self, c, S, out):
        same = same_powers(c, S.a.p, S.b.p, S.n)
        c.check('raises TypeError exactly for incompatible units', And(Iff(same, out.ok), Or(out.ok, out.raised(TypeError))))
        if out.ok:
            c.check('value and unit are replaced together', And(c.eq(c.attr(S.q.q, 'value'), self.conv(S.q.v, S.a, S.b)),
                                                                c.attr(S.q.q, 'unit') is S.b.u))
        else:
            c.check('the quantity is unchanged after an error', And(c.eq(c.attr(S.q.q, 'value'), S.q.v),
                                                                    c.attr(S.q.q, 'unit') is S.a.u))


class InUnits(ConvertValue):
    target = M + 'PhysicalQuantity.in_units_of'

    def ensures(self, c, S, out):
        same = same_powers(c, S.a.p, S.b.p, S.n)
        c.check('raises TypeError exactly for incompatible units', And(Iff(same, out.ok), Or(out.ok, out.raised(TypeError))))
        if out.ok:
            c.check('a new quantity with the converted value', And(c.eq(c.attr(out.value, 'value'), self.conv(S.q.v, S.a, S.b)),
                    c.attr(out.value, 'unit') is S.b.u))
        c.check('the quantity is unchanged', And(c.eq(c.attr(S.q.q, 'value'), S.q.v), c.attr(S.q.q, 'unit') is S.a.u))


class Sum(QBase):
    target = M + 'PhysicalQuantity._sum'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n, 0.0)
        b = unit(c, 'b', n, 0.0, powers=c.choice('same', [a.p, None]))
        p, q = quantity(c, 'v', a), quantity(c, 'w', b)
        s1, s2 = c.choice('signs', [(1, 1), (1, -1), (-1, 1)])
        return NS(a=a, b=b, n=n, p=p, q=q, s1=s1, s2=s2, args=(p.q, q.q, s1, s2))

    def ensures(self, c, S, out):
        same = same_powers(c, S.a.p, S.b.p, S.n)
        c.check('raises TypeError exactly for incompatible units', And(Iff(same, out.ok), Or(out.ok, out.raised(TypeError))))
        if out.ok:
            c.check('signed sum in the unit of the first', And(c.attr(out.value, 'unit') is S.a.u,
                    c.eq(c.attr(out.value, 'value') * S.a.f, S.s1 * S.p.v * S.a.f + S.s2 * S.q.v * S.b.f)))


class QMul(QBase):
    target = M + 'PhysicalQuantity.__mul__'
    op = 'mul'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n, 0.0)
        b = unit(c, 'b', n, 0.0)
        p, q = quantity(c, 'v', a), quantity(c, 'w', b)
        c.assume(q.v != 0)
        return NS(a=a, b=b, n=n, p=p, q=q, args=(p.q, q.q))

    def ensures(self, c, S, out):
        c.check('succeeds', out.ok)
        if not out.ok:
            return
        sg = 1 if self.op == 'mul' else -1
        zero = c.forall(0, S.n, lambda i: c.at(S.a.p, i) + sg * c.at(S.b.p, i) == 0)
        base = S.p.v * S.a.f * S.q.v * S.b.f if sg == 1 else (S.p.v * S.a.f) / (S.q.v * S.b.f)
        isq = isinstance(out.value, (Obj, PhysicalQuantity))
        c.check('a plain number exactly when dimensionless', Iff(zero, not isq))
        if isq:
            u = c.attr(out.value, 'unit')
            c.check('the same physical amount', c.eq(c.attr(out.value, 'value') * c.attr(u, 'factor'), base))
            P = c.attr(u, 'powers')
            c.check('exponents combine', c.forall(0, S.n, lambda i: c.at(P, i) == c.at(S.a.p, i) + sg * c.at(S.b.p, i)))
        else:
            c.check('the number is the physical ratio', c.eq(out.value, base))


class QDiv(QMul):
    target = M + 'PhysicalQuantity.__div__'
    op = 'div'


class ConvertUnits(QBase):
    target = M + 'convert_units'

    def build(self, c, case):
        n = c.int('n', 1)
        a = unit(c, 'a', n)
        b = unit(c, 'b', n, powers=c.choice('same', [a.p, None]))
        v = c.real('v')
        sn, tn = unit_names(c)
        return NS(a=a, b=b, n=n, v=v, sn=sn, tn=tn, args=(v, sn, tn))

    def ensures(self, c, S, out):
        same = same_powers(c, S.a.p, S.b.p, S.n)
        c.check('raises TypeError exactly for incompatible units', And(Iff(same, out.ok), Or(out.ok, out.raised(TypeError))))
        if out.ok:
            c.check('value agrees with factors and offsets', c.eq(out.value, self.conv(S.v, S.a, S.b)))
        self.intact(c, S, S.a, S.b)


class GetTuple(QBase):
    target = M + 'get_conversion_tuple'

    def build(self, c, case):
        S = ConvertUnits.build(self, c, case)
        S.args = (S.sn, S.tn)
        return S

    def ensures(self, c, S, out):
        same = same_powers(c, S.a.p, S.b.p, S.n)
        c.check('raises TypeError exactly for incompatible units', And(Iff(same, out.ok), Or(out.ok, out.raised(TypeError))))
        if out.ok:
            f, o = out.value
            c.check('(value + offset) * factor is the conversion', c.eq((S.v + o) * f, self.conv(S.v, S.a, S.b)))
        self.intact(c, S, S.a, S.b)
