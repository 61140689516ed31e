"""Symbolic values, arrays-as-views-into-buffers, and the path engine.

Execution is by re-execution: one Python-level run explores one path, branch
decisions are recorded, alternatives are queued.  Verification conditions are
recorded as (path condition, goal) pairs and discharged by z3.
"""
import sys
if not any('veriftools' in p for p in sys.path):
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import numbers
import types
import numpy as np
import time
from fractions import Fraction


class Unsupported(Exception):
    """the code left the subset this verifier understands"""


class PathEnd(Exception):
    """this path ends here (loop iteration closed, or infeasible)"""


class Restart(Exception):
    """a loop modifies a location that was not havocked; start again"""


class PyRaise(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, cls, value=None):
        Exception.__init__(self, getattr(cls, '__name__', str(cls)))
        self.cls = cls
        self.value = value


ENG = None          # current engine


def eng():
    return ENG


def set_eng(e):
    global ENG
    ENG = e


# ---------------------------------------------------------------- scalars

def num(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    f = float(x)
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant in arithmetic')
    return z3.RealVal(Fraction(repr(f)))


class SV(object):
    """symbolic value"""
    __slots__ = ()
    __hash__ = object.__hash__


def is_sym(x):
    return isinstance(x, SV)


def isreal(x):
    return isinstance(x, SReal) or (isinstance(x, float))


def _inf(x):
    return isinstance(x, float) and (x in (float('inf'), float('-inf')))


def _isnan_const(x):
    return isinstance(x, float) and x != x


def lift(x):
    """python scalar or SV -> SV"""
    if isinstance(x, SV):
        return x
    if isinstance(x, bool):
        return SBool(z3.BoolVal(x))
    if isinstance(x, numbers.Integral):
        return SInt(z3.IntVal(int(x)))
    if isinstance(x, Fraction):
        return SReal(z3.RealVal(x))
    if isinstance(x, numbers.Real):
        if x != x:
            return SReal(z3.RealVal(0), z3.BoolVal(True))
        return SReal(num(x))
    if isinstance(x, complex):
        return SComplex(lift(x.real), lift(x.imag))
    if isinstance(x, str):
        return SStr(z3.StringVal(x))
    if z3.is_expr(x):
        return wrap(x)
    raise Unsupported('cannot lift %r' % type(x))


def wrap(t):
    s = t.sort()
    k = s.kind()
    if k == z3.Z3_INT_SORT:
        return SInt(t)
    if k == z3.Z3_REAL_SORT:
        return SReal(t)
    if k == z3.Z3_BOOL_SORT:
        return SBool(t)
    if s == z3.StringSort():
        return SStr(t)
    return SOpaque(t)


def _or(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.Or(a, b)


def _arith(a, b):
    """coerce two SV to common numeric terms; returns (ta, tb, isint, nan)"""
    if isinstance(a, SBool):
        a = SInt(z3.If(a.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(b, SBool):
        b = SInt(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.t, b.t, True, None
    nan = _or(getattr(a, 'nan', None), getattr(b, 'nan', None))
    ta = z3.ToReal(a.t) if isinstance(a, SInt) else a.t
    tb = z3.ToReal(b.t) if isinstance(b, SInt) else b.t
    return ta, tb, False, nan


_NUM = (int, float, Fraction, numbers.Real)


def _other(o):
    """returns lifted operand or None when not a scalar number"""
    if isinstance(o, (SInt, SReal, SBool, SComplex)):
        return o
    if isinstance(o, numbers.Number):
        if _inf(o):
            return o
        return lift(o)
    return None


class SNum(SV):
    __slots__ = ()

    def _bin(self, o, f, rev=False):
        b = _other(o)
        if b is None:
            return NotImplemented
        if isinstance(b, SComplex):
            return NotImplemented if not rev else NotImplemented
        if _inf(b):
            raise Unsupported('arithmetic with inf')
        a = self
        if rev:
            a, b = b, a
        ta, tb, isint, nan = _arith(a, b)
        r = f(ta, tb)
        return SInt(r) if isint else SReal(r, nan)

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._bin(o, lambda x, y: x + y, True)

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y)

    def __rmul__(self, o):
        return self._bin(o, lambda x, y: x * y, True)

    def __neg__(self):
        a = self
        if isinstance(a, SBool):
            a = SInt(z3.If(a.t, z3.IntVal(1), z3.IntVal(0)))
        return SInt(-a.t) if isinstance(a, SInt) else SReal(-a.t, a.nan)

    def __pos__(self):
        return self

    def _div(self, a, b):
        if _inf(a) or _inf(b):
            raise Unsupported('division with inf')
        ta, tb, isint, nan = _arith(a, b)
        if isint:
            ta, tb = z3.ToReal(ta), z3.ToReal(tb)
        guard_div(tb, nan)
        return SReal(ta / tb, nan)

    def __truediv__(self, o):
        b = _other(o)
        if b is None or isinstance(b, SComplex):
            return NotImplemented
        return self._div(self, b)

    def __rtruediv__(self, o):
        b = _other(o)
        if b is None or isinstance(b, SComplex):
            return NotImplemented
        return self._div(b, self)

    def _fdiv(self, a, b, mod):
        ta, tb, isint, nan = _arith(a, b)
        guard_div(tb, nan)
        if isint:
            # python floor semantics; z3 div/mod is Euclidean
            if not eng().entails(tb > 0):
                raise Unsupported('floor division by possibly negative divisor')
            return SInt(ta % tb) if mod else SInt(ta / tb)
        q = z3.ToInt(ta / tb)
        if mod:
            return SReal(ta - tb * z3.ToReal(q), nan)
        return SReal(z3.ToReal(q), nan)

    def __floordiv__(self, o):
        b = _other(o)
        return NotImplemented if b is None else self._fdiv(self, b, False)

    def __rfloordiv__(self, o):
        b = _other(o)
        return NotImplemented if b is None else self._fdiv(b, self, False)

    def __mod__(self, o):
        b = _other(o)
        return NotImplemented if b is None else self._fdiv(self, b, True)

    def __rmod__(self, o):
        b = _other(o)
        return NotImplemented if b is None else self._fdiv(b, self, True)

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            if 0 <= o <= 8:
                r = lift(1) if isinstance(self, SInt) else lift(1.0)
                for _ in range(o):
                    r = r * self
                return r
            if -8 <= o < 0:
                return lift(1.0) / (self ** (-o))
        return pow_uf(self, o)

    def __rpow__(self, o):
        return pow_uf(o, self)

    def __abs__(self):
        a = self
        if isinstance(a, SInt):
            return SInt(z3.If(a.t >= 0, a.t, -a.t))
        return SReal(z3.If(a.t >= 0, a.t, -a.t), a.nan)

    def _cmp(self, o, f, isne=False, infres=None):
        b = _other(o)
        if b is None:
            return NotImplemented
        if isinstance(b, SComplex):
            return NotImplemented
        if _inf(b):
            r = z3.BoolVal(infres(b > 0))
            nan = getattr(self, 'nan', None)
            if nan is not None:
                r = z3.Or(nan, r) if isne else z3.And(z3.Not(nan), r)
            return SBool(r)
        ta, tb, _, nan = _arith(self, b)
        r = f(ta, tb)
        if nan is not None:
            r = z3.Or(nan, r) if isne else z3.And(z3.Not(nan), r)
        return SBool(r)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y, infres=lambda p: p)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y, infres=lambda p: p)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y, infres=lambda p: not p)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y, infres=lambda p: not p)

    def __eq__(self, o):
        r = self._cmp(o, lambda x, y: x == y, infres=lambda p: False)
        if r is NotImplemented:
            return NotImplemented if hasattr(o, '__array_sym__') else False
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda x, y: x != y, isne=True, infres=lambda p: True)
        if r is NotImplemented:
            return NotImplemented if hasattr(o, '__array_sym__') else True
        return r

    __hash__ = object.__hash__

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return lift(0.0)


class SInt(SNum):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __index__(self):
        v = z3.simplify(self.t)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported('symbolic integer where a concrete one is needed')

    def __and__(self, o):
        raise Unsupported('bit op')


class SReal(SNum):
    __slots__ = ('t', 'nan')

    def __init__(self, t, nan=None):
        self.t = t
        self.nan = nan

    def __repr__(self):
        return 'SReal(%s)' % self.t

    def __bool__(self):
        c = self.t != 0
        if self.nan is not None:
            c = z3.Or(self.nan, c)
        return eng().branch(c)


class SBool(SNum):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t

    def __bool__(self):
        return eng().branch(self.t)

    def __and__(self, o):
        return SBool(z3.And(self.t, lift(o).t))

    def __or__(self, o):
        return SBool(z3.Or(self.t, lift(o).t))

    __rand__ = __and__
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.t == o.t)
        if isinstance(o, bool):
            return SBool(self.t if o else z3.Not(self.t))
        return SNum.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else (not r)

    __hash__ = object.__hash__


class SComplex(SV):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return 'SComplex(%s, %s)' % (self.re, self.im)

    @staticmethod
    def of(o):
        if isinstance(o, SComplex):
            return o
        if isinstance(o, complex):
            return SComplex(lift(o.real), lift(o.imag))
        b = _other(o)
        if b is None:
            return None
        return SComplex(_toreal(b), lift(0.0))

    def __add__(self, o):
        o = SComplex.of(o)
        return NotImplemented if o is None else SComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = SComplex.of(o)
        return NotImplemented if o is None else SComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = SComplex.of(o)
        return NotImplemented if o is None else SComplex(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = SComplex.of(o)
        if o is None:
            return NotImplemented
        return SComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = _other(o)
        if b is None or isinstance(b, SComplex):
            raise Unsupported('complex division')
        return SComplex(self.re / b, self.im / b)

    def __neg__(self):
        return SComplex(-self.re, -self.im)

    def __eq__(self, o):
        o = SComplex.of(o)
        if o is None:
            return False
        return And(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return Not(self.__eq__(o))
    __hash__ = object.__hash__

    def __bool__(self):
        return bool(Not(And(self.re == 0, self.im == 0)))

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im


def _toreal(x):
    if isinstance(x, SInt):
        return SReal(z3.ToReal(x.t))
    if isinstance(x, SBool):
        return SReal(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    return x


class SStr(SV):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SStr(%s)' % self.t

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return SBool(self.t == lift(o).t)
        return False

    def __ne__(self, o):
        if isinstance(o, (str, SStr)):
            return SBool(self.t != lift(o).t)
        return True
    __hash__ = object.__hash__

    def __bool__(self):
        return eng().branch(z3.Length(self.t) > 0)

    def __add__(self, o):
        return SStr(z3.Concat(self.t, lift(o).t))

    def __radd__(self, o):
        return SStr(z3.Concat(lift(o).t, self.t))

    def length(self):
        return SInt(z3.Length(self.t))

    def startswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.startswith(q) for q in p])
        return SBool(z3.PrefixOf(lift(p).t, self.t))

    def endswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.endswith(q) for q in p])
        return SBool(z3.SuffixOf(lift(p).t, self.t))

    def contains(self, p):
        return SBool(z3.Contains(self.t, lift(p).t))

    def find(self, p, start=0):
        return SInt(z3.IndexOf(self.t, lift(p).t, lift(start).t))

    def at(self, i):
        return SStr(z3.SubString(self.t, lift(i).t, 1))

    def sub(self, lo, hi):
        n = z3.Length(self.t)
        e = eng()

        def norm(v, dflt):
            if v is None:
                return dflt
            v = lift(v).t
            if e.entails(v >= 0):
                pass
            else:
                v = z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n), v)
            if e.entails(v <= n):
                return v
            return z3.If(v > n, n, v)
        a = norm(lo, z3.IntVal(0))
        b = norm(hi, n)
        ln = z3.If(b > a, b - a, z3.IntVal(0))
        return SStr(z3.SubString(self.t, a, ln))


class SPath(SStr):
    """a dotted path of parts that contain no dot"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts
        t = None
        for p in parts:
            t = lift(p) if t is None else t + '.' + p
        SStr.__init__(self, t.t)
    __hash__ = object.__hash__


class SOpaque(SV):
    """a value of an uninterpreted sort: only equality"""
    __slots__ = ('t', 'info')

    def __init__(self, t, info=None):
        self.t = t
        self.info = info

    def __repr__(self):
        return 'SOpaque(%s)' % self.t

    def __eq__(self, o):
        if isinstance(o, SOpaque) and o.t.sort() == self.t.sort():
            return SBool(self.t == o.t)
        return False

    def __ne__(self, o):
        return Not(self.__eq__(o))
    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported('truth value of an opaque object')


VSORT = z3.DeclareSort('Val')


class OpaqueStr(object):
    """a message text nobody looks at"""
    def __mod__(self, o):
        return self

    def __rmod__(self, o):
        return self

    def __add__(self, o):
        return self
    __radd__ = __add__

    def format(self, *a, **k):
        return self


# ---------------------------------------------------- logic for both modes

def _sb(x):
    return x.t if isinstance(x, SBool) else (z3.BoolVal(bool(x)))


def _anysym(xs):
    return any(isinstance(x, SBool) for x in xs)


def _flatargs(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(_flatargs(x))
        else:
            out.append(x)
    return out


def And(*xs):
    xs = _flatargs(xs)
    if _anysym(xs):
        ts = []
        for x in xs:
            if isinstance(x, SBool):
                ts.append(x.t)
            elif not x:
                return False
        return SBool(z3.And(*ts)) if len(ts) != 1 else SBool(ts[0])
    return all(bool(x) for x in xs)


def Or(*xs):
    xs = _flatargs(xs)
    if any(isinstance(x, types.FunctionType) for x in xs):
        done = []
        for x in xs:                    # a lazy alternative is evaluated only if those before it do not settle it
            if any(isinstance(y, (bool, np.bool_)) and y for y in done):
                return True
            done.append(x() if isinstance(x, types.FunctionType) else x)
        xs = done
    if _anysym(xs):
        ts = []
        for x in xs:
            if isinstance(x, SBool):
                ts.append(x.t)
            elif x:
                return True
        return SBool(z3.Or(*ts)) if len(ts) != 1 else SBool(ts[0])
    return any(bool(x) for x in xs)


def Not(x):
    if isinstance(x, SBool):
        return SBool(z3.Not(x.t))
    return not x


def Implies(a, b):
    """b may be a thunk, evaluated only when needed in concrete mode"""
    if isinstance(a, SBool):
        if callable(b):
            b = b()
        return SBool(z3.Implies(a.t, _sb(b)))
    if not a:
        return True
    if callable(b):
        b = b()
    return b


def Iff(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SBool(_sb(a) == _sb(b))
    return bool(a) == bool(b)


def Ite(c, a, b):
    """a, b may be thunks"""
    if isinstance(c, SBool):
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        if isinstance(a, SComplex) or isinstance(b, SComplex):
            a, b = SComplex.of(a), SComplex.of(b)
            return SComplex(Ite(c, a.re, b.re), Ite(c, a.im, b.im))
        la, lb = lift(a), lift(b)
        if isinstance(la, SBool) and isinstance(lb, SBool):
            return SBool(z3.If(c.t, la.t, lb.t))
        if isinstance(la, (SStr, SOpaque)):
            return type(la)(z3.If(c.t, la.t, lb.t))
        if isinstance(la, SBool):
            la = SInt(z3.If(la.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(lb, SBool):
            lb = SInt(z3.If(lb.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(la, SInt) and isinstance(lb, SInt):
            return SInt(z3.If(c.t, la.t, lb.t))
        la, lb = _toreal(la), _toreal(lb)
        na, nb = la.nan, lb.nan
        nan = None
        if na is not None or nb is not None:
            nan = z3.If(c.t, na if na is not None else z3.BoolVal(False),
                        nb if nb is not None else z3.BoolVal(False))
        return SReal(z3.If(c.t, la.t, lb.t), nan)
    r = a if c else b
    return r() if callable(r) else r


def isnan(x):
    if isinstance(x, SReal):
        return SBool(x.nan) if x.nan is not None else False
    if isinstance(x, SV):
        return False
    return x != x


# -------------------------------------------------- div / uninterpreted

def guard_div(tb, nan=None):
    e = eng()
    if e.in_spec:
        return
    if e.quiet_div:
        return
    z = z3.simplify(tb == 0)
    if z3.is_false(z):
        return
    if e.branch(tb == 0):
        raise PyRaise(ZeroDivisionError)


def uf(name, *sorts):
    return z3.Function(name, *sorts)


R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def math_uf(name, x):
    """an elementary function, uninterpreted with a few exact axioms"""
    x = _toreal(lift(x))
    f = z3.Function('math.' + name, R, R)
    r = f(x.t)
    e = eng()
    if name in ('sqrt',):
        e.assume_fact(z3.Implies(x.t >= 0, z3.And(r >= 0, r * r == x.t)))
    elif name == 'exp':
        e.assume_fact(r > 0)
    return SReal(r, x.nan)


def pow_uf(a, b):
    a, b = _toreal(lift(a)), _toreal(lift(b))
    f = z3.Function('math.pow', R, R, R)
    r = f(a.t, b.t)
    if z3.is_rational_value(b.t) and b.t.as_fraction() == 0.5:
        eng().assume_fact(z3.Implies(a.t >= 0, z3.And(r >= 0, r * r == a.t)))
    return SReal(r, _or(a.nan, b.nan))


# ---------------------------------------------------------------- arrays

def T(i):
    """index -> z3 int term"""
    if isinstance(i, SInt):
        return i.t
    if isinstance(i, SBool):
        return z3.If(i.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(i, numbers.Integral):
        return z3.IntVal(int(i))
    if z3.is_expr(i):
        return i
    raise Unsupported('index %r' % (i,))


def simp_int(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


class Buf(object):
    """storage: a total function from index tuples to scalar values"""
    __array_sym__ = True

    def __init__(self, ndim, content, label='buf', kind='real'):
        self.ndim = ndim
        self.content = content
        self.label = label
        self.kind = kind
        self.oid = eng().new_oid(self)

    def havoc(self, tag):
        e = eng()
        self.content = fresh_content(self.label + '!' + tag, self.ndim, self.kind)

    def write(self, newcontent):
        eng().note_write(self, 'content')
        self.content = newcontent


_SORT = {'real': R, 'int': I, 'bool': B}


def fresh_content(name, ndim, kind):
    e = eng()
    if kind == 'complex':
        f = z3.Function(e.fresh_name(name + '.re'), *([I] * ndim + [R]))
        g = z3.Function(e.fresh_name(name + '.im'), *([I] * ndim + [R]))
        return lambda *ix: SComplex(SReal(f(*ix)), SReal(g(*ix)))
    if kind == 'obj':
        f = z3.Function(e.fresh_name(name), *([I] * ndim + [VSORT]))
        return lambda *ix: SOpaque(f(*ix))
    if kind == 'str':
        f = z3.Function(e.fresh_name(name), *([I] * ndim + [z3.StringSort()]))
        return lambda *ix: SStr(f(*ix))
    f = z3.Function(e.fresh_name(name), *([I] * ndim + [_SORT[kind]]))
    if kind == 'int':
        return lambda *ix: SInt(f(*ix))
    if kind == 'bool':
        return lambda *ix: SBool(f(*ix))
    return lambda *ix: SReal(f(*ix))


class Masked(object):
    """the elements of an array that a boolean array of the same length selects; good only for assigning them,
    or what plain numbers make of them, to the elements selected by that same array"""
    def __init__(self, key, stamp, read):
        self.key, self.stamp, self.read = key, stamp, read

    def _with(self, f):
        rd = self.read
        return Masked(self.key, self.stamp, lambda i: f(rd(i)))

    def _num(self, o):
        if isinstance(o, (Arr, Masked)):
            raise Unsupported('arithmetic of a masked read with an array')
        return lift(o)

    def __add__(self, o):
        o = self._num(o)
        return self._with(lambda v: v + o)

    def __radd__(self, o):
        o = self._num(o)
        return self._with(lambda v: o + v)

    def __sub__(self, o):
        o = self._num(o)
        return self._with(lambda v: v - o)

    def __mul__(self, o):
        o = self._num(o)
        return self._with(lambda v: v * o)


class Arr(object):
    """a numpy array: a view (dims) on a Buf.

    dims: per buffer dimension ('fix', t) | ('rng', off, vdim)
    shape: per view dimension an int or SInt
    """
    __array_sym__ = True
    __hash__ = object.__hash__

    def __init__(self, buf, dims, shape, perm=None):
        self.buf = buf
        self.dims = dims
        self.shape_ = tuple(shape)
        self.tok = None          # opaque n-d shape token (flat storage)

    # -- construction
    @staticmethod
    def new(shape, content, label='arr', kind='real'):
        b = Buf(len(shape), content, label, kind)
        return Arr(b, [('rng', z3.IntVal(0), d) for d in range(len(shape))], shape)

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def kind(self):
        return self.buf.kind

    def bufidx(self, ix):
        out = []
        for d in self.dims:
            if d[0] == 'fix':
                out.append(d[1])
            else:
                o = d[1]
                t = ix[d[2]]
                out.append(t if z3.is_int_value(o) and o.as_long() == 0 else o + t)
        return out

    def at(self, *ix):
        """unchecked element read (spec level)"""
        return self.buf.content(*self.bufidx([T(i) for i in ix]))

    def content(self):
        """a frozen reader of the current contents"""
        c = self.buf.content
        dims = self.dims
        me = self

        def rd(*ix):
            return c(*me.bufidx([T(i) for i in ix]))
        return rd

    def snapshot(self):
        rd = self.content()
        a = Arr.new(self.shape_, lambda *ix: rd(*ix), self.buf.label + '@old', self.kind)
        a.tok = self.tok
        return a

    copy = snapshot

    # -- numpy-like attributes
    def size(self):
        n = self.shape_[0] if self.shape_ else 1
        for s in self.shape_[1:]:
            n = n * s
        return n

    def __len__(self):
        n = self.shape_[0]
        if isinstance(n, int):
            return n
        return n.__index__()

    def length(self):
        if not self.shape_:
            raise PyRaise(TypeError)
        return self.shape_[0]

    # -- indexing
    def _normidx(self, i, n):
        """bounds-checked index term (negative python indices handled)"""
        e = eng()
        t = T(i)
        nt = T(n)
        ok = z3.And(t >= 0, t < nt)
        if e.in_spec or e.entails(ok):
            return t
        if e.branch(ok):
            return t
        if e.branch(z3.And(t < 0, t >= -nt)):
            return t + nt
        raise PyRaise(IndexError)

    def _sliceb(self, sl, n):
        e = eng()
        if sl.step is not None and not (isinstance(sl.step, int) and sl.step == 1):
            raise Unsupported('slice step')
        nt = T(n)

        def norm(v, d):
            if v is None:
                return d
            v = T(v)
            if e.entails(z3.And(v >= 0, v <= nt)):
                return v
            v = z3.If(v < 0, z3.If(v + nt < 0, z3.IntVal(0), v + nt), v)
            return z3.If(v > nt, nt, v)
        a = norm(sl.start, z3.IntVal(0))
        b = norm(sl.stop, nt)
        if e.entails(a <= b):
            ln = b - a
        else:
            ln = z3.If(b > a, b - a, z3.IntVal(0))
        return a, simp_int(ln)

    def view(self, key):
        """basic indexing -> view Arr (ndim 0 means a scalar location)"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (self.ndim - len(key) + 1) + key[p + 1:]
        if len(key) > self.ndim:
            raise PyRaise(IndexError)
        key = key + (slice(None),) * (self.ndim - len(key))
        newshape = []
        amap = {}
        for d, k in enumerate(key):
            n = self.shape_[d]
            if isinstance(k, slice):
                a, ln = self._sliceb(k, n)
                amap[d] = ('rng', a, len(newshape))
                newshape.append(ln)
            else:
                amap[d] = ('fix', self._normidx(k, n))
        dims = []
        for dd in self.dims:
            if dd[0] == 'fix':
                dims.append(dd)
            else:
                m = amap[dd[2]]
                off = dd[1]
                z = z3.is_int_value(off) and off.as_long() == 0
                if m[0] == 'fix':
                    dims.append(('fix', m[1] if z else z3.simplify(off + m[1])))
                else:
                    dims.append(('rng', m[1] if z else z3.simplify(off + m[1]), m[2]))
        return Arr(self.buf, dims, newshape)

    @property
    def T_(self):
        if self.ndim != 2:
            return self
        dims = [d if d[0] == 'fix' else ('rng', d[1], 1 - d[2]) for d in self.dims]
        return Arr(self.buf, dims, (self.shape_[1], self.shape_[0]))

    def _isfancy(self, key):
        if isinstance(key, tuple):
            return any(isinstance(k, (Arr, list, SymList)) for k in key)
        return isinstance(key, (Arr, list, SymList))

    def _listed(self, key):
        """(a, [i, j, ..], b): the element keys it stands for, or None"""
        if len(key) != self.ndim:
            return None
        ls = [d for d, k in enumerate(key) if isinstance(k, (SymList, list))]
        rest = [k for d, k in enumerate(key) if d not in ls]
        if len(ls) != 1 or not all(isinstance(k, (int, SInt)) for k in rest):
            return None
        l = key[ls[0]]
        items = l if isinstance(l, list) else l.items
        if items is None or not all(isinstance(k, (int, SInt)) and not isinstance(k, bool) for k in items):
            return None
        return [tuple(x if d == ls[0] else k for d, k in enumerate(key)) for x in items]

    def _stepped(self, key):
        """a slice with a step other than 1, as the index array it stands for"""
        if not isinstance(key, slice) or key.step is None or (isinstance(key.step, int) and key.step == 1):
            return None
        e = eng()
        if e.must(lift(key.step).t == 1):
            return slice(key.start, key.stop)
        if self.ndim != 1 or not e.must(lift(key.step).t > 0) or key.start is None:
            raise Unsupported('slice step')
        a, st, n = T(key.start), T(key.step), T(self.shape_[0])
        if not e.entails(z3.And(a >= 0, a <= n)):
            raise Unsupported('slice step with unknown start')
        b = T(key.stop) if key.stop is not None else n
        hints = [T(h) for h in e.count_hints]
        cands = hints + [x + y for j, x in enumerate(hints) for y in hints[j + 1:]]
        for h in cands:
            if e.entails(z3.And(h >= 1, b == a + h * st, a + (h - 1) * st < n)):
                cnt = simp_int(h)
                break
        else:
            m = z3.If(b < n, b, n)
            cnt = e.fresh_int('slicecount')
            e.assume_fact(z3.If(m > a, z3.And(cnt.t >= 1, a + (cnt.t - 1) * st < m, m <= a + cnt.t * st), cnt.t == 0))
        k = Arr.new((cnt,), lambda i: SInt(a + i * st), 'stepped', 'int')
        ks = z3.Int(e.fresh_name('st'))
        e.assume_fact(z3.ForAll([ks], z3.Implies(z3.And(0 <= ks, ks < T(cnt)), z3.And(a + ks * st >= 0, a + ks * st < n))))
        return k

    def getitem(self, key):
        k2 = self._stepped(key)
        if k2 is not None:
            key = k2
        if self._isfancy(key):
            return self._fancy_get(key)
        v = self.view(key)
        if v.ndim == 0:
            r = v.at()
            return r.resolve() if isinstance(r, IeeeQuot) else r
        return v

    def _fancy_get(self, key):
        if isinstance(key, tuple):
            ks = self._listed(key)
            if not ks:
                raise Unsupported('mixed fancy indexing')
            got = [self.view(k).at() for k in ks]
            return Arr.new((len(got),), lambda i: _select(got, i), 'fancy', self.kind)
        if isinstance(key, Arr) and key.kind == 'bool':
            if self.ndim != 1 or key.ndim != 1:
                raise Unsupported('boolean mask read')
            return Masked(key, key.buf.content, self.content())
        key = as_arr(key)
        if self.ndim != 1 or key.ndim != 1:
            raise Unsupported('fancy indexing of n-d')
        e = eng()
        n = T(self.shape_[0])
        rd, kd = self.content(), key.content()
        check_index_array(key, n)
        return Arr.new(key.shape_, lambda i: rd(negwrap(kd(i).t, n)), 'fancy', self.kind)

    def setitem(self, key, val):
        k2 = self._stepped(key)
        if k2 is not None:
            key = k2
        if self._isfancy(key):
            return self._fancy_set(key, val)
        v = self.view(key)
        v.assign(val)

    def _fancy_set(self, key, val):
        if isinstance(key, tuple):
            ks = self._listed(key)
            if not ks:
                raise Unsupported('mixed fancy assignment')
            vs = [self.view(k) for k in ks]
            if isinstance(val, (Arr, SymList)):
                val = broadcast_to(as_arr(val), (len(ks),))
                got = [val.at(q) for q in range(len(ks))]
            else:
                got = [val] * len(ks)
            for v, x in zip(vs, got):
                v.assign(x)
            return
        e = eng()
        key = as_arr(key)
        if key.kind == 'bool':
            kd, rd = key.content(), self.content()
            if self.ndim != 1:
                raise Unsupported('boolean mask')
            if isinstance(val, Arr):
                raise Unsupported('boolean mask with array value')
            if isinstance(val, Masked):
                if val.key is not key or val.stamp is not key.buf.content:
                    raise Unsupported('boolean mask with the elements of another')
                rv = val.read
                self.assign(Arr.new(self.shape_, lambda i: Ite(SBool(kd(i).t), rv(i), rd(i)), 'mask', self.kind))
                return
            c = lift(val)
            self.assign(Arr.new(self.shape_, lambda i: Ite(SBool(kd(i).t), c, rd(i)), 'mask', self.kind))
            return
        if self.ndim != 1 or key.ndim != 1:
            raise Unsupported('fancy assignment n-d')
        n = T(self.shape_[0])
        m = T(key.shape_[0])
        check_index_array(key, n)
        kd0 = key.content()

        def kd(i):
            return negwrap(kd0(i).t, n)
        if isinstance(val, Arr):
            val = broadcast_to(val, key.shape_)
            vd = val.content()
        else:
            sv = lift(val)
            vd = lambda i: sv
        w = z3.Function(e.fresh_name('lastwr'), I, I)
        i, k = z3.Int(e.fresh_name('fi')), z3.Int(e.fresh_name('fk'))
        # w(j) is the last position k with key[k] == j when there is one
        e.assume_fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m),
                      z3.And(w(kd(k)) >= k, w(kd(k)) < m, kd(w(kd(k))) == kd(k))),
                      patterns=_pat(kd(k), k)))
        old = self.content()
        kdc = kd

        def new(j):
            hit = z3.And(w(j) >= 0, w(j) < m, kdc(w(j)) == j)
            return Ite(SBool(hit), vd(w(j)), old(j))
        self.assign(Arr.new(self.shape_, new, 'fancyset', self.kind))

    def assign(self, val):
        """element-wise store through the view"""
        e = eng()
        if isinstance(val, (list, tuple)):
            val = as_arr(val)
        if isinstance(val, SymList):
            val = as_arr(val)
        if isinstance(val, Arr):
            if self.ndim == 0:
                if val.ndim == 0:
                    val = val.at()
                else:
                    # numpy: setting an element with a size-1 sequence
                    n = val.size()
                    if not e.must(lift(n).t == 1):
                        raise PyRaise(ValueError)
                    val = val.at(*([0] * val.ndim))
        if isinstance(val, Arr):
            val = broadcast_to(val, self.shape_)
            rd = val.content()
        else:
            if not isinstance(val, (SV, numbers.Number)):
                raise Unsupported('storing %r in an array' % type(val))
            sv = lift(val) if not _inf(val) else None
            if sv is None:
                raise Unsupported('storing inf')
            rd = lambda *ix: sv
        kind = self.kind
        if kind == 'real':
            rd0 = rd

            def rd(*ix):
                v = rd0(*ix)
                if isinstance(v, SComplex):
                    return v.re       # numpy discards the imaginary part (warning)
                return _toreal(v)
        elif kind == 'complex':
            rd1 = rd

            def rd(*ix):
                return SComplex.of(rd1(*ix))
        old = self.buf.content
        dims, shape = self.dims, [T(s) for s in self.shape_]
        nd = len(dims)
        full = all(d[0] == 'rng' and z3.is_int_value(d[1]) and d[1].as_long() == 0 and d[2] == j
                   for j, d in enumerate(dims)) and getattr(self.buf, 'shape', None) is not None \
            and all(same_term(a, b) for a, b in zip(self.buf.shape, self.shape_))

        def new(*bx):
            conds = []
            vix = [None] * len(shape)
            for d, b in zip(dims, bx):
                if d[0] == 'fix':
                    conds.append(b == d[1])
                else:
                    off = d[1]
                    z = z3.is_int_value(off) and off.as_long() == 0
                    v = b if z else b - off
                    vix[d[2]] = v
                    conds.append(v >= 0)
                    conds.append(v < shape[d[2]])
            c = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            if z3.is_true(c):
                return rd(*vix)
            if z3.is_false(c):
                return old(*bx)
            return Ite(SBool(c), rd(*vix), old(*bx))
        self.buf.write(new)

    # -- elementwise
    def _ew(self, o, f, kind=None, rev=False):
        if isinstance(o, (list, tuple)):
            o = as_arr(o)
        if isinstance(o, Arr):
            a, b = broadcast2(self, o)
            ra, rb = a.content(), b.content()
            k = kind or join_kind(a.kind, b.kind)
            g = (lambda *ix: f(rb(*ix), ra(*ix))) if rev else (lambda *ix: f(ra(*ix), rb(*ix)))
            r = Arr.new(a.shape_, g, 'ew', k)
            r.tok = a.tok if a.tok is not None else b.tok
            return r
        if isinstance(o, (SNum, SComplex)) or isinstance(o, numbers.Number):
            ra = self.content()
            if _inf(o):
                raise Unsupported('inf')
            sv = lift(o)
            k = kind or join_kind(self.kind, kind_of(sv))
            g = (lambda *ix: f(sv, ra(*ix))) if rev else (lambda *ix: f(ra(*ix), sv))
            r = Arr.new(self.shape_, g, 'ew', k)
            r.tok = self.tok
            return r
        return NotImplemented

    def __add__(self, o):
        return self._ew(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._ew(o, lambda x, y: x + y, rev=True)

    def __sub__(self, o):
        return self._ew(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._ew(o, lambda x, y: x - y, rev=True)

    def __mul__(self, o):
        return self._ew(o, lambda x, y: x * y)

    def __rmul__(self, o):
        return self._ew(o, lambda x, y: x * y, rev=True)

    def __neg__(self):
        rd = self.content()
        r = Arr.new(self.shape_, lambda *ix: -rd(*ix), 'neg', self.kind)
        r.tok = self.tok
        return r

    def __abs__(self):
        rd = self.content()
        r = Arr.new(self.shape_, lambda *ix: abs(rd(*ix)), 'abs', self.kind)
        r.tok = self.tok
        return r

    def __pow__(self, o):
        return self._ew(o, lambda x, y: _pw(x, y, o)) if not isinstance(o, int) else self._map(lambda x: x ** o)

    def _map(self, f, kind=None):
        rd = self.content()
        r = Arr.new(self.shape_, lambda *ix: f(rd(*ix)), 'map', kind or self.kind)
        r.tok = self.tok
        return r

    def _divop(self, o, rev):
        e = eng()
        den = self if rev else o
        if isinstance(den, (list, tuple)):
            den = as_arr(den)
        if e.ieee and not e.in_spec and isinstance(den, Arr) and den.kind == 'real':
            return self._ew(o, IeeeQuot, kind='real', rev=rev)
        nonzero_or_fork(den)

        def f(x, y):
            q, e.quiet_div = e.quiet_div, True
            try:
                return x / y
            finally:
                e.quiet_div = q
        return self._ew(o, f, kind=None if self.kind == 'complex' else 'real', rev=rev)

    def __truediv__(self, o):
        return self._divop(o, False)

    def __rtruediv__(self, o):
        return self._divop(o, True)

    def _cmp(self, o, f):
        return self._ew(o, f, kind='bool')

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    def __eq__(self, o):
        r = self._cmp(o, lambda x, y: x == y)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda x, y: x != y)
        return True if r is NotImplemented else r

    def inplace(self, op, o):
        r = getattr(self, op)(o)
        if r is NotImplemented:
            raise Unsupported('in-place %s with %r' % (op, type(o)))
        # numpy: the result must broadcast to self's shape
        self.assign(r)
        return self

    def __bool__(self):
        n = self.size()
        if isinstance(n, int) and n == 1:
            return bool(self.at(*([0] * self.ndim)))
        if isinstance(n, int) and n > 1:
            raise PyRaise(ValueError)
        raise Unsupported('truth value of an array')

    # reductions
    def all_(self):
        return quant(self, True)

    def any_(self):
        return quant(self, False)


def _pw(x, y, o):
    return x ** y


def kind_of(sv):
    if isinstance(sv, SComplex):
        return 'complex'
    if isinstance(sv, SInt):
        return 'int'
    if isinstance(sv, SBool):
        return 'bool'
    if isinstance(sv, SOpaque):
        return 'obj'
    if isinstance(sv, SStr):
        return 'str'
    return 'real'


def join_kind(a, b):
    for k in ('obj', 'complex', 'real', 'int', 'bool'):
        if a == k or b == k:
            return k
    return a


def _pat(t, k):
    """a pattern for quantifiers over index terms, when the term allows one"""
    if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return [t]
    return []


def negwrap(t, n):
    e = eng()
    if getattr(e, 'nonneg_idx', True):
        return t
    return z3.If(t < 0, t + n, t)


def check_index_array(key, n):
    """0 <= key[k] < n for all k; fork to IndexError otherwise"""
    e = eng()
    if e.in_spec:
        return
    k = z3.Int(e.fresh_name('ck'))
    m = T(key.shape_[0])
    if isinstance(key.shape_[0], int) and key.shape_[0] <= 8:
        ok = z3.And([z3.And(key.at(j).t >= 0, key.at(j).t < n) for j in range(key.shape_[0])] + [z3.BoolVal(True)])
    else:
        ok = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(key.at(SInt(k)).t >= 0, key.at(SInt(k)).t < n)))
    if e.must(ok):
        return
    raise PyRaise(IndexError)


class IeeeQuot(object):
    """an element of a quotient of arrays computed with numpy's division warnings off: only reading it as a scalar is supported"""

    def __init__(self, num, den):
        self.num, self.den = lift(num), lift(den)

    def resolve(self):
        e = eng()
        if e.branch(self.den.t != 0):
            return SReal(_toreal(self.num).t / _toreal(self.den).t)
        if e.branch(self.num.t > 0):
            return float('inf')
        if e.branch(self.num.t < 0):
            return float('-inf')
        return float('nan')

    def _no(self, *a, **k):
        raise Unsupported('arithmetic on a quotient that may be infinite')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __pow__ = __bool__ = __float__ = _no
    __hash__ = object.__hash__

    @property
    def t(self):
        self._no()


def nonzero_or_fork(den):
    e = eng()
    if e.in_spec or e.quiet_div:
        return
    if isinstance(den, Arr):
        ks = [z3.Int(e.fresh_name('dz')) for _ in den.shape_]
        el = _toreal(den.at(*[SInt(k) for k in ks])) if den.kind != 'complex' else None
        if el is None:
            raise Unsupported('complex divisor')
        rng = z3.And([z3.And(0 <= k, k < T(s)) for k, s in zip(ks, den.shape_)])
        ok = z3.ForAll(ks, z3.Implies(rng, el.t != 0)) if ks else el.t != 0
        if not e.must(ok):
            raise PyRaise(ZeroDivisionError)
    else:
        d = lift(den)
        if not z3.is_false(z3.simplify(d.t == 0)) and e.branch(d.t == 0):
            raise PyRaise(ZeroDivisionError)


def same_term(a, b):
    return z3.is_true(z3.simplify(T(a) == T(b)))


def dims_equal(a, b):
    """fork on dimension equality"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if same_term(a, b):
        return True
    return eng().must(T(a) == T(b))


def broadcast_to(a, shape):
    """view/copy of a broadcast to shape; raises ValueError when impossible"""
    e = eng()
    sh = a.shape_
    if len(sh) > len(shape):
        # leading unit dimensions may be dropped on assignment
        extra = len(sh) - len(shape)
        for s in sh[:extra]:
            if not dims_equal(s, 1):
                raise PyRaise(ValueError)
        rd = a.content()
        return broadcast_to(Arr.new(sh[extra:], lambda *ix: rd(*([z3.IntVal(0)] * extra + list(ix))), 'bc', a.kind), shape)
    off = len(shape) - len(sh)
    modes = []
    same = off == 0
    for s, t in zip(sh, shape[off:]):
        if isinstance(s, int) and s == 1 and not (isinstance(t, int) and t == 1):
            modes.append(True)
            same = False
        elif dims_equal(s, t):
            modes.append(False)
        elif dims_equal(s, 1):
            modes.append(True)
            same = False
        else:
            raise PyRaise(ValueError)
    if same:
        return a
    rd = a.content()
    return Arr.new(shape, lambda *ix: rd(*[z3.IntVal(0) if m else i for m, i in zip(modes, ix[off:])]), 'bc', a.kind)


def broadcast2(a, b):
    if len(a.shape_) == len(b.shape_) and all(same_term(x, y) for x, y in zip(a.shape_, b.shape_)):
        return a, b
    nd = max(a.ndim, b.ndim)
    sa = (1,) * (nd - a.ndim) + a.shape_
    sb = (1,) * (nd - b.ndim) + b.shape_
    out = []
    for x, y in zip(sa, sb):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif dims_equal(x, y):
            out.append(x)
        elif dims_equal(x, 1):
            out.append(y)
        elif dims_equal(y, 1):
            out.append(x)
        else:
            raise PyRaise(ValueError)
    return broadcast_to(a, tuple(out)), broadcast_to(b, tuple(out))


def quant(a, univ):
    e = eng()
    if all(isinstance(s, int) for s in a.shape_):
        import itertools
        els = [truth_term(a.at(*ix)) for ix in itertools.product(*[range(s) for s in a.shape_])]
        if univ:
            return SBool(z3.And(els + [z3.BoolVal(True)]))
        return SBool(z3.Or(els + [z3.BoolVal(False)]))
    ks = [z3.Int(e.fresh_name('q')) for _ in a.shape_]
    rng = z3.And([z3.And(0 <= k, k < T(s)) for k, s in zip(ks, a.shape_)])
    el = truth_term(a.at(*[SInt(k) for k in ks]))
    if univ:
        return SBool(z3.ForAll(ks, z3.Implies(rng, el)))
    return SBool(z3.Exists(ks, z3.And(rng, el)))


def truth_term(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, (SInt, SReal)):
        return v.t != 0
    raise Unsupported('truth of element')


def as_arr(x, kind=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, SymList):
        if x.items is not None and x.items:
            return as_arr(tuple(x.items), kind)
        c = x.snapshot_get()
        n = x.n
        k0 = x.kind
        return Arr.new((n,), lambda i: c(i), 'fromlist', k0)
    if isinstance(x, (list, tuple)):
        if len(x) and isinstance(x[0], (list, tuple, Arr, SymList)):
            rows = [as_arr(r) for r in x]
            rds = [r.content() for r in rows]
            inner = rows[0].shape_
            for r in rows[1:]:
                if len(r.shape_) != len(inner) or not all(dims_equal(p, q) for p, q in zip(r.shape_, inner)):
                    raise Unsupported('ragged array')

            def g(i, *rest):
                v = rds[-1](*rest)
                for j in range(len(rds) - 2, -1, -1):
                    v = Ite(SBool(i == j), rds[j](*rest), v)
                return v
            k = rows[0].kind
            for r in rows:
                k = join_kind(k, r.kind)
            return Arr.new((len(x),) + tuple(inner), g, 'stack', k)
        els = [lift(e) for e in x]
        k = kind or 'real'
        if els:
            k = kind_of(els[0])
            for e_ in els[1:]:
                k = join_kind(k, kind_of(e_))
        if k == 'real':
            els = [_toreal(e_) for e_ in els]
        zero = els[-1] if els else lift(0.0)

        def f(i):
            v = zero
            for j in range(len(els) - 2, -1, -1):
                v = Ite(SBool(z3.simplify(i == j)), els[j], v) if not _simpl_true(i == j) else els[j]
            if z3.is_int_value(i) and 0 <= i.as_long() < len(els):
                return els[i.as_long()]
            return v
        return Arr.new((len(els),), f, 'lit', k)
    if isinstance(x, (SNum, SComplex)) or isinstance(x, numbers.Number):
        sv = lift(x)
        return Arr.new((), lambda: sv, 'scal', kind_of(sv))
    raise Unsupported('as array: %r' % type(x))


def _simpl_true(c):
    return z3.is_true(z3.simplify(c))


class SymList(object):
    """a python list: concrete items, or symbolic (length, reader)"""
    __array_sym__ = True
    __hash__ = object.__hash__

    def __init__(self, items=None, n=None, get=None, kind='obj', label='list'):
        self.items = items
        self.n_ = n
        self.get_ = get
        self.kind = kind
        self.label = label
        self.oid = eng().new_oid(self)

    @property
    def n(self):
        return len(self.items) if self.items is not None else self.n_

    def length(self):
        return self.n

    def at(self, i):
        if self.items is not None:
            return _select(self.items, i)
        return self.get_(T(i))

    def snapshot_get(self):
        if self.items is not None:
            its = list(self.items)
            return lambda i: _select(its, i)
        g = self.get_
        return lambda i: g(T(i))

    def snapshot(self):
        if self.items is not None:
            return SymList(list(self.items), kind=self.kind, label=self.label)
        if self.spec is not None:
            raise Unsupported('copy of a list with described contents')
        return SymList(None, self.n_, self.get_, self.kind, self.label)

    def append(self, v):
        eng().note_write(self, 'list')
        if self.items is not None:
            self.items.append(v)
            return
        g, n = self.get_, T(self.n_)
        if self.spec is not None:
            self.admit(self.spec(v, SInt(n)))
            self.n_ = simp_int(n + 1)
            return
        v = lift(v)
        self.get_ = lambda i: Ite(SBool(i == n), v, g(i))
        self.n_ = simp_int(n + 1)

    spec = None

    def admit(self, fs):
        for n_, f in fs:
            eng().oblige(n_, f, 'list')

    def havoc(self, tag):
        e = eng()
        if self.spec is not None:
            self.n_ = SInt(z3.Int(e.fresh_name(self.label + '.len')))
            e.assume_fact(self.n_.t >= 0)
            return
        kind = self.kind
        if self.items:
            try:
                kind = kind_of(lift(self.items[0]))
            except Unsupported:
                pass
        self.items = None
        self.kind = kind
        self.n_ = SInt(z3.Int(e.fresh_name(self.label + '.len')))
        e.assume_fact(self.n_.t >= 0)
        self.get_ = fresh_content(self.label + '!' + tag, 1, kind)

    def locate(self, i):
        """bounds-checked index term"""
        e = eng()
        t, n = T(i), T(self.n)
        if e.in_spec or e.entails(z3.And(t >= 0, t < n)):
            return t
        if e.branch(z3.And(t >= 0, t < n)):
            return t
        if e.branch(z3.And(t < 0, t >= -n)):
            return t + n
        raise PyRaise(IndexError)

    def getitem(self, i):
        if isinstance(i, slice):
            if self.items is not None:
                return SymList(self.items[slice(*[None if v is None else _cint(v) for v in (i.start, i.stop, i.step)])])
            if i.start is None and i.stop is None and i.step is None:
                return self.snapshot()
            raise Unsupported('slice of symbolic list')
        if self.items is not None:
            j = _maybe_int(i)
            if j is not None:
                try:
                    return self.items[j]
                except IndexError:
                    raise PyRaise(IndexError)
            return _select(self.items, SInt(self.locate(i)))
        return self.get_(self.locate(i))

    def setitem(self, i, v):
        if self.items is not None:
            j = _maybe_int(i)
            if j is not None and -len(self.items) <= j < len(self.items):
                eng().note_write(self, 'item%d' % (j % len(self.items)))
                self.items[j] = v
                return
        eng().note_write(self, 'list')
        if self.items is not None:
            if j is None:
                t = self.locate(i)
                for p in range(len(self.items)):
                    self.items[p] = Ite(SBool(t == p), v, self.items[p])
                return
            try:
                self.items[j] = v
            except IndexError:
                raise PyRaise(IndexError)
            return
        t = self.locate(i)
        g = self.get_
        v = lift(v)
        self.get_ = lambda q: Ite(SBool(q == t), v, g(q))


def _cint(v):
    if isinstance(v, SInt):
        return v.__index__()
    return v


def _maybe_int(i):
    if isinstance(i, SInt):
        v = z3.simplify(i.t)
        return v.as_long() if z3.is_int_value(v) else None
    if isinstance(i, numbers.Integral):
        return int(i)
    raise PyRaise(TypeError)


def _select(items, i):
    j = _maybe_int(i) if not z3.is_expr(i) else (i.as_long() if z3.is_int_value(i) else None)
    if j is not None:
        return items[j]
    if not items:
        raise Unsupported('select from empty list')
    t = T(i)
    v = items[-1]
    for p in range(len(items) - 2, -1, -1):
        v = Ite(SBool(t == p), items[p], v)
    return v


# ---------------------------------------------------------------- engine

class Obligation(object):
    __slots__ = ('name', 'pc', 'goal', 'path', 'status', 'time', 'backend', 'model', 'detail', 'kind')

    def __init__(self, name, pc, goal, path, kind='post'):
        self.name, self.pc, self.goal, self.path = name, pc, goal, path
        self.status = None
        self.time = 0.0
        self.backend = None
        self.model = None
        self.detail = None
        self.kind = kind


class Engine(object):
    def __init__(self, bounded=None, feas_ms=300, max_paths=4000, deadline=None):
        self.bounded = bounded       # None, or K: sizes and loops <= K
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.havoc_sets = {}
        self.poison_slots = set()
        self.split_loops = set()
        self.obligations = []
        self.assumptions = set()
        self.paths = 0
        self.covers = {}
        self.feas_time = 0.0
        self.feas_calls = 0
        self.cache = {}
        self.reset([])

    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pc = []
        self.facts = []
        self.counter = {}
        self.oids = 0
        self.in_spec = False
        self.ieee = False            # numpy.seterr(divide='ignore') is in force
        self.quiet_div = False
        self.ieee = False
        self.count_hints = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        self.loop_stack = []
        self.loop_seen = {}
        self.forced_free = 0

    # naming
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s#%d' % (base, n) if n else base

    def new_oid(self, obj):
        self.oids += 1
        return self.oids

    def fresh_int(self, base):
        return SInt(z3.Int(self.fresh_name(base)))

    def fresh_real(self, base, nan=False):
        n = self.fresh_name(base)
        return SReal(z3.Real(n), z3.Bool(n + '.nan') if nan else None)

    def fresh_bool(self, base):
        return SBool(z3.Bool(self.fresh_name(base)))

    def fresh_str(self, base):
        return SStr(z3.String(self.fresh_name(base)))

    def rebuild_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        for t in self.pc:
            if not _has_quant(t):
                self.solver.add(t)

    # facts
    def _quantified(self, t):
        return _has_quant(t)

    def assume_fact(self, t):
        if isinstance(t, SBool):
            t = t.t
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        self.pc.append(t)
        if not self._quantified(t):
            self.solver.add(t)

    def assume(self, c):
        """assume c; end the path when it is contradictory"""
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
            return
        if isinstance(c, SBool):
            t = z3.simplify(c.t) if not _has_quant(c.t) else c.t
            if z3.is_true(t):
                return
            if z3.is_false(t):
                raise PathEnd()
            self.assume_fact(c.t)
        elif not c:
            raise PathEnd()

    def feasible(self, t):
        key = (tuple(self.decisions), len(self.pc), t.get_id())
        t0 = time.time()
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        self.feas_time += time.time() - t0
        self.feas_calls += 1
        return r != z3.unsat

    def entails(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.in_spec:
            return not self.feasible(z3.Not(t))
        # recorded, so that a re-execution sees the same answer
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = not self.feasible(z3.Not(t))
        self.decisions.append(d)
        self.pos += 1
        return d

    def must(self, t):
        """fork on t; like branch but first tries a full proof with quantifiers"""
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.prefix):
            return self.branch(t)
        if not _has_quant(t) and not self.feasible(z3.Not(t)):
            return self._record(True, t)
        st = z3.Solver()
        st.set('timeout', 3000)
        st.add(*self.pc)
        st.add(z3.Not(t))
        if st.check() == z3.unsat:
            return self._record(True, t)
        return self.branch(t)

    def _record(self, d, t):
        self.decisions.append(d)
        self.pos += 1
        return d

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exhausted')

    def branch(self, t):
        if self.in_spec:
            raise Unsupported('branch inside a specification formula')
        self.check_deadline()
        s = t if _has_quant(t) else z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.assume_fact(s if d else z3.Not(s))
            return d
        ft = self.feasible(s)
        ff = self.feasible(z3.Not(s)) if ft else True
        if ft and ff:
            self.queue.append(self.decisions + [False])
            d = True
        else:
            d = bool(ft)
        self.decisions.append(d)
        self.pos += 1
        self.assume_fact(s if d else z3.Not(s))
        return d

    def choose(self, n):
        """free nondeterministic choice among n alternatives"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            return d
        for j in range(1, n):
            self.queue.append(self.decisions + [j])
        self.decisions.append(0)
        self.pos += 1
        return 0

    def oblige(self, name, goal, kind='post'):
        if self.pos < len(self.prefix):
            return           # already recorded by the run this path forked from
        if isinstance(goal, SBool):
            g = goal.t
        elif goal is True or goal is False:
            g = z3.BoolVal(goal)
        else:
            g = z3.BoolVal(bool(goal))
        self.obligations.append(Obligation(name, list(self.pc), g, list(self.decisions), kind))

    # loop write tracking
    def note_write(self, obj, field):
        for fr in self.loop_stack:
            if obj.oid <= fr['oid0'] and (obj.oid, field) not in fr['havoc']:
                fr['havoc'].add((obj.oid, field))
                self.havoc_sets[fr['key']] = fr['havoc']
                raise Restart()

    # exploration
    def explore(self, runner):
        """runner() executes one path; returns nothing"""
        while True:
            self.queue = []
            self.obligations = []
            self.paths = 0
            try:
                work = [[]]
                while work:
                    pre = work.pop()
                    self.queue = []
                    self.reset(pre)
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise Unsupported('too many paths')
                    try:
                        runner()
                    except PathEnd:
                        pass
                    work.extend(self.queue)
                return
            except Restart:
                continue


_qcache = {}


def mentions(t, c):
    seen = set()
    st = [t]
    ci = c.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == ci:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def _has_quant(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def discharge(ob, timeout_ms=10000):
    """prove one obligation; status: proved | refuted | unknown"""
    t0 = time.time()
    g = z3.simplify(ob.goal) if not _has_quant(ob.goal) else ob.goal
    if z3.is_true(g):
        ob.status, ob.backend = 'proved', 'simplifier'
        return ob
    for att in range(3):
        s = z3.Solver()
        s.set('timeout', timeout_ms if att == 0 else timeout_ms // 2)
        if att == 1:
            s.set('smt.mbqi', False)
        if att == 2:
            s.set('smt.random_seed', 7)
            s.set('smt.arith.solver', 2)
        s.add(*ob.pc)
        s.add(z3.Not(ob.goal))
        r = s.check()
        if r == z3.unsat:
            ob.status, ob.backend = 'proved', 'z3'
            break
        if r == z3.sat:
            ob.status, ob.backend = 'refuted', 'z3'
            ob.model = s.model()
            break
        ob.status, ob.backend = 'unknown', 'z3'
        ob.detail = s.reason_unknown()
        if att == 0 and cvc5_proves(s, timeout_ms):
            ob.status, ob.backend, ob.detail = 'proved', 'cvc5', ''
            break
    ob.time = time.time() - t0
    return ob


def cvc5_proves(solver, timeout_ms):
    """whether cvc5 shows the assertions to be unsatisfiable"""
    import subprocess
    import tempfile
    try:
        text = solver.to_smt2()
        if '(set-logic' not in text:
            text = '(set-logic ALL)\n' + text
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
            f.write(text)
            f.flush()
            r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % timeout_ms, f.name], capture_output=True, text=True,
                               timeout=timeout_ms / 1000.0 + 5)
        return r.stdout.strip().split('\n')[-1] == 'unsat'
    except Exception:
        return False


def to_smt2(ob):
    s = z3.Solver()
    s.add(*ob.pc)
    s.add(z3.Not(ob.goal))
    return s.to_smt2()
