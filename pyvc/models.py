"""Meaning of builtins, six, numpy, ... : the assumed contracts of externals."""
import builtins
import itertools
import math
import types
import os
from collections import OrderedDict
import numpy as np
import six
import six.moves
from .core import *
from . import core
from .objs import *

TABLE = {}
USED_EXTERNALS = set()
CUR = [None]


def bind(interp):
    CUR[0] = interp


def reg(*fs):
    def d(f):
        for x in fs:
            TABLE[id(x)] = (x, Model(f, getattr(x, '__name__', str(x))))
        return f
    return d


def lookup_callable(v):
    if getattr(v, '__self__', None) is np.add and getattr(v, '__name__', None) == 'at':
        v = np.add.at
        USED_EXTERNALS.add('add.at')
        return Model(_add_at, 'add.at')
    try:
        r = TABLE.get(id(v))
    except Exception:
        return None
    if r is not None and r[0] is v:
        USED_EXTERNALS.add(r[1].name)
        return r[1]
    return None


NoneType = type(None)


def pytype(v):
    if isinstance(v, (bool, SBool)):
        return bool
    if isinstance(v, (int, SInt)):
        return int
    if isinstance(v, (float, SReal)):
        return float
    if isinstance(v, (complex, SComplex)):
        return complex
    if isinstance(v, (str, SStr, OpaqueStr)):
        return str
    if isinstance(v, Arr):
        return np.ndarray
    if isinstance(v, SymList):
        return list
    if isinstance(v, PDict):
        return v.pycls
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, ExcVal):
        return v.cls
    if isinstance(v, (FuncRef, Model)):
        return types.FunctionType
    if isinstance(v, BoundMethod):
        return types.MethodType
    if isinstance(v, SymRange):
        return range
    return type(v)


def isinst(v, c):
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(v, SOpaque):
        if v.info is None:
            raise Unsupported('type of an opaque value')
        return Or([v.info(x) for x in _flat(cs)])
    t = pytype(v)
    for x in _flat(cs):
        if isinstance(x, SOpaque):
            raise Unsupported('isinstance with symbolic class')
        if not isinstance(x, type):
            if x is six.string_types or x == six.string_types:
                if t is str:
                    return True
                continue
            raise Unsupported('isinstance class %r' % (x,))
        try:
            if issubclass(t, x):
                return True
        except TypeError:
            raise Unsupported('isinstance')
    return False


def _flat(cs):
    for x in cs:
        if isinstance(x, tuple):
            for y in _flat(x):
                yield y
        else:
            yield x


reg(isinstance)(isinst)


@reg(issubclass)
def _issub(a, b):
    return issubclass(a, b)


@reg(callable)
def _callable(v):
    if isinstance(v, (FuncRef, BoundMethod, Model, type)):
        return True
    if isinstance(v, Obj):
        return hasattr(v.cls, '__call__')
    return callable(v) if not is_sym(v) else False


@reg(len)
def _len(v):
    if isinstance(v, SymList):
        return v.n
    if isinstance(v, Arr):
        return v.length()
    if isinstance(v, PDict):
        if v.base is not None:
            if v.seq is not None:
                return v.seq[0]
            raise Unsupported('len of open dict')
        return len(v.keys())
    if isinstance(v, SStr):
        return v.length()
    if isinstance(v, SymIter):
        return v.n
    if isinstance(v, Obj):
        return CUR[0].call(CUR[0].getattr(v, '__len__'), [])
    if is_sym(v) or v is None or isinstance(v, numbers.Number):
        raise PyRaise(TypeError)
    if isinstance(v, OpaqueStr):
        return eng().fresh_int('msglen')
    return len(v)


@reg(np.ravel)
def _ravel(x):
    if isinstance(x, (SymList, Arr)):
        a = as_arr(x)
        return arr_attr(CUR[0], a, 'ravel')() if a.ndim else _atleast1(a)
    return _atleast1(x)


@reg(np.finfo)
def _finfo(t):
    return np.finfo(t)


@reg(np.issubdtype)
def _issubdtype(a, b):
    for k, d in DTypes.items():
        if a is d:
            a = {'real': np.float64, 'int': np.int64, 'bool': np.bool_, 'complex': np.complex128}.get(k, a)
    try:
        return bool(np.issubdtype(a, b))
    except TypeError:
        raise Unsupported('issubdtype')


@reg(np.geterr)
def _geterr():
    d = 'ignore' if eng().ieee else 'warn'
    return PDict([('divide', d), ('over', 'warn'), ('under', 'ignore'), ('invalid', d)], label='errstate')


@reg(np.seterr)
def _seterr(all=None, divide=None, over=None, under=None, invalid=None):
    old = _geterr()
    if divide is not None:
        eng().ieee = divide == 'ignore'
    return old


@reg(np.reciprocal)
def _reciprocal(x):
    if isinstance(x, (int, bool)) or getattr(x, 'kind', None) in ('int', 'bool') or isinstance(x, SInt):
        raise Unsupported('reciprocal of integers')
    return lift(1.0) / (lift(x) if not isinstance(x, Arr) else x)


@reg(abs, np.abs, np.absolute, np.fabs)
def _abs(v):
    if isinstance(v, SComplex):
        raise Unsupported('abs of complex')
    if isinstance(v, SymList):
        v = as_arr(v)
    if v is None or isinstance(v, (str, PDict)):
        raise PyRaise(TypeError)
    return abs(v)


def _minmax(args, kw, mx):
    if len(args) == 1:
        a = args[0]
        if isinstance(a, Arr):
            return arr_minmax(a, mx)
        args = CUR[0].concrete_iter(a)
        if not args:
            raise PyRaise(ValueError)
    r = args[0]
    for x in args[1:]:
        if isinstance(x, Arr) or isinstance(r, Arr):
            raise Unsupported('min/max of arrays')
        if not is_sym(x) and not is_sym(r):
            r = max(r, x) if mx else min(r, x)
            continue
        c = (x > r) if mx else (x < r)
        if core._inf(r):
            # r is +-inf: python compares exactly
            r = x if bool(c) else r
        elif core._inf(x):
            r = x if bool(c) else r
        else:
            r = Ite(c, x, r)
    return r


@reg(min)
def _min(*args, **kw):
    if kw:
        raise Unsupported('min kw')
    return _minmax(args, kw, False)


@reg(max)
def _max(*args, **kw):
    if kw:
        raise Unsupported('max kw')
    return _minmax(args, kw, True)


def arr_minmax(a, mx):
    e = eng()
    if all(isinstance(s, int) for s in a.shape_):
        els = [a.at(*ix) for ix in itertools.product(*[range(s) for s in a.shape_])]
        if not els:
            raise PyRaise(ValueError)
        return _minmax(els, {}, mx)
    n = a.size()
    if not e.branch(T(n) > 0):
        raise PyRaise(ValueError)
    ks = [z3.Int(e.fresh_name('mm')) for _ in a.shape_]
    rng = z3.And([z3.And(0 <= k, k < T(s)) for k, s in zip(ks, a.shape_)])
    el = a.at(*[SInt(k) for k in ks])
    whole = isinstance(el, SInt)
    conv = (lambda v: v) if whole else core._toreal
    r = (e.fresh_int if whole else e.fresh_real)('max' if mx else 'min')
    el = conv(el)
    e.assume_fact(z3.ForAll(ks, z3.Implies(rng, (el.t <= r.t) if mx else (el.t >= r.t))))
    ws = [z3.Int(e.fresh_name('mmw')) for _ in a.shape_]
    rngw = z3.And([z3.And(0 <= k, k < T(s)) for k, s in zip(ws, a.shape_)])
    e.assume_fact(z3.And(rngw, conv(a.at(*[SInt(k) for k in ws])).t == r.t))
    return r


@reg(np.max, np.amax)
def _npmax(a, **kw):
    if kw:
        raise Unsupported('np.max axis')
    return arr_minmax(as_arr(a), True)


@reg(np.min, np.amin)
def _npmin(a, **kw):
    if kw:
        raise Unsupported('np.min axis')
    return arr_minmax(as_arr(a), False)


@reg(np.maximum)
def _npmaximum(a, b):
    return as_arr(a)._ew(b, lambda x, y: Ite(x >= y, x, y)) if isinstance(a, Arr) or isinstance(b, Arr) else _minmax((a, b), {}, True)


@reg(np.minimum)
def _npminimum(a, b):
    return as_arr(a)._ew(b, lambda x, y: Ite(x <= y, x, y)) if isinstance(a, Arr) or isinstance(b, Arr) else _minmax((a, b), {}, False)


def reduction(name, a, mk=None):
    """an uninterpreted reduction with congruence over element-wise equality"""
    e = eng()
    red = e.__dict__.setdefault('red_%d' % id(e), {})
    if red.get('run') != (id(e.pc)):
        red.clear()
        red['run'] = id(e.pc)
    lst = red.setdefault(name, [])
    r = mk() if mk else e.fresh_real(name)
    rd = a.content()
    for (rd2, sh2, r2, kd2) in lst:
        if len(sh2) != len(a.shape_):
            continue
        ks = [z3.Int(e.fresh_name('rc')) for _ in sh2]
        rng = z3.And([z3.And(0 <= k, k < T(s)) for k, s in zip(ks, sh2)] + [z3.BoolVal(True)])
        same = [T(s) == T(t) for s, t in zip(sh2, a.shape_)]
        x, y = rd(*ks), rd2(*ks)
        eqt = core._sb(x == y)
        body = z3.ForAll(ks, z3.Implies(rng, eqt)) if ks else eqt
        e.assume_fact(z3.Implies(z3.And(same + [body]), r.t == r2.t))
    lst.append((rd, a.shape_, r, a.kind))
    return r


@reg(np.sum)
def _npsum(a, axis=None, **kw):
    if axis is not None or kw:
        raise Unsupported('np.sum axis')
    if isinstance(a, SymList) and a.items is not None and not any(isinstance(x, Arr) for x in a.items):
        return _sum(a)
    a = as_arr(a)
    if all(isinstance(s, int) for s in a.shape_):
        r = 0
        for ix in itertools.product(*[range(s) for s in a.shape_]):
            r = r + a.at(*ix)
        return r
    return reduction('sum', a)


@reg(np.prod, np.product)
def _npprod(a, **kw):
    if kw:
        raise Unsupported('prod kw')
    if isinstance(a, (int, SInt, float, SReal)):
        return a
    if isinstance(a, ShapeTok):
        return a.size
    if isinstance(a, (tuple, SymList)):
        its = a if isinstance(a, tuple) else a.items
        if its is None:
            raise Unsupported('prod')
        r = 1 if its else 1.0
        for x in its:
            r = r * x
        return r
    a = as_arr(a)
    if a.ndim == 1 and isinstance(a.shape_[0], int):
        r = 1
        for j in range(a.shape_[0]):
            r = r * a.at(j)
        return r
    raise Unsupported('prod')


@reg(sum)
def _sum(v, start=0):
    if isinstance(v, Arr):
        if v.ndim == 1:
            return _npsum(v)
        raise Unsupported('sum of n-d')
    it = CUR[0].iteration(v)
    if isinstance(it, SymIter):
        if eng().bounded is None:
            return reduction('sum', as_arr(v))
        it = CUR[0].concrete_iter(v)
    r = start
    for x in it:
        r = r + x
    return r


@reg(any)
def _any(v):
    if isinstance(v, Arr):
        return v.any_()
    it = CUR[0].iteration(v)
    if isinstance(it, SymIter):
        return as_arr(v).any_()
    for x in it:
        if CUR[0].truth(x):
            return True
    return False


@reg(all)
def _all(v):
    if isinstance(v, Arr):
        return v.all_()
    it = CUR[0].iteration(v)
    if isinstance(it, SymIter):
        return as_arr(v).all_()
    for x in it:
        if not CUR[0].truth(x):
            return False
    return True


@reg(np.any)
def _npany(v):
    return as_arr(v).any_() if isinstance(v, (Arr, SymList)) else CUR[0].truth(v)


@reg(np.all)
def _npall(v):
    return as_arr(v).all_() if isinstance(v, (Arr, SymList)) else CUR[0].truth(v)


@reg(np.isinf, math.isinf)
def _isinf(v):
    # (reals: infinities are not modelled)
    if isinstance(v, Arr):
        return v._map(lambda x: False, 'bool')
    return math.isinf(v) if isinstance(v, float) else False


@reg(np.isfinite, math.isfinite)
def _isfinite(v):
    if isinstance(v, Arr):
        return v._map(lambda x: Not(lift(core.isnan(x))), 'bool')
    return math.isfinite(v) if isinstance(v, float) else Not(core.isnan(v))


@reg(np.isnan, math.isnan)
def _isnan(v):
    if isinstance(v, Arr):
        return v._map(lambda x: lift(core.isnan(x)), 'bool')
    return core.isnan(v)


@reg(np.isscalar)
def _isscalar(v):
    return isinstance(v, (SNum, SComplex, SStr, str, numbers.Number))


@reg(np.isreal, np.isrealobj)
def _isreal(v):
    raise Unsupported('isreal')


@reg(np.iscomplexobj)
def _iscomplexobj(v):
    return isinstance(v, (SComplex, complex)) or (isinstance(v, Arr) and v.kind == 'complex')


@reg(np.real)
def _npreal(v):
    if isinstance(v, Arr):
        return v._map(lambda x: x.re, 'real') if v.kind == 'complex' else v
    return v.re if isinstance(v, SComplex) else v


@reg(np.imag)
def _npimag(v):
    if isinstance(v, Arr):
        return v._map(lambda x: x.im, 'real') if v.kind == 'complex' else v._map(lambda x: lift(0.0), 'real')
    return v.im if isinstance(v, SComplex) else lift(0.0)


def _shape_arg(shape):
    if isinstance(shape, SymList):
        shape = tuple(shape.items)
    if not isinstance(shape, tuple):
        shape = (shape,)
    e = eng()
    for s in shape:
        if isinstance(s, (SReal, float)) or s is None:
            raise PyRaise(TypeError)
        if is_sym(s) and not e.entails(s.t >= 0) and e.branch(s.t < 0):
            raise PyRaise(ValueError)
    return shape


def _kind(dtype, dflt='real'):
    if dtype is None:
        return dflt
    if isinstance(dtype, str):
        if dtype.startswith('complex'):
            return 'complex'
        if dtype.startswith('int') or dtype == 'i':
            return 'int'
        if dtype.startswith('f') or dtype == 'd':
            return 'real'
        if dtype.startswith('bool'):
            return 'bool'
    if dtype in (int, np.int64, np.int32):
        return 'int'
    if dtype in (float, np.float64):
        return 'real'
    if dtype in (bool, np.bool_):
        return 'bool'
    if dtype in (complex, np.complex128):
        return 'complex'
    raise Unsupported('dtype %r' % (dtype,))


def _const_arr(shape, v, kind):
    if isinstance(shape, ShapeTok):
        a = Arr.new((shape.size,), lambda *ix: v, 'const', kind)
        a.tok = shape
        return a
    return Arr.new(_shape_arg(shape), lambda *ix: v, 'const', kind)


def _zero(kind):
    return {'real': lift(0.0), 'int': lift(0), 'bool': lift(False), 'complex': SComplex(lift(0.0), lift(0.0))}[kind]


def _one(kind):
    return {'real': lift(1.0), 'int': lift(1), 'bool': lift(True), 'complex': SComplex(lift(1.0), lift(0.0))}[kind]


@reg(np.zeros)
def _zeros(shape, dtype=None, order=None):
    k = _kind(dtype)
    if shape is None:
        shape = ()
    return _const_arr(shape, _zero(k), k)


@reg(np.ones)
def _ones(shape, dtype=None, order=None):
    k = _kind(dtype)
    return _const_arr(shape, _one(k), k)


@reg(np.empty)
def _empty(shape, dtype=None, order=None):
    k = _kind(dtype)
    sh = _shape_arg(shape)
    e = eng()
    return Arr.new(sh, fresh_content('empty', len(sh), k), 'empty', k)


@reg(np.zeros_like)
def _zeros_like(a, dtype=None):
    a = as_arr(a)
    k = _kind(dtype, a.kind)
    r = _const_arr(a.shape_, _zero(k), k)
    r.tok = a.tok
    return r


@reg(np.ones_like)
def _ones_like(a, dtype=None):
    a = as_arr(a)
    k = _kind(dtype, a.kind)
    r = _const_arr(a.shape_, _one(k), k)
    r.tok = a.tok
    return r


@reg(np.eye, np.identity)
def _eye(n, dtype=None):
    return Arr.new(_shape_arg((n, n)), lambda i, j: Ite(SBool(i == j), lift(1.0), lift(0.0)), 'eye', 'real')


@reg(np.array)
def _array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, Arr):
        r = x.snapshot()
    elif isinstance(x, SymIter):
        r = as_arr(SymList(CUR[0].iteration(x)) if not isinstance(CUR[0].iteration(x), SymIter) else SymList(None, x.n, lambda i: lift(x.get(SInt(i))), 'int'))
    else:
        r = as_arr(x)
        if isinstance(x, SymList):
            r = r.snapshot()
    r = _astype(r, dtype)
    while r.ndim < ndmin:
        rd = r.content()
        r = Arr.new((1,) + r.shape_, lambda i, *ix: rd(*ix), 'nd', r.kind)
    return r


def _astype(r, dtype, copy=False):
    if dtype is None:
        return r
    if dtype is object:
        raise Unsupported('object array')
    k = _kind(dtype)
    if k == r.kind:
        return r.snapshot() if copy else r
    if k == 'real':
        if r.kind == 'complex':
            n = r._map(lambda v: v.re, 'real')
        else:
            n = r._map(core._toreal, 'real')
    elif k == 'complex':
        n = r._map(SComplex.of, 'complex')
    elif k == 'int' and r.kind == 'bool':
        n = r._map(lambda v: SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0))), 'int')
    elif k == 'int' and r.kind == 'real':
        n = r._map(lambda v: SInt(_trunc(v.t)), 'int')
    else:
        raise Unsupported('astype %s->%s' % (r.kind, k))
    n.tok = r.tok
    return n


def _trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


@reg(np.asarray, np.ascontiguousarray)
def _asarray(x, dtype=None):
    if isinstance(x, Arr):
        return _astype(x, dtype)
    return _array(x, dtype)


@reg(np.atleast_1d)
def _atleast1(x):
    if isinstance(x, Arr) and x.ndim >= 1:
        return x
    a = as_arr(x)
    if a.ndim == 0:
        rd = a.content()
        return Arr.new((1,), lambda i: rd(), 'at1', a.kind)
    return a


@reg(np.atleast_2d)
def _atleast2(x):
    a = as_arr(x)
    rd = a.content()
    if a.ndim == 0:
        return Arr.new((1, 1), lambda i, j: rd(), 'at2', a.kind)
    if a.ndim == 1:
        if isinstance(x, Arr):
            return _newaxis_row(a)
        return Arr.new((1, a.shape_[0]), lambda i, j: rd(j), 'at2', a.kind)
    return a


def _newaxis_row(a):
    # a view with a leading unit axis
    dims = [d if d[0] == 'fix' else ('rng', d[1], d[2] + 1) for d in a.dims]
    return Arr(a.buf, dims, (1,) + a.shape_)


@reg(np.arange)
def _arange(*args, **kw):
    dtype = kw.pop('dtype', None)
    if kw:
        raise Unsupported('arange')
    lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
    if len(args) > 2 and args[2] != 1:
        raise Unsupported('arange step')
    if any(isinstance(x, (float, SReal)) for x in (lo, hi)):
        raise Unsupported('float arange')
    r = SymRange(lo, hi)
    lo_ = T(lo)
    return Arr.new((r.n,), lambda i: SInt(z3.simplify(lo_ + i)), 'arange', 'int')


@reg(np.linspace)
def _linspace(a, b, num=50):
    a, b = core._toreal(lift(a)), core._toreal(lift(b))
    n = T(num)
    if not isinstance(num, (int, SInt)):
        raise PyRaise(TypeError)
    e = eng()

    def g(i):
        i = T(i)
        last = z3.And(i == n - 1, n > 1)
        return SReal(z3.If(last, b.t, z3.If(n <= 1, a.t, a.t + z3.ToReal(i) * (b.t - a.t) / z3.ToReal(n - 1))))
    return Arr.new((num,), g, 'linspace', 'real')


@reg(np.dot)
def _dot(a, b):
    a, b = as_arr(a), as_arr(b)
    return dot(a, b)


def dot(a, b):
    e = eng()
    if a.ndim == 0 or b.ndim == 0:
        return (a.at() if a.ndim == 0 else a) * (b.at() if b.ndim == 0 else b)
    ka, kb = a.shape_[-1], b.shape_[0] if b.ndim == 1 else b.shape_[-2]
    if not dims_equal(ka, kb):
        raise PyRaise(ValueError)
    ra, rb = a.content(), b.content()
    inner = ka
    if isinstance(kb, int):
        inner = kb

    def summ(f):
        if isinstance(inner, int):
            t = lift(0.0)
            for j in range(inner):
                t = t + f(z3.IntVal(j))
            return t
        return None
    if isinstance(inner, int):
        if a.ndim == 1 and b.ndim == 1:
            return summ(lambda j: ra(j) * rb(j))
        if a.ndim == 2 and b.ndim == 1:
            return Arr.new((a.shape_[0],), lambda i: summ(lambda j: ra(i, j) * rb(j)), 'dot', 'real')
        if a.ndim == 1 and b.ndim == 2:
            return Arr.new((b.shape_[1],), lambda i: summ(lambda j: ra(j) * rb(j, i)), 'dot', 'real')
        if a.ndim == 2 and b.ndim == 2:
            return Arr.new((a.shape_[0], b.shape_[1]), lambda i, k: summ(lambda j: ra(i, j) * rb(j, k)), 'dot', 'real')
        raise Unsupported('dot dims')
    # symbolic inner dimension: an uninterpreted product, congruent in its arguments
    if a.ndim == 1 and b.ndim == 1:
        prod = Arr.new((inner,), lambda j: ra(j) * rb(j), 'prod', 'real')
        return reduction('sum', prod)
    if a.ndim == 2 and b.ndim == 1:
        return opaque_matvec(a, b)
    if a.ndim == 1 and b.ndim == 2:
        return opaque_matvec(b.T_, a)
    raise Unsupported('symbolic matrix-matrix product')


def opaque_matvec(m, x):
    """y_i = sum_j m_ij x_j: uninterpreted, congruent, zero for zero x"""
    e = eng()
    red = e.__dict__.setdefault('mv_%d' % id(e), {})
    if red.get('run') != id(e.pc):
        red.clear()
        red['run'] = id(e.pc)
    lst = red.setdefault('mv', [])
    f = z3.Function(e.fresh_name('matvec'), I, R)
    rm, rx = m.content(), x.content()
    sh = m.shape_
    for (rm2, rx2, sh2, f2) in lst:
        i, j, q = [z3.Int(e.fresh_name('mvi')) for _ in range(3)]
        same = [T(p) == T(r) for p, r in zip(sh, sh2)]
        ant = z3.And(same + [
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < T(sh[0]), 0 <= j, j < T(sh[1])), core._sb(rm(i, j) == rm2(i, j)))),
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < T(sh[1])), core._sb(rx(j) == rx2(j))))])
        e.assume_fact(z3.Implies(ant, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < T(sh[0])), f(q) == f2(q)))))
    lst.append((rm, rx, sh, f))
    return Arr.new((sh[0],), lambda i: SReal(f(i)), 'matvec', 'real')


def scatter_sum(n, idx, val):
    """q -> sum of val(k) over k < n with idx(k) == q: exact for a concrete n, else uninterpreted and congruent"""
    if isinstance(n, int):
        def exact(q):
            t = lift(0.0)
            for k in range(n):
                t = t + Ite(idx(z3.IntVal(k)) == SInt(q), val(z3.IntVal(k)), 0.0)
            return t
        return exact
    e = eng()
    red = e.__dict__.setdefault('sc_%d' % id(e), {})
    if red.get('run') != id(e.pc):
        red.clear()
        red['run'] = id(e.pc)
    lst = red.setdefault('sc', [])
    f = z3.Function(e.fresh_name('scattersum'), I, R)
    for (n2, idx2, val2, f2) in lst:
        k, q = z3.Int(e.fresh_name('sk')), z3.Int(e.fresh_name('sq'))
        same = z3.And(T(n) == T(n2), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < T(n)), z3.And(
            core._sb(idx(k) == idx2(k)), core._sb(val(k) == val2(k))))))
        e.assume_fact(z3.Implies(same, z3.ForAll([q], f(q) == f2(q))))
    lst.append((n, idx, val, f))
    return lambda q: SReal(f(q))


def _add_at(a, ind, val):
    """a[q] += the sum of val[k] over the k with ind[k] == q"""
    if not isinstance(a, Arr) or a.ndim != 1 or not isinstance(ind, (Arr, SymList)):
        raise Unsupported('np.add.at')
    ind = as_arr(ind)
    val = as_arr(val)
    if val.ndim == 0:
        val = broadcast_to(val, ind.shape_)
    if ind.ndim != 1 or val.ndim != 1:
        raise Unsupported('np.add.at')
    if not dims_equal(ind.shape_[0], val.shape_[0]):
        raise PyRaise(ValueError)
    n, size = ind.shape_[0], a.shape_[0]
    ki, kv, old = ind.content(), val.content(), a.content()
    e = eng()
    k = z3.Int(e.fresh_name('ak'))
    inb = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < T(n)), core._sb(And(ki(k) >= -lift(size), ki(k) < size))))
    if not e.must(inb):
        raise Unsupported('np.add.at: index may be out of range')
    f = scatter_sum(n, lambda k: Ite(ki(k) < 0, ki(k) + size, ki(k)), lambda k: core._toreal(kv(k)))
    a.assign(Arr.new(a.shape_, lambda q: old(q) + f(q), 'addat', 'real'))


@reg(np.outer)
def _outer(a, b):
    a, b = as_arr(a), as_arr(b)
    ra, rb = a.content(), b.content()
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('outer')
    return Arr.new((a.shape_[0], b.shape_[0]), lambda i, j: ra(i) * rb(j), 'outer', join_kind(a.kind, b.kind))


@reg(np.einsum)
def _einsum(spec, *ops, **kw):
    if kw or not isinstance(spec, str) or '->' not in spec or '.' in spec:
        raise Unsupported('einsum')
    ins, res = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    ops = [as_arr(o) for o in ops]
    if len(ins) != len(ops) or any(len(i) != o.ndim for i, o in zip(ins, ops)) or len(set(res)) != len(res):
        raise PyRaise(ValueError)
    size, inner = {}, []
    for i, o in zip(ins, ops):
        for ch, n in zip(i, o.shape_):
            if ch in size:
                if not dims_equal(size[ch], n):
                    raise PyRaise(ValueError)
                if isinstance(n, int):
                    size[ch] = n
            else:
                size[ch] = n
                if ch not in res:
                    inner.append(ch)
    if any(not isinstance(size[ch], int) for ch in inner):
        raise Unsupported('einsum over a symbolic dimension')
    rds = [o.content() for o in ops]

    def at(*ix):
        tot = None
        for q in itertools.product(*[[z3.IntVal(k) for k in range(size[ch])] for ch in inner]):
            env = dict(zip(res, ix))
            env.update(zip(inner, q))
            t = None
            for i, r in zip(ins, rds):
                v = r(*[env[ch] for ch in i])
                t = v if t is None else t * v
            tot = t if tot is None else tot + t
        return tot if tot is not None else lift(0.0)
    kind = ops[0].kind
    for o in ops[1:]:
        kind = join_kind(kind, o.kind)
    return Arr.new(tuple(size[ch] for ch in res), at, 'einsum', kind)


@reg(np.linalg.norm)
def _norm(a, **kw):
    if kw:
        raise Unsupported('norm kw')
    a = as_arr(a)
    e = eng()
    r = reduction('norm', a)
    e.assume_fact(r.t >= 0)
    return r


@reg(np.size)
def _npsize(a):
    if isinstance(a, Arr):
        return a.size()
    if isinstance(a, (SNum, numbers.Number)):
        return 1
    return as_arr(a).size()


@reg(np.where)
def _where(*a):
    if len(a) == 3:
        c, x, y = as_arr(a[0]), as_arr(a[1]), as_arr(a[2])
        rc = c.content()
        x = broadcast_to(x, c.shape_)
        y = broadcast_to(y, c.shape_)
        rx, ry = x.content(), y.content()
        return Arr.new(c.shape_, lambda *ix: Ite(rc(*ix), rx(*ix), ry(*ix)), 'where', join_kind(x.kind, y.kind))
    raise Unsupported('where')


@reg(np.concatenate, np.hstack)
def _concat(xs, axis=0):
    xs = [as_arr(x) for x in CUR[0].concrete_iter(xs)]
    if axis != 0 or any(x.ndim != 1 for x in xs):
        raise Unsupported('concatenate')
    if not xs:
        raise PyRaise(ValueError)
    tot = 0
    offs = []
    for x in xs:
        offs.append(T(tot))
        tot = simp_int(T(tot) + T(x.shape_[0]))
    rds = [x.content() for x in xs]
    k = xs[0].kind
    for x in xs[1:]:
        k = join_kind(k, x.kind)

    def g(i):
        v = rds[-1](i - offs[-1])
        for j in range(len(xs) - 2, -1, -1):
            v = Ite(SBool(i < offs[j + 1]), rds[j](i - offs[j]), v)
        return v
    return Arr.new((tot,), g, 'concat', k)


def grid(g, n, k):
    """an int array with the given elements"""
    def at(i, j):
        i, j = core._maybe_int(lift(i)), core._maybe_int(lift(j))
        if i is None or j is None:
            raise Unsupported('symbolic index into a table')
        return SInt(T(g[i][j]))
    return Arr.new((n, k), at, 'grid', 'int')


def _logical(name, f):
    def m(a, b):
        a, b = as_arr(a), as_arr(b)
        if a.kind != 'bool' or b.kind != 'bool' or a.ndim != 1 or b.ndim != 1:
            raise Unsupported(name)
        if not eng().must(T(a.shape_[0]) == T(b.shape_[0])):
            raise Unsupported(name + ' of other sizes')
        x, y = a.content(), b.content()
        return Arr.new(a.shape_, lambda i: f(SBool(x(i).t), SBool(y(i).t)), name, 'bool')
    return m


reg(np.logical_and)(_logical('logical_and', lambda x, y: SBool(z3.And(x.t, y.t))))
reg(np.logical_or)(_logical('logical_or', lambda x, y: SBool(z3.Or(x.t, y.t))))


@reg(np.cumsum)
def _cumsum(a, dtype=None):
    """running sums: defined by their recurrence"""
    a = as_arr(a)
    if a.ndim != 1 or dtype is not None:
        raise Unsupported('cumsum')
    rd = a.content()
    n = a.shape_[0]
    e = eng()
    if isinstance(n, int):
        sums, s = [], 0
        for k in range(n):
            s = rd(k) + s
            sums.append(s)
        return as_arr(SymList(sums)) if sums else Arr.new((0,), rd, 'cumsum', a.kind)
    f = z3.Function(e.fresh_name('cumsum'), z3.IntSort(), z3.RealSort() if a.kind == 'real' else z3.IntSort())
    i = z3.Int(e.fresh_name('cs'))
    e.assume_fact(z3.Implies(T(n) > 0, f(0) == rd(0).t))
    e.assume_fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < T(n)), f(i + 1) == f(i) + rd(SInt(i + 1)).t)))
    mk = SReal if a.kind == 'real' else SInt
    return Arr.new((n,), lambda k: mk(f(T(k))), 'cumsum', a.kind)


@reg(np.random.seed)
def _seed(s=None):
    return None


@reg(np.random.uniform)
def _uniform(lo=0.0, hi=1.0, size=None):
    """some number of the closed interval (trusted)"""
    if size is not None or isinstance(lo, Arr) or isinstance(hi, Arr):
        raise Unsupported('uniform array')
    lo, hi = core._toreal(lift(lo)), core._toreal(lift(hi))
    r = eng().fresh_real('uniform')
    eng().assume_fact(z3.Or(z3.And(lo.t <= r.t, r.t <= hi.t), z3.And(hi.t <= r.t, r.t <= lo.t)))
    eng().assumptions.add('np.random.uniform returns a number between its limits')
    return r


@reg(np.unique)
def _unique(a):
    """sorted distinct values; only their number is described"""
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('unique')
    e = eng()
    n = T(a.shape_[0])
    m = e.fresh_int('nunique')
    i, j = z3.Int(e.fresh_name('uq')), z3.Int(e.fresh_name('uq'))
    ai, aj = a.at(SInt(i)), a.at(SInt(j))
    dist = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), ai.t != aj.t))
    e.assume_fact(z3.And(m.t >= 0, m.t <= n, z3.Implies(n >= 1, m.t >= 1)))
    if e.branch(m.t == n):
        e.assume_fact(dist)
    else:
        e.assume_fact(z3.Not(dist))
    return Arr.new((m,), fresh_content('unique', 1, a.kind), 'unique', a.kind)


@reg(np.append)
def _append(a, b):
    return _concat(SymList([as_arr(a), _atleast1(b)]))


@reg(np.sign)
def _sign(v):
    f = lambda x: SReal(z3.If(core._toreal(lift(x)).t > 0, z3.RealVal(1), z3.If(core._toreal(lift(x)).t < 0, z3.RealVal(-1), z3.RealVal(0))))
    return v._map(f) if isinstance(v, Arr) else f(v)


@reg(math.floor, np.floor)
def _floor(v):
    if isinstance(v, Arr):
        return v._map(lambda x: SReal(z3.ToReal(z3.ToInt(x.t))))
    v = lift(v)
    if isinstance(v, SInt):
        return v
    return SInt(z3.ToInt(v.t))


@reg(np.square)
def _square(v):
    return v * v


@reg(np.array_equal)
def _array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape_, b.shape_):
        if not dims_equal(x, y):
            return False
    return (a == b).all_()


@reg(np.nonzero)
def _nonzero(v):
    raise Unsupported('nonzero')


def _mathf(name):
    def f(v):
        if isinstance(v, Arr):
            return v._map(lambda x: math_uf(name, x), 'real')
        return math_uf(name, v)
    return f


for nm in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan'):
    fs = [getattr(np, nm), getattr(math, nm)]
    reg(*fs)(_mathf(nm))


# ---- six / builtins --------------------------------------------------------

def _items(d):
    if isinstance(d, Obj):
        return CUR[0].call(CUR[0].getattr(d, 'items'), [])
    if isinstance(d, PDict):
        if d.base is not None and d.seq is not None:
            n, key = d.seq
            return SymIter(n, lambda k: (key(k), d.getitem(key(k))))
        return SymList([tuple(p) for p in d.items()])
    if isinstance(d, dict):
        return SymList([(k, _fp(v)) for k, v in d.items()])
    if isinstance(d, (SymList, tuple, Arr)) or d is None or is_sym(d):
        raise PyRaise(AttributeError)
    raise Unsupported('items of %r' % type(d))


def _fp(v):
    from .interp import from_py
    return from_py(v)


def _keys(d):
    if isinstance(d, Obj):
        return CUR[0].call(CUR[0].getattr(d, 'keys'), [])
    if isinstance(d, PDict):
        if d.base is not None and d.seq is not None:
            return SymIter(*d.seq)
        return SymList(list(d.keys()))
    if isinstance(d, dict):
        return SymList(list(d))
    raise Unsupported('keys of %r' % type(d))


def _values(d):
    if isinstance(d, Obj):
        return CUR[0].call(CUR[0].getattr(d, 'values'), [])
    if isinstance(d, PDict):
        if d.base is not None and d.seq is not None:
            n, key = d.seq
            return SymIter(n, lambda k: d.getitem(key(k)))
        return SymList(list(d.values()))
    if isinstance(d, dict):
        return SymList([_fp(x) for x in d.values()])
    raise Unsupported('values of %r' % type(d))


reg(six.iteritems)(_items)
reg(six.iterkeys)(_keys)
reg(six.itervalues)(_values)


@reg(print)
def _print(*a, **k):
    return None


@reg(hasattr)
def _hasattr(o, name):
    if isinstance(o, Obj):
        if name in o.attrs:
            return True
        c, v = CUR[0].class_attr(o.cls, name)
        if c is not None:
            return True
        if o.missing is not None:
            try:
                o.missing(name)
                return True
            except PyRaise:
                return False
        if getattr(o, 'closed', False):
            return False
        raise Unsupported('hasattr(%s, %s)' % (o.label, name))
    t = pytype(o)
    return hasattr(t, name)


@reg(getattr)
def _getattr(o, name, *d):
    if d:
        try:
            return CUR[0].getattr(o, name)
        except PyRaise as e:
            if issubclass(e.cls, AttributeError):
                return d[0]
            raise
    return CUR[0].getattr(o, name)


@reg(setattr)
def _setattr(o, name, v):
    CUR[0].setattr(o, name, v)


@reg(repr)
def _repr(v):
    return OpaqueStr()


@reg(id)
def _id(v):
    return getattr(v, 'oid', id(v))


@reg(sorted)
def _sorted(v, key=None, reverse=False):
    it = CUR[0].concrete_iter(v)
    if any(_contains_sym(x) for x in it):
        if key is None and not reverse and len(it) <= 4 and all(isinstance(x, (SNum, int, float)) for x in it):
            # a small sorting network over terms
            out = list(it)
            for i in range(len(out)):
                for j in range(len(out) - 1 - i):
                    a, b = out[j], out[j + 1]
                    c = a <= b
                    out[j], out[j + 1] = Ite(c, a, b), Ite(c, b, a)
            return SymList(out)
        raise Unsupported('sorting symbolic values')
    kf = None
    if key is not None:
        kf = lambda x: CUR[0].call(key, [x])
    return SymList(sorted(it, key=kf, reverse=reverse))


def _contains_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (tuple, list)):
        return any(_contains_sym(y) for y in x)
    return False


@reg(iter)
def _iter(v, *a):
    if a:
        return CallIter(v, a[0])
    return v if isinstance(v, (SymList, SymIter, GenObj)) else SymList(CUR[0].concrete_iter(v))


@reg(round)
def _round(v, n=None):
    if n is None and isinstance(v, SReal):
        r = eng().fresh_int('round')
        eng().assume_fact(z3.And(2 * (v.t - z3.ToReal(r.t)) <= 1, 2 * (z3.ToReal(r.t) - v.t) <= 1))
        return r
    raise Unsupported('round')


@reg(pow)
def _pow(a, b):
    import ast as _a
    return CUR[0].binop(_a.Pow(), a, b)


@reg(divmod)
def _divmod(a, b):
    if not is_sym(a) and not is_sym(b):
        return divmod(a, b)
    a, b = lift(a), lift(b)
    return (a // b, a % b)


@reg(eval)
def _eval(*a):
    raise Unsupported('eval')


@reg(itertools.chain)
def _chain(*xs):
    out = []
    for x in xs:
        out.extend(CUR[0].concrete_iter(x))
    return SymList(out)


def _chain_fi(xs):
    return _chain(*CUR[0].concrete_iter(xs))


@reg(itertools.product)
def _product(*xs, **kw):
    rep = kw.pop('repeat', 1)
    its = [CUR[0].iteration(x) for x in xs] * rep
    if len(its) <= 2 and any(isinstance(it, SymIter) and not isinstance(it, FilterIter) for it in its):
        # in the order of the elements of a matrix
        get = lambda it, k: it.get(k) if isinstance(it, SymIter) else core._select(it, k)
        if len(its) == 1:
            return SymIter(its[0].n, lambda k: (its[0].get(k),))
        n0, n1 = [it.n if isinstance(it, SymIter) else len(it) for it in its]
        if isinstance(n1, int) and n1 == 0:
            return SymList([])
        return SymIter(simp_int(T(n0) * T(n1)), lambda k: (get(its[0], simp_int(T(k) / T(n1))), get(its[1], simp_int(T(k) % T(n1)))))
    ls = [CUR[0].concrete_iter(x) for x in xs] * rep
    return SymList([tuple(p) for p in itertools.product(*ls)])


import copy as _copy


@reg(_copy.deepcopy, _copy.copy)
def _deepcopy(v):
    if isinstance(v, (Arr, PDict)):
        return v.snapshot()
    if isinstance(v, SymList):
        return v.snapshot()
    if isinstance(v, (SV, int, float, str, bool, NoneType, tuple)):
        return v
    raise Unsupported('copy of %r' % type(v))


import warnings as _w
reg(_w.warn, _w.simplefilter, _w.warn_explicit)(lambda *a, **k: None)
import traceback as _tb
reg(_tb.format_exc)(lambda *a, **k: OpaqueStr())


def _ospath(f):
    # (these look at the text only)
    def model(*a):
        if all(isinstance(x, str) for x in a):
            return f(*a)
        raise Unsupported('os.path of a symbolic name')
    return model


for _f in (os.path.isabs, os.path.basename, os.path.dirname, os.path.normpath, os.path.splitext, os.path.split):
    reg(_f)(_ospath(_f))
reg(os.path.join)(lambda *a: (os.path.join(*a) if all(isinstance(x, str) for x in a) else OpaqueStr()))
import sys as _sys


@reg(_sys.exc_info)
def _exc_info():
    ex = CUR[0].handled
    if ex is None:
        raise Unsupported('exc_info')
    return (ex.cls, ex.value, None)


import time as _time
reg(_time.time)(lambda: eng().fresh_real('time'))


def mkset(vs):
    if any(_contains_sym(v) for v in vs):
        # a set of symbolic members: kept as a list without duplicates
        s = SymSet([])
        for v in vs:
            s.add(v)
        return s
    return SymSet(list(dict.fromkeys(vs)))


class SymSet(SymList):
    """a python set with few members (duplicates decided by forking)"""
    def __init__(self, items):
        SymList.__init__(self, list(items), label='set')

    def has(self, v):
        r = CUR[0].contains(self, v)
        return CUR[0].truth(r)

    def add(self, v):
        if not self.has(v):
            eng().note_write(self, 'list')
            self.items.append(v)

    def discard(self, v):
        for i, x in enumerate(list(self.items)):
            if CUR[0].truth(CUR[0].eq(x, v)):
                eng().note_write(self, 'list')
                self.items.pop(i)
                return True
        return False


class ShapeTok(object):
    """an array shape nobody destructures; only its size is known"""
    def __init__(self, name, size):
        self.name = name
        self.size = size

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o
    __hash__ = object.__hash__


# ---- construction of classes ------------------------------------------------

def construct(ip, cls, args, kw):
    if cls in (dict, OrderedDict):
        d = PDict(label='dict', pycls=cls)
        if args:
            a = args[0]
            if isinstance(a, PDict):
                d = a.copy()
                d.pycls = cls
            else:
                for p in ip.concrete_iter(a):
                    k, v = ip.concrete_iter(p)
                    d.setitem(k, v)
        for k, v in kw.items():
            d.setitem(k, v)
        return d
    if cls is list:
        if not args:
            return SymList([])
        a = args[0]
        it = ip.iteration(a)
        if isinstance(it, SymIter):
            if eng().bounded is not None:
                return SymList(ip.concrete_iter(a))
            if isinstance(a, SymList):
                return a.snapshot()
            g = it.get
            el = g(eng().fresh_int('probe'))
            return SymList(None, it.n, lambda i: lift(g(SInt(i))), kind_of(lift(el)), 'list')
        return SymList(it)
    if cls is tuple:
        if not args:
            return ()
        if isinstance(args[0], ShapeTok):
            return args[0]
        return tuple(ip.concrete_iter(args[0]))
    if cls in (set, frozenset):
        return mkset(ip.concrete_iter(args[0]) if args else [])
    if cls is float:
        if not args:
            return 0.0
        v = args[0]
        if isinstance(v, (SInt, SBool)):
            return core._toreal(v)
        if isinstance(v, SReal):
            return v
        if isinstance(v, Arr):
            n = v.size()
            if not dims_equal(n, 1):
                raise PyRaise(TypeError)
            return core._toreal(v.at(*([0] * v.ndim)))
        if isinstance(v, (SymList, PDict, NoneType, Obj, tuple, SComplex)):
            raise PyRaise(TypeError)
        if isinstance(v, (SStr, SOpaque)):
            raise Unsupported('float of text')
        try:
            return float(v)
        except ValueError:
            raise PyRaise(ValueError)
        except TypeError:
            raise PyRaise(TypeError)
    if cls is int:
        if not args:
            return 0
        v = args[0]
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, SReal):
            return SInt(_trunc(v.t))
        if isinstance(v, (SymList, PDict, NoneType, Obj, tuple)):
            raise PyRaise(TypeError)
        if isinstance(v, Arr):
            raise Unsupported('int of array')
        return int(v)
    if cls is bool:
        if not args:
            return False
        v = args[0]
        if isinstance(v, SBool):
            return v
        return ip.truth(v)
    if cls is complex:
        v = SComplex.of(args[0])
        if v is None:
            raise Unsupported('complex()')
        if len(args) > 1:
            v = SComplex(v.re, core._toreal(lift(args[1])))
        return v
    if cls is str:
        v = args[0] if args else ''
        if isinstance(v, ExcVal) and len(v.args) == 1 and isinstance(v.args[0], (str, SStr)):
            return v.args[0]
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return str(v)
        if isinstance(v, core.SInt):
            return int_str(v)
        if any(v is d for d in DTypes.values()):
            return str(np.dtype(v))
        return OpaqueStr()
    if cls is range:
        if all(isinstance(a, int) for a in args):
            return range(*args)
        if any(isinstance(a, (SReal, float)) or a is None for a in args):
            raise PyRaise(TypeError)
        lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
        return SymRange(lo, hi, st)
    if cls is enumerate:
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        it = ip.iteration(args[0])
        if isinstance(it, SymIter):
            return SymIter(it.n, lambda k: (k + start if not (isinstance(start, int) and start == 0) else k, it.get(k)))
        return SymList([(i + start, v) for i, v in enumerate(it)])
    if cls is zip:
        its = [ip.iteration(a) for a in args]
        if not any(isinstance(i, SymIter) for i in its):
            return SymList([tuple(p) for p in zip(*its)])
        ns = [i.n if isinstance(i, SymIter) else len(i) for i in its]
        gets = [i.get if isinstance(i, SymIter) else (lambda k, i=i: SymList(i).getitem(k)) for i in its]
        n = ns[0]
        for m in ns[1:]:
            if dims_equal(n, m):
                continue
            n = simp_int(z3.If(T(n) <= T(m), T(n), T(m)))
        return SymIter(n, lambda k: tuple(g(k) for g in gets))
    if cls is map:
        its = ip.concrete_iter(args[1])
        return SymList([ip.call(args[0], [x]) for x in its])
    if cls is filter:
        its = ip.concrete_iter(args[1])
        return SymList([x for x in its if ip.truth(ip.call(args[0], [x]))])
    if cls is reversed:
        v = args[0]
        it = ip.iteration(v)
        if isinstance(it, SymIter):
            n = it.n
            return SymIter(n, lambda k: it.get(simp_int(T(n) - 1 - T(k))))
        return SymList(list(reversed(it)))
    if cls is itertools.chain:
        return _chain(*args)
    if cls is itertools.product:
        return _product(*args, **kw)
    if cls is type:
        return pytype(args[0])
    if cls is object:
        return Obj(object)
    if cls is slice:
        return slice(*args)
    if cls is np.ndarray:
        raise Unsupported('ndarray()')
    if cls in (np.float64,):
        return construct(ip, float, args, kw)
    if issubclass(cls, BaseException):
        return ExcVal(cls, args)
    q = cls.__name__
    if q in ip.uses:
        ip.used_contracts.add(q)
        return ip.uses[q](*args, **kw)
    if cls.__module__.startswith('openmdao'):
        if issubclass(cls, (OrderedDict, dict)):
            raise Unsupported('construct dict subclass %s' % q)
        if issubclass(cls, tuple) and hasattr(cls, '_fields'):
            pass
        o = Obj(cls)
        o.closed = True
        c, init = ip.class_attr(cls, '__init__')
        if c is not None and c is not object:
            ip.call(BoundMethod(ip.wrapfn(init, c), o), list(args), kw)
        return o
    m = CONSTRUCT.get(cls)
    if m is not None:
        return m(*args, **kw)
    raise Unsupported('construction of %s' % cls)


CONSTRUCT = {}
TABLE_TYPES = {}


def class_attr(ip, cls, name):
    if cls is itertools.chain and name == 'from_iterable':
        return Model(_chain_fi, 'chain.from_iterable')
    if cls is dict and name == '__getitem__':
        return Model(lambda d, k: d.getitem(k))
    if cls is OrderedDict:
        return None
    return None


def module_attr(ip, mod, name):
    if not hasattr(mod, name):
        raise PyRaise(AttributeError, name)
    v = getattr(mod, name)
    return ip.global_value(v, name)


# ---- methods of values --------------------------------------------------------

def value_attr(ip, o, name):
    if isinstance(o, Arr):
        return arr_attr(ip, o, name)
    if isinstance(o, SymSet):
        return set_attr(ip, o, name)
    if isinstance(o, SymList):
        return list_attr(ip, o, name)
    if isinstance(o, PDict):
        return dict_attr(ip, o, name)
    if isinstance(o, (str, SStr)):
        return str_attr(ip, o, name)
    if isinstance(o, OpaqueStr):
        return Model(lambda *a, **k: OpaqueStr())
    if isinstance(o, np.finfo):
        return float(getattr(o, name))
    if isinstance(o, SComplex):
        if name == 'real':
            return o.re
        if name == 'imag':
            return o.im
    if isinstance(o, SNum):
        if name == 'real':
            return o
        if name == 'imag':
            return lift(0.0)
        if name == 'shape':
            raise PyRaise(AttributeError)
    if isinstance(o, ExcVal):
        if name == 'args':
            return tuple(o.args)
    if isinstance(o, (FuncRef,)):
        if name in ('__name__', '__doc__'):
            return getattr(o.node, 'name', 'lambda')
    if isinstance(o, slice) and name in ('start', 'stop', 'step'):
        return getattr(o, name)
    if isinstance(o, tuple) and type(o) is tuple:
        if name == 'index' or name == 'count':
            return list_attr(ip, SymList(list(o)), name)
        raise PyRaise(AttributeError, name)
    if o is None or isinstance(o, (int, float, bool)):
        if hasattr(o, name) and not callable(getattr(o, name)):
            return getattr(o, name)
        raise PyRaise(AttributeError, name)
    if isinstance(o, SOpaque):
        raise Unsupported('attribute %s of an opaque value' % name)
    if isinstance(o, ShapeTok):
        raise Unsupported('shape token attr')
    if isinstance(o, dict):
        return dict_attr(ip, ip_from(o), name)
    if isinstance(o, (set, frozenset)):
        return set_attr(ip, SymSet(list(o)), name)
    if isinstance(o, np.dtype) and name in ('type', 'kind', 'name', 'char'):
        return getattr(o, name)
    # a concrete object of the real program (module-level constants etc.)
    v = getattr(o, name, None)
    m = lookup_callable(v) if v is not None else None
    if m is not None:
        return m
    if hasattr(o, name) and isinstance(v, (int, float, str, bool, NoneType)):
        return v
    raise Unsupported('attribute %s of %r' % (name, type(o)))


def ip_from(o):
    from .interp import from_py
    return from_py(o)


def set_value_attr(ip, o, name, v):
    if isinstance(o, Arr) and name == 'shape':
        raise Unsupported('setting shape')
    if o is None:
        raise PyRaise(AttributeError)
    raise Unsupported('setattr on %r' % type(o))


def arr_getitem(ip, o, k):
    if o.tok is not None:
        raise Unsupported('indexing an array of opaque shape')
    return o.getitem(k)


class Flat(object):
    """a.flat / a.ravel() of an array whose flat order we can express"""


def flat_view(a):
    if a.ndim == 1:
        return a
    if a.ndim == 2 and isinstance(a.shape_[0], int) and a.shape_[0] == 1:
        # one row
        dims = []
        for d in a.dims:
            if d[0] == 'fix':
                dims.append(d)
            elif d[2] == 0:
                dims.append(('fix', d[1]))
            else:
                dims.append(('rng', d[1], 0))
        return Arr(a.buf, dims, (a.shape_[1],))
    return None


def flat_copy(a):
    v = flat_view(a)
    if v is not None:
        return v.snapshot()
    rd = a.content()
    if a.ndim == 0:
        return Arr.new((1,), lambda i: rd(), 'flat', a.kind)
    if a.ndim == 2:
        n, m = a.shape_
        if isinstance(m, int) and m == 1:
            return Arr.new((n,), lambda i: rd(i, z3.IntVal(0)), 'flat', a.kind)
        mt = T(m)
        if not eng().entails(mt > 0):
            raise Unsupported('flatten of a matrix with possibly zero columns')
        return Arr.new((simp_int(T(n) * mt),), lambda i: rd(i / mt, i % mt), 'flat', a.kind)
    raise Unsupported('flatten n-d')


def arr_attr(ip, a, name):
    if name == 'shape':
        if a.tok is not None:
            return a.tok
        return tuple(a.shape_)
    if name == 'size':
        return a.size()
    if name == 'ndim':
        if a.tok is not None:
            raise Unsupported('ndim of opaque shape')
        return a.ndim
    if name == 'T':
        return a.T_
    if name in ('flat',):
        if a.tok is not None:
            return _untok(a)
        v = flat_view(a)
        if v is None:
            return flat_copy_ro(a)
        return v
    if name == 'flatten':
        return Model(lambda *x: _untok(a).snapshot() if a.tok is not None else flat_copy(a))
    if name == 'ravel':
        if a.tok is not None:
            return Model(lambda *x: _untok(a))
        fv = flat_view(a)
        return Model(lambda *x: flat_copy(a) if fv is None else fv)
    if name == 'copy':
        return Model(lambda *x: a.snapshot())
    if name == 'real':
        return _npreal(a)
    if name == 'imag':
        return _npimag(a)
    if name == 'dot':
        return Model(lambda b: dot(a, as_arr(b)))
    if name == 'any':
        return Model(lambda: a.any_())
    if name == 'all':
        return Model(lambda: a.all_())
    if name == 'sum':
        return Model(lambda *x, **k: _npsum(a, *x, **k))
    if name == 'max':
        return Model(lambda *x, **k: _npmax(a, *x, **k))
    if name == 'min':
        return Model(lambda *x, **k: _npmin(a, *x, **k))
    if name == 'astype':
        return Model(lambda d, **k: _astype(a, d, True))
    if name == 'dtype':
        return DTypes[a.kind]
    if name == 'reshape':
        return Model(lambda *s: reshape(a, s[0] if len(s) == 1 else tuple(s)))
    if name == 'fill':
        return Model(lambda v: a.assign(v))
    if name == 'tolist':
        if a.ndim == 1 and isinstance(a.shape_[0], int):
            return Model(lambda: SymList([a.at(i) for i in range(a.shape_[0])]))
        raise Unsupported('tolist')
    if name == 'item':
        return Model(lambda: a.at(*([0] * a.ndim)))
    if name == 'transpose':
        return Model(lambda: a.T_)
    raise Unsupported('array attribute %s' % name)


DTypes = {'real': np.dtype(float), 'int': np.dtype(int), 'bool': np.dtype(bool), 'complex': np.dtype(complex)}


def _untok(a):
    r = Arr(a.buf, a.dims, a.shape_)
    return r


def flat_copy_ro(a):
    return flat_copy(a)


def reshape(a, shape):
    if isinstance(shape, SymList):
        shape = tuple(shape.items)
    if isinstance(shape, ShapeTok):
        f = a if a.ndim == 1 else flat_view(a)
        if f is None:
            raise Unsupported('reshape')
        if not dims_equal(f.shape_[0], shape.size):
            raise PyRaise(ValueError)
        r = Arr(f.buf, f.dims, f.shape_)
        r.tok = shape
        return r
    if isinstance(shape, (int, SInt)):
        shape = (shape,)
    if a.tok is not None:
        a = _untok(a)
    if len(shape) == 1:
        s = shape[0]
        f = flat_view(a)
        if f is None:
            f = flat_copy(a)
        if isinstance(s, int) and s == -1:
            return f
        if not dims_equal(f.shape_[0], s):
            raise PyRaise(ValueError)
        return Arr(f.buf, f.dims, (s,))
    if len(shape) == 0:
        if a.ndim == 0:
            return a
        if a.ndim == 1:
            if not dims_equal(a.shape_[0], 1):
                raise PyRaise(ValueError)
            return Arr(a.buf, tuple(('fix', T(d[1])) if d[0] == 'rng' else d for d in a.dims), ())
    if len(shape) == 2 and a.ndim == 1:
        n, m = shape
        if isinstance(n, int) and n == 1:
            if not (isinstance(m, int) and m == -1) and not dims_equal(a.shape_[0], m):
                raise PyRaise(ValueError)
            return _newaxis_row(a)
        if isinstance(m, int) and m == 1:
            if not (isinstance(n, int) and n == -1) and not dims_equal(a.shape_[0], n):
                raise PyRaise(ValueError)
            dims = a.dims
            return Arr(a.buf, dims, (a.shape_[0], 1))
        nt, mt = T(n), T(m)
        if not eng().must(nt * mt == T(a.shape_[0])):
            raise PyRaise(ValueError)
        rd = a.content()
        return Arr.new((n, m), lambda i, j: rd(i * mt + j), 'reshape', a.kind)   # read-only use
    if len(shape) == 2 and a.ndim == 2 and all(same_term(x, y) for x, y in zip(shape, a.shape_)):
        return a
    if a.ndim == 0 and all(isinstance(d, int) and d in (1, -1) for d in shape):
        el = a.at()
        return Arr.new((1,) * len(shape), lambda *ix: el, 'reshape', a.kind)
    raise Unsupported('reshape')


@reg(np.reshape)
def _npreshape(a, shape):
    return reshape(as_arr(a), shape)


def list_attr(ip, o, name):
    if name == 'append':
        return Model(o.append)
    if name == 'extend':
        def ext(x):
            for v in ip.concrete_iter(x):
                o.append(v)
        return Model(ext)
    if name == 'sort' and o.items is not None:
        def srt(**k):
            eng().note_write(o, 'list')
            o.items = list(_sorted(o, **k).items)
        return Model(srt)
    if name == 'index':
        def index(v):
            if o.items is None:
                raise Unsupported('index in symbolic list')
            for i, x in enumerate(o.items):
                if ip.truth(ip.eq(x, v)):
                    return i
            raise PyRaise(ValueError)
        return Model(index)
    if name == 'pop':
        def pop(i=-1):
            eng().note_write(o, 'list')
            if o.items is None:
                raise Unsupported('pop')
            if not o.items:
                raise PyRaise(IndexError)
            return o.items.pop(core._cint(i))
        return Model(pop)
    if name == 'remove':
        def remove(v):
            for i, x in enumerate(o.items):
                if ip.truth(ip.eq(x, v)):
                    eng().note_write(o, 'list')
                    o.items.pop(i)
                    return
            raise PyRaise(ValueError)
        return Model(remove)
    if name == 'insert':
        def insert(i, v):
            eng().note_write(o, 'list')
            o.items.insert(core._cint(i), v)
        return Model(insert)
    if name == 'reverse':
        def rev():
            eng().note_write(o, 'list')
            o.items.reverse()
        return Model(rev)
    if name == 'count':
        return Model(lambda v: sum(1 for x in o.items if ip.truth(ip.eq(x, v))))
    if name == 'next' or name == '__next__':
        raise Unsupported('next')
    if name in ('keys', 'items', 'values', 'get', 'shape', 'size', 'flatten', 'startswith', 'split', 'flat'):
        raise PyRaise(AttributeError, name)
    raise Unsupported('list attribute %s' % name)


@reg(next)
def _next(v, *d):
    if isinstance(v, GenObj):
        v = v.next()
    if isinstance(v, SymList) and v.items is not None:
        if not v.items:
            if d:
                return d[0]
            raise PyRaise(StopIteration)
        eng().note_write(v, 'list')
        return v.items.pop(0)
    raise Unsupported('next')


def set_attr(ip, o, name):
    def upd(*xs):
        for x in xs:
            for v in ip.concrete_iter(x):
                o.add(v)

    def union(*xs):
        s = SymSet(list(o.items))
        for x in xs:
            for v in ip.concrete_iter(x):
                s.add(v)
        return s

    def inter(x):
        xs = SymSet(ip.concrete_iter(x))
        return SymSet([v for v in o.items if xs.has(v)])

    def diff(x):
        xs = SymSet(ip.concrete_iter(x))
        return SymSet([v for v in o.items if not xs.has(v)])

    def remove(v):
        if not o.discard(v):
            raise PyRaise(KeyError)
    m = {'add': o.add, 'update': upd, 'union': union, 'intersection': inter, 'difference': diff,
         'discard': o.discard, 'remove': remove, 'copy': lambda: SymSet(list(o.items)),
         'issubset': lambda x: all(SymSet(ip.concrete_iter(x)).has(v) for v in o.items)}
    if name in m:
        return Model(m[name])
    raise Unsupported('set attribute %s' % name)


def dict_attr(ip, d, name):
    if name in ('items', 'iteritems'):
        return Model(lambda: _items(d))
    if name in ('keys', 'iterkeys'):
        return Model(lambda: _keys(d))
    if name in ('values', 'itervalues'):
        return Model(lambda: _values(d))
    if name == 'get':
        return Model(lambda k, dflt=None: d.get(k, dflt))
    if name == 'setdefault':
        def sd(k, v=None):
            e = d.find(k)
            if e is not None and e[1]:
                return e[2]
            d.setitem(k, v)
            return v
        return Model(sd)
    if name == 'pop':
        def pop(k, *dflt):
            e = d.find(k)
            if e is None or not e[1]:
                if dflt:
                    return dflt[0]
                raise PyRaise(KeyError)
            v = e[2]
            d.delitem(k)
            return v
        return Model(pop)
    if name == 'update':
        def update(*o, **kw):
            for x in o:
                if isinstance(x, PDict):
                    for k, v in x.items():
                        d.setitem(k, v)
                else:
                    for p in ip.concrete_iter(x):
                        k, v = ip.concrete_iter(p)
                        d.setitem(k, v)
            for k, v in kw.items():
                d.setitem(k, v)
        return Model(update)
    if name == 'copy':
        return Model(d.copy)
    if name == 'clear':
        return Model(d.clear)
    if name == '__contains__':
        return Model(d.has)
    if name == '__getitem__':
        return Model(d.getitem)
    if name == 'has_key':
        raise PyRaise(AttributeError)
    raise Unsupported('dict attribute %s' % name)


def str_attr(ip, s, name):
    conc = isinstance(s, str)

    def callm(*a, **k):
        sym = (not conc) or any(is_sym(x) or isinstance(x, OpaqueStr) for x in a)
        if name == 'join':
            xs = ip.concrete_iter(a[0])
            if any(isinstance(x, OpaqueStr) for x in xs):
                return OpaqueStr()
            if any(is_sym(x) for x in xs) or not conc:
                r = None
                for x in xs:
                    r = lift(x) if r is None else r + s + x
                return r if r is not None else ''
            for x in xs:
                if not isinstance(x, str):
                    raise PyRaise(TypeError)
            return s.join(xs)
        if name == 'format':
            if any(not isinstance(x, (str, int, float)) for x in list(a) + list(k.values())) or not conc:
                return OpaqueStr()
            return s.format(*a, **k)
        if not sym:
            a2 = tuple(tuple(x.items) if isinstance(x, SymList) else x for x in a)
            r = getattr(s, name)(*a2, **k)
            if isinstance(r, list):
                return SymList(r)
            return r
        ss = lift(s)
        if name == 'startswith':
            return ss.startswith(*a)
        if name == 'endswith':
            return ss.endswith(*a)
        if name == 'find':
            return ss.find(*a)
        if name == 'split' and len(a) == 1 and isinstance(s, core.SPath) and isinstance(a[0], str) and a[0] == '.':
            return SymList(list(s.parts))
        if name == 'split' and len(a) == 2 and a[1] == 1:
            sep = lift(a[0])
            e = eng()
            if e.branch(z3.Contains(ss.t, sep.t)):
                h, t = e.fresh_str('head'), e.fresh_str('tail')
                e.assume_fact(ss.t == z3.Concat(h.t, sep.t, t.t))
                e.assume_fact(z3.Not(z3.Contains(h.t, sep.t)))
                return SymList([h, t])
            return SymList([ss])
        if name == 'rsplit' and len(a) == 2 and a[1] == 1:
            e = eng()
            sep = lift(a[0])
            if e.branch(z3.Contains(ss.t, sep.t)):
                h, t = e.fresh_str('head'), e.fresh_str('tail')
                e.assume_fact(ss.t == z3.Concat(h.t, sep.t, t.t))
                e.assume_fact(z3.Not(z3.Contains(t.t, sep.t)))
                return SymList([h, t])
            return SymList([ss])
        if name == 'partition':
            sep = lift(a[0])
            if eng().branch(z3.Contains(ss.t, sep.t)):
                i = z3.IndexOf(ss.t, sep.t, z3.IntVal(0))
                n, L = z3.Length(ss.t), z3.Length(sep.t)
                return (SStr(z3.SubString(ss.t, 0, i)), sep, SStr(z3.SubString(ss.t, i + L, n - i - L)))
            return (ss, '', '')
        if name in ('replace',) and len(a) == 2:
            raise Unsupported('replace (all occurrences)')
        if name == '__len__':
            return ss.length()
        raise Unsupported('string method %s' % name)
    if name in ('real', 'shape', 'flat', 'size', 'items', 'get', 'append'):
        raise PyRaise(AttributeError, name)
    return Model(callm, 'str.' + name)


def int_str(v):
    """the decimal text of a mathematical integer"""
    t = v.t
    if eng().entails(t >= 0):
        return core.SStr(z3.IntToStr(t))
    return core.SStr(z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-t))))


def str_format(ip, a, b):
    if isinstance(a, OpaqueStr) or isinstance(a, SStr):
        return OpaqueStr()
    bs = b if isinstance(b, tuple) else (b,)
    if all(isinstance(x, (str, int, float, bool, NoneType)) for x in bs):
        try:
            return a % b
        except TypeError:
            raise PyRaise(TypeError)
    import re as _re
    parts = _re.split('%[sd]', a)
    kinds = _re.findall('%[sd]', a)
    if len(kinds) == len(bs) and '%' not in ''.join(parts) and all(isinstance(x, (core.SInt, int)) and not isinstance(x, bool) or k == '%s' for x, k in zip(bs, kinds)):
        bs = tuple(int_str(x) if isinstance(x, core.SInt) else str(x) if isinstance(x, int) and not isinstance(x, bool) else x for x in bs)
    else:
        return OpaqueStr()
    if len(parts) == len(bs) + 1 and all(isinstance(x, (str, SStr)) for x in bs) and '%' not in ''.join(parts):
        r = lift(parts[0]) if parts[0] else None
        for x, p in zip(bs, parts[1:]):
            r = lift(x) if r is None else r + x
            if p:
                r = r + p
        return r
    return OpaqueStr()


def list_binop(ip, op, a, b):
    import ast as _a
    if isinstance(op, _a.Add):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return (as_arr(a) + as_arr(b))
        if not (isinstance(a, SymList) and isinstance(b, SymList)):
            raise PyRaise(TypeError)
        if a.items is not None and b.items is not None:
            return SymList(a.items + b.items)
        r = a.snapshot()
        if b.items is not None and r.items is None:
            for x in b.items:
                r.append(x)
            return r
        raise Unsupported('list concatenation')
    if isinstance(op, _a.Mult):
        l, n = (a, b) if isinstance(a, SymList) else (b, a)
        if isinstance(l, Arr) or isinstance(n, Arr):
            x, y = as_arr(a), as_arr(b)
            return x * y
        if isinstance(n, int) and l.items is not None:
            return SymList(l.items * n)
        if isinstance(n, SInt) and l.items is not None and len(l.items) == 1:
            v = l.items[0]
            return SymList(None, simp_int(z3.If(n.t > 0, n.t, z3.IntVal(0))), lambda i: lift(v), kind_of(lift(v)))
        raise Unsupported('list repetition')
    if isinstance(op, _a.Sub) and isinstance(a, SymSet):
        return set_attr(ip, a, 'difference').f(b)
    if isinstance(op, _a.BitAnd) and isinstance(a, SymSet):
        return set_attr(ip, a, 'intersection').f(b)
    if isinstance(op, _a.BitOr) and isinstance(a, SymSet):
        return set_attr(ip, a, 'union').f(b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, SymList):
            a = as_arr(a)
        if isinstance(b, SymList):
            b = as_arr(b)
        return ip.binop(op, a, b)
    raise PyRaise(TypeError)


def value_getitem(ip, o, k):
    raise Unsupported('item of %r' % type(o))


def value_setitem(ip, o, k, v):
    raise Unsupported('set item of %r' % type(o))
