"""Contracts and the two contexts (symbolic / concrete) they are evaluated in."""
import functools
import importlib
import inspect
import itertools
import math
import random
import signal
import types
from collections import OrderedDict
from fractions import Fraction
import numpy as np
from .core import *
from . import core
from .objs import *
from .interp import Interp, LoopSpec, from_py, in_repo, load_ast
from . import models
from .models import ShapeTok


class Reject(Exception):
    """the concrete input does not meet the precondition"""


class Hang(Exception):
    pass


class NS(object):
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return 'NS(%s)' % ', '.join(sorted(self.__dict__))


class Outcome(object):
    def __init__(self, value=None, exc=None, excval=None):
        self.value = value
        self.exc = exc
        self.excval = excval

    def raised(self, *cls):
        return self.exc is not None and issubclass(self.exc, cls if cls else BaseException)

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return 'raised %s' % self.exc.__name__ if self.exc else 'returned %r' % (self.value,)


class Contract(object):
    prop = None
    target = None           # 'module:Qual.name'
    cases = (None,)
    loops = {}
    rac = 25                # concrete samples per case (quick)
    bound = 2               # K of the bounded fallback
    note = ''
    max_paths = 3000
    timeout_ms = 8000
    bounded_only = False    # True: never counted as proved
    weight = 1              # scheduling: heavier first
    program = None          # staticmethod: a client program (in the contract file) whose calls into the
                            # repository are executed instead of a single call of the target

    @property
    def name(self):
        return type(self).__name__

    def build(self, c, case):
        """returns NS with .args, .kwargs, and whatever ensures needs; optionally .fn"""
        raise NotImplementedError

    def ensures(self, c, S, out):
        raise NotImplementedError

    def uses(self, c, S):
        return {}

    def loopspecs(self, c, S):
        return dict(self.loops)

    def overrides(self, c, S):
        return {}

    def patches(self, c, S):
        """concrete mode: list of (object, attribute, replacement)"""
        return []


class Fail(Exception):
    pass


class Bounded(object):
    """a bounded stand-in: sampled runs of the real code against an independent oracle"""
    prop = None
    covers = ''             # the functions this stands in for
    samples = 200
    parts = 2
    budget = 60             # seconds per part
    limit = 30              # seconds per sample
    weight = 2

    @property
    def name(self):
        return type(self).__name__

    def sample(self, t, rng):
        raise NotImplementedError

    def known(self, failure, t):
        return None


def resolve(target):
    mod, q = target.split(':')
    m = importlib.import_module(mod)
    o = m
    cls = None
    for p in q.split('.'):
        cls = o if isinstance(o, type) else cls
        if isinstance(o, type):
            o = next((k.__dict__[p] for k in o.__mro__ if p in k.__dict__), None)
            if o is None:
                raise AttributeError(target)
        else:
            o = getattr(o, p)
    if isinstance(o, property):
        o = o.fget
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    w = getattr(o, '__wrapped__', None)
    if w is not None:
        o = w
    return o, cls


# ------------------------------------------------------------------ symbolic

class SymCtx(object):
    sym = True

    def __init__(self, engine, ip=None):
        self.e = engine
        self.roots = []
        self.K = engine.bounded

    # values
    def real(self, name, nonzero=False, nan=False, lo=None, hi=None, pool=None):
        v = self.e.fresh_real(name, nan)
        if nonzero:
            self.e.assume_fact(v.t != 0)
        if lo is not None:
            self.e.assume_fact(v.t >= core.num(lo))
        if hi is not None:
            self.e.assume_fact(v.t <= core.num(hi))
        return v

    def int(self, name, lo=None, hi=None, small=3):
        if self.K is not None and lo is not None and small is not None:
            # bounded: a concrete value
            top = lo + self.K if hi is None or is_sym(hi) else min(hi, lo + self.K)
            v = self.e.fresh_int(name)
            for x in range(lo, top + 1):
                if self.e.branch(v.t == x):
                    if hi is not None and is_sym(hi):
                        self.e.assume(hi >= x)
                    return x
            self.e.assumptions.add('bounded: sizes at most %d' % self.K)
            raise PathEnd()
        v = self.e.fresh_int(name)
        if lo is not None:
            self.e.assume_fact(v.t >= T(lo))
        if hi is not None:
            self.e.assume_fact(v.t <= T(hi))
        return v

    def idx(self, name, n):
        """an integer with 0 <= i < n"""
        v = self.e.fresh_int(name)
        self.e.assume(And(v >= 0, v < n))
        return v

    def bool(self, name):
        v = self.e.fresh_bool(name)
        return v

    def flag(self, name):
        """a boolean decided now (a fork)"""
        return self.e.choose(2) == 1

    def choice(self, name, opts):
        return opts[self.e.choose(len(opts))]

    def str(self, name, pool=('a',)):
        return self.e.fresh_str(name)

    def array(self, name, shape, kind='real', label=None, lo=None, hi=None, nonzero=False, layout=False):
        if not isinstance(shape, tuple):
            shape = (shape,)
        nm = self.e.fresh_name(name)
        a = Arr.new(shape, fresh_content(nm, len(shape), kind), nm, kind)
        if lo is not None or hi is not None or nonzero:
            ks = [z3.Int('%s.i%d' % (nm, d)) for d in range(len(shape))]
            rng = z3.And([z3.And(0 <= k, k < T(s)) for k, s in zip(ks, shape)])
            el = a.at(*[SInt(k) for k in ks])
            cs = []
            if lo is not None:
                cs.append(el.t >= lift(lo).t if kind == 'int' else core._toreal(el).t >= core._toreal(lift(lo)).t)
            if hi is not None:
                cs.append(el.t <= lift(hi).t if kind == 'int' else core._toreal(el).t <= core._toreal(lift(hi)).t)
            if nonzero:
                cs.append(el.t != 0)
            self.e.assume_fact(z3.ForAll(ks, z3.Implies(rng, z3.And(cs))))
        self.roots.append(a)
        return a

    def index_array(self, name, n, size, distinct=False):
        """integer array of length n with entries in [0, size)"""
        a = self.array(name, n, 'int')
        k = z3.Int(a.buf.label + '.k')
        self.e.assume_fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < T(n)),
                           z3.And(a.at(SInt(k)).t >= 0, a.at(SInt(k)).t < T(size)))))
        if distinct:
            k2 = z3.Int(a.buf.label + '.k2')
            self.e.assume_fact(z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < T(n)),
                               a.at(SInt(k)).t != a.at(SInt(k2)).t)))
        return a

    def shaped(self, name, size, kind='real'):
        """an array whose shape is opaque (any number of dimensions) with `size` elements"""
        a = self.array(name, size, kind)
        a.tok = ShapeTok(name + '.shape', size)
        return a

    def opaque(self, name, info=None):
        return SOpaque(z3.Const(self.e.fresh_name(name), core.VSORT), info)

    def func(self, name, arity=1, kind='real', argkind='int'):
        """an arbitrary mathematical function"""
        nm = self.e.fresh_name(name)
        srt = {'real': R, 'int': I, 'bool': B}
        f = z3.Function(nm, *([srt[argkind]] * arity + [srt[kind]]))
        w = {'real': SReal, 'int': SInt, 'bool': SBool}[kind]

        def g(*xs):
            ts = []
            for x in xs:
                x = lift(x)
                if argkind == 'real':
                    x = core._toreal(x)
                ts.append(x.t)
            return w(f(*ts))
        return g

    # structure
    def obj(self, cls, **attrs):
        o = Obj(cls, attrs)
        self.roots.append(o)
        return o

    def dict(self, pairs=(), label='dict', cls=dict):
        d = PDict(list(pairs), label=label, pycls=cls)
        self.roots.append(d)
        return d

    def odict(self, pairs=(), label='odict'):
        return self.dict(pairs, label, OrderedDict)

    def list(self, items):
        l = core.SymList(list(items))
        self.roots.append(l)
        return l

    def symlist(self, name, n, kind='real'):
        """a python list of n arbitrary numbers"""
        nm = self.e.fresh_name(name)
        l = core.SymList(None, n, fresh_content(nm, 1, kind), kind, nm)
        if isinstance(n, int):
            l = core.SymList([l.get_(z3.IntVal(i)) for i in range(n)], kind=kind, label=nm)
        self.roots.append(l)
        return l

    def set(self, items):
        return models.mkset(list(items))

    def model(self, f, name='stub'):
        return Model(f, name)

    def method(self, f):
        return Model(described(f, Unsupported))

    # logic
    def assume(self, *fs):
        for f in fs:
            self.e.assume(f)

    def forall(self, lo, hi, f, *more):
        nm = self.e.fresh_name('fa')
        i = z3.Int(nm)
        saved, self.e.in_spec = self.e.in_spec, True
        try:
            b = f(SInt(i))
        finally:
            self.e.in_spec = saved
        return SBool(z3.ForAll([i], z3.Implies(z3.And(T(lo) <= i, i < T(hi)), core._sb(b))))

    def induct(self, name, n, f):
        """lemma: f(k) for all 0 <= k < n, by induction (base and step are obligations)"""
        self.check('lemma %s, base' % name, Implies(0 < lift(n), lambda: f(0)))
        self.check('lemma %s, step' % name, self.forall(0, n - 1, lambda k: Implies(f(k), f(k + 1))))
        self.e.assume_fact(core._sb(self.forall(0, n, f)))

    def exists(self, lo, hi, f):
        i = z3.Int(self.e.fresh_name('ex'))
        saved, self.e.in_spec = self.e.in_spec, True
        try:
            b = f(SInt(i))
        finally:
            self.e.in_spec = saved
        return SBool(z3.Exists([i], z3.And(T(lo) <= i, i < T(hi), core._sb(b))))

    def eq(self, a, b):
        return _symeq(a, b, self)

    def at(self, a, *ix):
        if isinstance(a, core.SymList) and a.items is not None and isinstance(ix[0], SInt) and any(not isinstance(v, (SV, numbers.Number, Arr)) for v in a.items):
            # (one path for each item)
            for q, v in enumerate(a.items):
                if ix[0] == q:
                    return v
            raise PyRaise(IndexError)
        if isinstance(a, (Arr, core.SymList)):
            return a.at(*ix)
        if isinstance(a, (tuple, list)):
            return a[ix[0]]
        if isinstance(a, (SV, numbers.Number)):
            return a
        raise Unsupported('at(%r)' % type(a))

    def len(self, a):
        if isinstance(a, Arr):
            if a.ndim == 0:
                return 1
            return a.shape_[0]
        if isinstance(a, core.SymList):
            return a.n
        if isinstance(a, (SV, numbers.Number)):
            return 1
        if isinstance(a, PDict):
            return models._len(a)
        return len(a)

    def size(self, a):
        return a.size() if isinstance(a, Arr) else self.len(a)

    def snap(self, a):
        if isinstance(a, (Arr, core.SymList, PDict)):
            return a.snapshot()
        return a

    def ite(self, c, a, b):
        return Ite(c, a, b)

    def attr(self, o, n):
        return o.attrs.get(n)

    def bound(self, o, n):
        """the method n of o"""
        return models.CUR[0].getattr(o, n)

    def hasattr(self, o, n):
        return n in o.attrs

    def item(self, d, k):
        return d.getitem(k)

    def put(self, d, k, v):
        d.setitem(k, v)

    def has(self, d, k):
        if isinstance(d, core.SymList):
            return models.CUR[0].contains(d, k)
        return d.has(k)

    def keys(self, d):
        return list(d.keys())

    def keys_(self, l):
        """the elements of a list of known length"""
        return list(l.items) if isinstance(l, core.SymList) else list(l)

    def isnan(self, v):
        return core.isnan(lift(v))

    def istr(self, i):
        """the decimal text of an integer"""
        return models.int_str(i) if is_sym(i) else str(i)

    def norm(self, a):
        return models._norm(a)

    def put_attr(self, o, n, v):
        self.e.note_write(o, n)
        o.attrs[n] = v

    def append(self, l, v):
        l.append(v)

    def throw(self, cls, msg=''):
        raise PyRaise(cls, ExcVal(cls, (msg,)))

    def call(self, f, *args):
        return models.CUR[0].call(f, list(args))

    def isarray(self, v):
        return isinstance(v, Arr)

    def isfloat(self, v):
        return isinstance(v, (float, SReal)) or isinstance(v, (int, SInt)) and not isinstance(v, (bool, SBool))

    def isnone(self, v):
        return v is None

    def ndim(self, a):
        return a.ndim if isinstance(a, Arr) else 0

    def dim(self, a, d):
        return a.shape_[d]

    def same(self, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.buf is b.buf
        if isinstance(a, SOpaque) and isinstance(b, SOpaque):
            return a == b
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return a.self_ is b.self_ and a.fn.qual == b.fn.qual
        return a is b

    def shares(self, a, b):
        """array a is a view of the same storage as b (element for element)"""
        return isinstance(a, Arr) and isinstance(b, Arr) and a.buf is b.buf

    def flat(self, a):
        """1-d reader of an array in row-major order"""
        if isinstance(a, Arr):
            if a.ndim == 1:
                return a
            return models.flat_copy(a)
        if isinstance(a, core.SymList):
            return as_arr(a)
        return as_arr([a])

    def path(self, name, n, pool=('a', 'ab', 'b')):
        """(a dotted path of n parts, its parts); no part contains a dot"""
        ps = [self.str('%s%d' % (name, k), pool) for k in range(n)]
        for p in ps:
            self.e.assume_fact(z3.And(z3.Not(z3.Contains(p.t, z3.StringVal('.'))), z3.Length(p.t) > 0))
        return (core.SPath(ps) if n else ''), ps

    def contains(self, s, sub):
        return lift(s).contains(sub)

    # linear algebra vocabulary
    def dot(self, m, x):
        """m x (uninterpreted for symbolic sizes, congruent in its arguments)"""
        return models.dot(as_arr(m), as_arr(x))

    def T(self, m):
        return m.T_

    def arr(self, n, f, kind='real'):
        """the array of f(0), ..., f(n-1)"""
        return Arr.new((n,), lambda i: core._toreal(lift(f(SInt(i)))) if kind == 'real' else f(SInt(i)), 'spec', kind)

    def integral(self, x):
        if isinstance(x, (int, SInt)):
            return True
        # an arbitrary predicate that holds for the integers: what is proved of it is proved of being an integer
        w = z3.Function('whole', z3.RealSort(), z3.BoolSort())
        i = z3.Int('whole_i')
        if not getattr(self, '_whole', False):
            self._whole = True
            self.e.assume_fact(z3.ForAll([i], w(z3.ToReal(i)), patterns=[w(z3.ToReal(i))]))
        return SBool(w(core._toreal(lift(x)).t))

    def toreal(self, a):
        """the same numbers as floats"""
        rd = a.content()
        return core.Arr.new(a.shape_, lambda *ix: core._toreal(rd(*ix)), 'float', 'real')

    def permute(self, l):
        """in-place permutation of a list of numbers (trusted behaviour of random.shuffle)"""
        n = self.len(l)
        self.e.note_write(l, 'list')
        self.e.assumptions.add('random.shuffle permutes its argument')
        g = l.get_ if l.items is None else (lambda i, items=list(l.items): models.core._select(items, i))
        nm = self.e.fresh_name('perm')
        p, q = z3.Function(nm, z3.IntSort(), z3.IntSort()), z3.Function(nm + '_inv', z3.IntSort(), z3.IntSort())
        i = z3.Int(nm + '_i')
        self.e.assume_fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < T(n)), z3.And(0 <= p(i), p(i) < T(n), q(p(i)) == i))))
        l.items, l.n_, l.get_ = None, n, lambda i: g(p(T(i)))

    def grid(self, n, k, f):
        """an array of ints with given elements"""
        g = [[f(i, j) for j in range(k)] for i in range(n)]
        return models.grid(g, n, k)

    def part(self, a, start, n):
        rd = a.content()
        return Arr.new((n,), lambda i: rd(T(start + SInt(i))), 'part', a.kind)

    def scatter(self, size, n, idx, val):
        """q -> the sum of val(k) over the k < n with idx(k) == q"""
        f = models.scatter_sum(n, lambda k: lift(idx(SInt(k))), lambda k: core._toreal(lift(val(SInt(k)))))
        return lambda q: f(T(q))

    def unique_scatter(self, f, size, n, idx, val, hit):
        """lemma: with distinct idx, f(idx(k)) == val(k), and f(q) == 0 for a q that is no idx(k)"""
        p = self.e.fresh_real('psum')
        q = self.idx('lemma_q', size)
        k = self.idx('lemma_k', n)

        def claim(m, v):
            return And(Or(v == 0.0, self.exists(0, m, lambda i: idx(i) == q)), self.forall(0, m, lambda i: Implies(idx(i) == q, v == val(i))))
        self.check('lemma on sums over a distinct index, base', claim(0, lift(0.0)))
        self.check('lemma on sums over a distinct index, step', Implies(claim(k, p), claim(k + 1, p + Ite(idx(k) == q, val(k), 0.0))))
        self.e.assume_fact(core._sb(self.forall(0, n, lambda i: f(idx(i)) == val(i))))
        self.e.assume_fact(core._sb(self.forall(0, size, lambda j: Or(hit(j), f(j) == 0.0))))

    def index(self, name, f):
        return f


def _symeq(a, b, c):
    if isinstance(a, core.SymList):
        a = as_arr(a)
    if isinstance(b, core.SymList):
        b = as_arr(b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim:
            return False
        fs = [SBool(T(x) == T(y)) for x, y in zip(a.shape_, b.shape_)]
        ks = [z3.Int(eng().fresh_name('eq')) for _ in a.shape_]
        el = core._sb(_sceq(a.at(*[SInt(k) for k in ks]), b.at(*[SInt(k) for k in ks])))
        rng = z3.And([z3.And(0 <= k, k < T(s)) for k, s in zip(ks, a.shape_)] + [z3.BoolVal(True)])
        fs.append(SBool(z3.ForAll(ks, z3.Implies(rng, el)) if ks else el))
        return And(fs)
    if isinstance(a, Arr) and a.ndim == 0:
        return _sceq(a.at(), b)
    if isinstance(b, Arr) and b.ndim == 0:
        return _sceq(a, b.at())
    if isinstance(a, Arr) or isinstance(b, Arr):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And([_symeq(x, y, c) for x, y in zip(a, b)])
    return _sceq(a, b)


def _sceq(a, b):
    if a is None or b is None:
        return a is b
    if not is_sym(a) and is_sym(b):
        a, b = b, a
    r = a == b
    # nan compares equal to nan in specifications
    if isinstance(a, SReal) and isinstance(b, SReal) and (a.nan is not None or b.nan is not None):
        na = a.nan if a.nan is not None else z3.BoolVal(False)
        nb = b.nan if b.nan is not None else z3.BoolVal(False)
        return SBool(z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), a.t == b.t)))
    return r


# ------------------------------------------------------------------ concrete

class RandSource(object):
    """values drawn at random (small dyadic rationals, so float arithmetic is near exact)"""
    def __init__(self, rng):
        self.rng = rng

    def real(self, name, nan):
        r = self.rng
        if nan and r.random() < 0.15:
            return float('nan')
        x = r.random()
        if x < 0.12:
            return 0.0
        if x < 0.2:
            return float(r.choice([1, -1]))
        return r.randint(-40, 40) / 4.0

    def int(self, name, lo, hi):
        lo = -5 if lo is None else lo
        hi = lo + 4 if hi is None else hi
        if hi < lo:
            raise Reject()
        return self.rng.randint(lo, min(hi, lo + 6))

    def bool(self, name):
        return self.rng.random() < 0.5

    def choose(self, n):
        return self.rng.randrange(n)

    def func(self, name, args):
        h = random.Random(repr((name, args, self.rng_seed()))).randint(-20, 20)
        return h / 4.0

    def rng_seed(self):
        if not hasattr(self, '_s'):
            self._s = self.rng.random()
        return self._s

    def string(self, name, pool):
        return self.rng.choice(list(pool))

    def elem(self, name, ix, kind, lo, hi, nonzero):
        for _ in range(50):
            if kind == 'int':
                v = self.rng.randint(-5 if lo is None else lo, (5 if lo is None else lo + 5) if hi is None else hi)
            elif kind == 'bool':
                v = self.bool(name)
            elif kind == 'complex':
                v = complex(self.real(name, False), self.real(name, False))
            else:
                v = self.real(name, False)
                if lo is not None and hi is not None and not lo <= v <= hi:
                    v = lo + (hi - lo) * self.rng.randint(0, 8) / 8.0
                elif lo is not None and v < lo:
                    v = lo + abs(v)
                elif hi is not None and v > hi:
                    v = hi - abs(v)
            if not (nonzero and v == 0):
                return v
        raise Reject()


class ModelSource(object):
    """values taken from a solver model"""
    def __init__(self, model, path):
        self.m = model
        self.path = [d for d in path if d is not True and d is not False]
        self.counter = {}

    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s#%d' % (base, n) if n else base

    def _val(self, t):
        v = self.m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_string_value(v):
            return v.as_string()
        raise Reject()

    def real(self, name, nan):
        n = self.name(name)
        if nan and self._val(z3.Bool(n + '.nan')):
            return float('nan')
        return self._val(z3.Real(n))

    def int(self, name, lo, hi):
        return self._val(z3.Int(self.name(name)))

    def bool(self, name):
        return self._val(z3.Bool(self.name(name)))

    def string(self, name, pool):
        return self._val(z3.String(self.name(name)))

    def choose(self, n):
        # free choices are recorded as plain integers on the path
        if not self.path:
            raise Reject()
        d = self.path.pop(0)
        return d

    def begin_array(self, name):
        self._an = self.name(name)

    def elem(self, name, ix, kind, lo, hi, nonzero):
        n = self._an
        srt = {'real': R, 'int': I, 'bool': B}
        if kind == 'complex':
            f = z3.Function(n + '.re', *([I] * len(ix) + [R]))
            g = z3.Function(n + '.im', *([I] * len(ix) + [R]))
            return complex(self._val(f(*ix)), self._val(g(*ix)))
        f = z3.Function(n, *([I] * len(ix) + [srt[kind]]))
        return self._val(f(*ix))

    def func(self, name, args):
        ts = [z3.RealVal(Fraction(a)) if isinstance(a, float) else z3.IntVal(a) for a in args]
        f = z3.Function(name, *([t.sort() for t in ts] + [R]))
        return self._val(f(*ts))


def relayout(a, layout):
    """the same array in another memory layout"""
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided' and a.ndim:
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = b[tuple(slice(0, 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v
    return a


class ConcCtx(object):
    sym = False
    K = None

    def __init__(self, source):
        self.src = source
        self.log = []
        self.made = []
        self.tol = 1e-8

    def _l(self, name, v):
        self.log.append((name, v))
        return v

    def real(self, name, nonzero=False, nan=False, lo=None, hi=None, pool=None):
        for _ in range(60):
            v = self.src.real(name, nan)
            if isinstance(self.src, RandSource):
                if lo is not None and v < lo:
                    v = lo + abs(v)
                if hi is not None and v > hi:
                    v = hi - abs(v) if lo is None else lo + (hi - lo) * self.src.rng.randint(0, 8) / 8.0
            if nonzero and v == 0 or (lo is not None and v < lo) or (hi is not None and v > hi):
                if isinstance(self.src, ModelSource):
                    raise Reject()
                continue
            return self._l(name, v)
        raise Reject()

    def int(self, name, lo=None, hi=None, small=3):
        v = self.src.int(name, lo, hi)
        if v > 60 or v < -60 or (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return self._l(name, v)

    def idx(self, name, n):
        return self.int(name, 0, n - 1)

    def bool(self, name):
        return self._l(name, self.src.bool(name))

    def flag(self, name):
        return self._l(name, self.src.choose(2) == 1)

    def choice(self, name, opts):
        i = self.src.choose(len(opts))
        self._l(name, i)
        return opts[i]

    def str(self, name, pool=('a',)):
        return self._l(name, self.src.string(name, pool))

    def array(self, name, shape, kind='real', label=None, lo=None, hi=None, nonzero=False, layout=False):
        if not isinstance(shape, tuple):
            shape = (shape,)
        if any(s > 40 for s in shape):
            raise Reject()
        if hasattr(self.src, 'begin_array'):
            self.src.begin_array(name)
        a = np.zeros(shape, dtype={'real': float, 'int': int, 'bool': bool, 'complex': complex}[kind])
        for ix in itertools.product(*[range(s) for s in shape]):
            a[ix] = self.src.elem(name, ix, kind, lo, hi, nonzero)
        if isinstance(self.src, RandSource) and (layout or len(shape) > 1):
            a = relayout(a, self.src.rng.choice(['C', 'F', 'strided']))
        return self._l(name, a)

    def index_array(self, name, n, size, distinct=False):
        if size <= 0 and n > 0:
            raise Reject()
        if isinstance(self.src, RandSource):
            if distinct:
                if n > size:
                    raise Reject()
                a = np.array(self.src.rng.sample(range(size), n), dtype=int)
            else:
                a = np.array([self.src.rng.randrange(size) for _ in range(n)], dtype=int)
            return self._l(name, a)
        return self.array(name, n, 'int')

    def shaped(self, name, size, kind='real'):
        a = self.array(name, size, kind)
        if isinstance(self.src, RandSource):
            layout = self.src.rng.choice(['C', 'C', 'F', 'strided'])
            shapes = [(size,)]
            if size > 0:
                shapes += [(1, size), (size, 1)] + [(d, size // d) for d in range(2, size) if size % d == 0]
            return self._l(name, relayout(a.reshape(self.src.rng.choice(shapes)), layout))
        return a

    def opaque(self, name, info=None):
        return self._l(name, object())

    def func(self, name, arity=1, kind='real', argkind='int'):
        nm = self.src.name(name) if isinstance(self.src, ModelSource) else name

        def g(*xs):
            key = tuple((float(x) if argkind == 'real' else int(x)) for x in xs)
            v = self.src.func(nm, key)
            return bool(v > 0) if kind == 'bool' else v
        return g

    def obj(self, cls, **attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            try:
                object.__setattr__(o, k, v)
            except AttributeError:
                cls.__setattr__(o, k, v)
        self.made.append(o)
        return o

    def dict(self, pairs=(), label='dict', cls=dict):
        return cls(list(pairs))

    def odict(self, pairs=(), label='odict'):
        return OrderedDict(list(pairs))

    def list(self, items):
        return list(items)

    def symlist(self, name, n, kind='real'):
        return [x.item() for x in self.array(name, n, kind)]

    def set(self, items):
        return set(items)

    def model(self, f, name='stub'):
        return described(f)

    def method(self, f):
        return described(f)

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
            elif not f:
                raise Reject()

    def forall(self, lo, hi, f, *more):
        return all(bool(f(i)) for i in range(lo, hi))

    def induct(self, name, n, f):
        self.check('lemma %s' % name, self.forall(0, n, f))

    def exists(self, lo, hi, f):
        return any(bool(f(i)) for i in range(lo, hi))

    def eq(self, a, b):
        return conc_eq(a, b, self.tol)

    def at(self, a, *ix):
        if isinstance(a, np.ndarray):
            return a[ix]
        if isinstance(a, (list, tuple)):
            return a[ix[0]]
        return a

    def len(self, a):
        if isinstance(a, np.ndarray):
            return a.shape[0] if a.ndim else 1
        if isinstance(a, (int, float, complex, np.number)):
            return 1
        return len(a)

    def size(self, a):
        return a.size if isinstance(a, np.ndarray) else self.len(a)

    def snap(self, a):
        import copy
        if isinstance(a, np.ndarray):
            return a.copy()
        if isinstance(a, (dict, list)):
            return copy.copy(a)
        return a

    def ite(self, c, a, b):
        return Ite(c, a, b)

    def attr(self, o, n):
        return getattr(o, n)

    def bound(self, o, n):
        return getattr(o, n)

    def hasattr(self, o, n):
        return n in o.__dict__

    def item(self, d, k):
        return d[k]

    def put(self, d, k, v):
        d[k] = v

    def has(self, d, k):
        return k in d

    def keys(self, d):
        return list(d.keys())

    def keys_(self, l):
        return list(l)

    def isnan(self, v):
        return v != v

    def istr(self, i):
        return str(i)

    def norm(self, a):
        return float(np.linalg.norm(a))

    def integral(self, x):
        return float(x).is_integer()

    def toreal(self, a):
        return a.astype(float)

    def grid(self, n, k, f):
        return np.array([[f(i, j) for j in range(k)] for i in range(n)], dtype=int).reshape(n, k)

    def put_attr(self, o, n, v):
        object.__setattr__(o, n, v)

    def append(self, l, v):
        l.append(v)

    def throw(self, cls, msg=''):
        raise cls(msg)

    def call(self, f, *args):
        return f(*args)

    def isarray(self, v):
        return isinstance(v, np.ndarray)

    def isfloat(self, v):
        return isinstance(v, (float, int, np.floating, np.integer)) and not isinstance(v, bool)

    def isnone(self, v):
        return v is None

    def ndim(self, a):
        return np.ndim(a)

    def dim(self, a, d):
        return a.shape[d]

    def same(self, a, b):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            return a is b or np.shares_memory(a, b)
        return a is b

    def shares(self, a, b):
        return a.size == 0 or np.shares_memory(a, b)

    def flat(self, a):
        return np.asarray(a).ravel()

    def path(self, name, n, pool=('a', 'ab', 'b')):
        ps = [self.str('%s%d' % (name, k), pool) for k in range(n)]
        if any('.' in p or not p for p in ps):
            raise Reject()
        return '.'.join(ps), ps

    def contains(self, s, sub):
        return sub in s

    def dot(self, m, x):
        return np.dot(m, x)

    def T(self, m):
        return m.T

    def arr(self, n, f, kind='real'):
        return np.array([f(i) for i in range(n)], dtype={'real': float, 'int': int}[kind])

    def part(self, a, start, n):
        return a[start:start + n].copy()

    def scatter(self, size, n, idx, val):
        return lambda q: sum((val(k) for k in range(n) if idx(k) == q), 0.0)

    def unique_scatter(self, f, size, n, idx, val, hit):
        pass


def conc_eq(a, b, tol=1e-8):
    if a is None or b is None:
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(conc_eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (list, np.ndarray)) or isinstance(b, (list, np.ndarray)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype == object or y.dtype == object:
            return all(conc_eq(p, q, tol) for p, q in zip(x.ravel(), y.ravel()))
        return bool(np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True))
    if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
        if a != a and b != b:
            return True
        if a == b:
            return True
        return abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))
    return bool(a == b)


# ------------------------------------------------------------------ checking

class Checker(object):
    """what a contract's ensures() reports to"""
    def __init__(self):
        self.failed = []
        self.n = 0


def _ctx_check(self, name, f, kind='post'):
    if self.sym:
        self.e.oblige('%s: %s' % (self.cname, name), f, kind)
    else:
        self.checks += 1
        try:
            okv = bool(f() if callable(f) else f)
        except Reject:
            raise
        if not okv:
            self.failures.append(name)


SymCtx.check = _ctx_check
ConcCtx.check = _ctx_check


def described(f, error=Reject):
    """a stub that is called in a way the contract does not describe says nothing about the code"""
    if not isinstance(f, types.FunctionType):
        return f
    sig = inspect.signature(f)

    @functools.wraps(f)
    def stub(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError:
            raise error('a stub is called in a way the contract does not describe')
        return f(*a, **k)
    return stub


def call_real(fn, args, kwargs, limit=20):
    def onalarm(sig, fr):
        raise Hang('the call did not return within %d s' % limit)
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        r = fn(*args, **kwargs)
        if isinstance(r, types.GeneratorType):
            r = list(r)
        return Outcome(r)
    except (Reject, Hang):
        raise
    except RecursionError as ex:
        return Outcome(None, RecursionError, ex)
    except BaseException as ex:
        if isinstance(ex, (KeyboardInterrupt, SystemExit)):
            raise
        return Outcome(None, type(ex), ex)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_symbolic(con, case, bounded=None, deadline=None):
    """explore all paths; returns the engine (obligations not yet discharged)"""
    e = Engine(bounded=bounded, max_paths=con.max_paths, deadline=deadline)
    set_eng(e)
    fn, cls = resolve(con.target)
    info = dict(completed=0, outcomes={}, inlined=set(), used=set(), loops=set(), cover=None)

    def runner():
        c = SymCtx(e)
        c.cname = con.name if case is None else '%s[%s]' % (con.name, case)
        ip = Interp()
        c.ip = ip
        S = con.build(c, case)
        e.roots = c.roots
        ip.S = S
        ip.uses = con.uses(c, S)
        ip.loops = {}
        ip.overrides = con.overrides(c, S)
        fr = ip.funcref(fn, cls)
        for k, v in con.loopspecs(c, S).items():
            if isinstance(k, int):
                k = (fr.qual, k)
            ip.loops[k] = v
        if con.program is not None:
            fr = ip.funcref(con.program)
        out = None
        ip.entry = fr.qual if con.program is None else None
        args = list(S.args)
        kwargs = dict(getattr(S, 'kwargs', {}))
        try:
            try:
                v = ip.call_func(fr, args, kwargs) if getattr(S, 'call', None) is None else S.call(ip, fr)
                out = Outcome(v.run() if isinstance(v, GenObj) else v)
            except PyRaise as ex:
                out = Outcome(None, ex.cls, ex.value)
        finally:
            info['inlined'] |= ip.inlined
            info['used'] |= ip.used_contracts
            info['loops'] |= set(ip.loop_info)
        n0 = len(e.obligations)
        info['completed'] += 1
        k = 'return' if out.ok else out.exc.__name__
        info['outcomes'][k] = info['outcomes'].get(k, 0) + 1
        S.out = out
        con.ensures(c, S, out)
        # (some of the completed paths, for the check that they can be taken at all; those that return first)
        kept[out.ok].append(list(e.pc)) if len(kept[out.ok]) < 4 else None
    kept = {True: [], False: []}
    e.explore(runner)
    info['cover'] = (kept[True] + kept[False])[:5] or None
    e.info = info
    return e


def run_concrete(con, case, source):
    """one run on the real code; returns (failures, checks, log, outcome)"""
    fn, cls = resolve(con.target)
    c = ConcCtx(source)
    c.cname = con.name
    c.checks = 0
    c.failures = []
    with np.errstate(all='ignore'):
        S = con.build(c, case)
        f = con.program or getattr(S, 'realfn', None) or fn
        import warnings
        saved = []
        try:
            for o, a, r in con.patches(c, S):
                saved.append((o, a, getattr(o, a, saved)))      # (saved itself: there was nothing, as with a builtin)
                setattr(o, a, r)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                call = getattr(S, 'realcall', None)
                if call is not None:
                    out = call_real(call, [], {})
                else:
                    out = call_real(f, list(S.args), dict(getattr(S, 'kwargs', {})))
        finally:
            for o, a, r in reversed(saved):
                delattr(o, a) if r is saved else setattr(o, a, r)
        S.out = out
        if out.exc is not None and issubclass(out.exc, AttributeError) and any(getattr(out.excval, 'obj', None) is o for o in c.made) and not c.failures:
            raise Reject()          # the contract does not describe the attribute
        try:
            con.ensures(c, S, out)
        except Reject:
            raise
        except IndexError:
            # the contract looks for an element that is not there
            c.failures.append('a result has the elements it is to have')
        except Exception:
            if not c.failures:
                raise
    return c.failures, c.checks, c.log, out
