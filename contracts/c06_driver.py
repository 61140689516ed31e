"""C06: driver scaling is consistent and reversible (openmdao/core/driver.py)."""
import itertools
import sys
from pyvc.contract import *
from contracts.c01_storage import var, srcvec, plain, block, has_value
from openmdao.core.driver import Driver
from openmdao.core.group import Group

M = 'openmdao.core.driver:Driver.'
NAMES = ('p.a', 'b', 'b1')


class Comm(object):
    """stands for a communicator of one process"""


def group(c, vec):
    return c.obj(Group, pathname='', unknowns=vec, comm=c.obj(Comm, size=1, rank=0))


def scale(c, name, kind, n, off):
    """a stored scaler or adder and how it reads at element k"""
    if kind == 'none':
        v = 0.0 if off else 1.0
        return v, lambda k: v
    if kind == 'real':
        v = c.real(name, nonzero=not off)
        return v, lambda k: v
    v = c.array(name, n, nonzero=not off)
    v0 = c.snap(v)
    return v, lambda k: c.at(v0, k)


def driver(c, vec, dv=(), obj=(), con=()):
    return c.obj(Driver, root=group(c, vec), _desvars=c.odict(list(dv), label='desvars'), _objs=c.odict(list(obj), label='objs'),
                 _cons=c.odict(list(con), label='cons'), pathname='driver')


class SetGet(Contract):
    """setting a design variable writes its elements and no others; reading it back gives the value set"""
    prop = 'C06'
    target = M + 'set_desvar'
    cases = tuple(itertools.product(('scalar', 'flat', 'matrix'), (False, True), ('none', 'real', 'array'), ('none', 'real', 'array')))
    weight = 2
    which = 1

    def build(self, c, case):
        kind, sub, sk, ak = case
        vs = [var(c, n, k) for n, k in zip(NAMES, ('flat', kind, 'flat'))]
        vec = srcvec(c, NAMES)
        ud = c.odict([(v.name, v.m) for v in vs])
        v = vs[1]
        S = NS(vs=vs, v=v, sub=sub)
        if sub:
            S.n = c.int('nidx', 1)
            S.idx = c.index_array('idx', S.n, v.size, distinct=True)
        else:
            S.n, S.idx = v.size, None
        S.sc, S.sc_ = scale(c, 'scaler', sk, S.n, False)
        S.ad, S.ad_ = scale(c, 'adder', ak, S.n, True)
        S.val = c.array('value', S.n)
        S.val0 = c.snap(S.val)
        meta = [('lower', -1.0), ('upper', 1.0), ('adder', S.ad), ('scaler', S.sc), ('size', S.n)] + ([('indices', S.idx)] if sub else [])
        drv = driver(c, vec, [('p.a', c.odict([('adder', 0.0), ('scaler', 1.0)])), (NAMES[1], c.odict(meta))])
        S.args = (vec, ud, drv, NAMES, NAMES[1], S.val)
        return S

    @staticmethod
    def program(vec, ud, drv, names, name, value):
        vec.setup(ud, None, None, True, None, False, 'u')
        start = vec.vec.copy()
        drv.set_desvar(name, value)
        got = drv.get_desvars()
        return start, vec.vec, list(got.keys()), got[name], got[names[0]]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        start, end, keys, got, first = out.value
        pos = S.vs[0].size
        stored = lambda k: c.at(S.val0, k) / S.sc_(k) - S.ad_(k)
        c.check('the variables are the declared ones, in order', And([a == b for a, b in zip(c.keys_(keys), NAMES[:2])] + [len(c.keys_(keys)) == 2]))
        c.check('reading gives the value set', And(c.eq(c.len(got), S.n), c.forall(0, S.n, lambda k: c.eq(c.at(got, k), c.at(S.val0, k)))))
        if S.sub:
            c.unique_scatter('elem', S.v.size, S.n, lambda m: c.at(S.idx, m), stored, lambda m: None) if False else None
            c.check('the indexed elements hold value / scaler - adder', c.forall(0, S.n, lambda k: c.eq(c.at(end, pos + c.at(S.idx, k)), stored(k))))
            c.check('no other element of the variable changes', c.forall(0, S.v.size, lambda i: Implies(
                c.forall(0, S.n, lambda k: c.at(S.idx, k) != i), lambda: c.eq(c.at(end, pos + i), c.at(start, pos + i)))))
        else:
            c.check('the variable holds value / scaler - adder', c.forall(0, S.n, lambda k: c.eq(c.at(end, pos + k), stored(k))))
        c.check('the variable before it is not changed', c.forall(0, pos, lambda i: c.eq(c.at(end, i), c.at(start, i))))
        last = pos + S.v.size
        c.check('the variable after it is not changed', c.forall(last, c.len(start), lambda i: c.eq(c.at(end, i), c.at(start, i))))
        c.check('the caller\'s value is not changed', c.eq(S.val, S.val0))
        c.check('an unscaled variable reads its own value', And(c.eq(c.len(first), pos), c.forall(0, pos, lambda i: c.eq(c.at(first, i), c.at(start, i)))))


class SetOne(SetGet):
    """setting one element of a design variable"""
    cases = tuple(itertools.product(('flat', 'matrix'), (False,), ('none', 'real', 'array'), ('none', 'real', 'array')))

    def build(self, c, case):
        S = SetGet.build(self, c, case)
        S.k = c.idx('k', S.n)
        S.x = c.real('x')
        S.args = S.args[:-1] + (S.x, S.k)
        return S

    @staticmethod
    def program(vec, ud, drv, names, name, value, k):
        vec.setup(ud, None, None, True, None, False, 'u')
        start = vec.vec.copy()
        drv.set_desvar(name, value, k)
        return start, vec.vec

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        start, end = out.value
        at = S.vs[0].size + S.k
        c.check('the element holds value / scaler - adder', c.eq(c.at(end, at), S.x / S.sc_(S.k) - S.ad_(S.k)))
        c.check('nothing else changes', c.forall(0, c.len(start), lambda i: Or(i == at, c.eq(c.at(end, i), c.at(start, i)))))


class Get(Contract):
    """a design variable, objective or constraint is given as (value + adder) * scaler, element by element"""
    prop = 'C06'
    target = M + '_get_distrib_var'
    cases = tuple(itertools.product(('dv', 'obj', 'con'), (False, True), ('none', 'real', 'array'), ('none', 'real', 'array')))

    def build(self, c, case):
        role, sub, sk, ak = case
        v = var(c, 'b', 'matrix')
        vec = srcvec(c, ('b',))
        S = NS(v=v, sub=sub)
        if sub:
            S.n = c.int('nidx', 1)
            S.idx = c.index_array('idx', S.n, v.size)
        else:
            S.n, S.idx = v.size, None
        S.sc, S.sc_ = scale(c, 'scaler', sk, S.n, False)
        S.ad, S.ad_ = scale(c, 'adder', ak, S.n, True)
        meta = [('adder', S.ad), ('scaler', S.sc), ('linear', False), ('equals', None)] + ([('indices', S.idx)] if sub else [])
        d = [('b', c.odict(meta))]
        S.args = (vec, c.odict([('b', v.m)]), driver(c, vec, **{role: d}), role)
        return S

    @staticmethod
    def program(vec, ud, drv, role):
        vec.setup(ud, None, None, True, None, False, 'u')
        start = vec.vec.copy()
        if role == 'dv':
            got = drv.get_desvars()
        elif role == 'obj':
            got = drv.get_objectives()
        else:
            got = drv.get_constraints()
        return start, got['b'], vec.vec, len(got)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        start, got, end, n = out.value
        el = (lambda k: c.at(S.idx, k)) if S.sub else (lambda k: k)
        c.check('as many elements as asked for', And(c.eq(c.len(got), S.n), n == 1))
        c.check('(value + adder) * scaler', c.forall(0, S.n, lambda k: c.eq(c.at(got, k), (c.at(start, el(k)) + S.ad_(k)) * S.sc_(k))))
        c.check('the model is not changed', c.eq(start, end))


class Filter(Contract):
    """the constraints given are exactly those of the kind asked for, in declaration order"""
    prop = 'C06'
    target = M + 'get_constraints'
    cases = tuple(itertools.product(('all', 'eq', 'ineq'), ('all', 'linear', 'nonlinear')))

    def build(self, c, case):
        v = var(c, 'b', 'flat')
        vec = srcvec(c, ('b',))
        S = NS(lin=[c.flag('lin%d' % k) for k in range(2)], eq=[c.flag('eq%d' % k) for k in range(2)], ct=case[0], lt=case[1])
        con = [('b', None), ('e', None)]
        vs = [var(c, 'b', 'flat'), var(c, 'e', 'scalar')]
        vec = srcvec(c, ('b', 'e'))
        metas = [(n, c.odict([('lower', None), ('upper', None if S.eq[k] else 1.0), ('equals', 0.0 if S.eq[k] else None), ('linear', S.lin[k]),
                              ('adder', 0.0), ('scaler', 1.0)])) for k, n in enumerate('be')]
        S.args = (vec, c.odict([(v.name, v.m) for v in vs]), driver(c, vec, con=metas)) + case
        return S

    @staticmethod
    def program(vec, ud, drv, ct, lt):
        vec.setup(ud, None, None, True, None, False, 'u')
        return list(drv.get_constraints(ct, lt).keys())

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            want = [n for k, n in enumerate('be') if (S.ct == 'all' or (S.ct == 'eq') == S.eq[k]) and (S.lt == 'all' or (S.lt == 'linear') == S.lin[k])]
            got = c.keys_(out.value)
            c.check('exactly the kind asked for', And([len(got) == len(want)] + [a == b for a, b in zip(got, want)]))


BIG = sys.float_info.max


def given(c, name, kind, n=None, nonzero=False):
    """an argument of a declaration and how it reads at element k"""
    if kind == 'none':
        return None, None
    if kind == 'real':
        v = c.real(name, nonzero=nonzero)
        return v, lambda k: v
    if kind == 'int':
        v = c.int(name)
        if nonzero:
            c.assume(v != 0)
        return v, lambda k: v
    if kind == 'matrix':
        v = c.array(name, (n, 1), nonzero=nonzero)
        v0 = c.snap(v)
        return v, lambda k: c.at(v0, k, 0)
    v = c.array(name, n, nonzero=nonzero)
    v0 = c.snap(v)
    return v, lambda k: c.at(v0, k)


def indices(c, name, kind):
    """the same indices as a list, a tuple or an array"""
    if kind == 'none':
        return None, None
    ks = [c.int(name + str(k), 0) for k in range(1 if kind == 'one' else 2)]
    if kind in ('list', 'one'):
        return c.list(ks), ks
    if kind == 'tuple':
        return tuple(ks), ks
    return c.index_array(name, 2, 50), None


class Declare(Contract):
    prop = 'C06'
    fields = ()

    def stored(self, c, rec, key, n, want, name):
        """a stored limit reads as want(k) at every element"""
        if want is None:
            c.check(name, c.isnone(c.item(rec, key)))
            return
        x = c.item(rec, key)
        if c.isarray(x):
            c.check(name, And(c.ndim(x) == 1, c.eq(c.len(x), n), c.forall(0, n, lambda k: c.eq(c.at(x, k), want(k)))))
        else:
            c.check(name, c.eq(x, want(0)))

    def index(self, c, rec, S):
        if S.ikind == 'none':
            c.check('no indices', Not(c.has(rec, 'indices')))
            return
        c.check('indices are kept', c.has(rec, 'indices'))
        x = c.item(rec, 'indices')
        if S.ikind == 'array':
            c.check('the indices declared', And(c.isarray(x), c.eq(x, S.i0)))
        else:
            c.check('the indices declared', And([c.isarray(x), c.eq(c.len(x), len(S.ks))] + [c.eq(c.at(x, j), k) for j, k in enumerate(S.ks)]))

    def common(self, c, sk, ak, ik):
        S = NS(n=c.int('n', 1), ikind=ik)
        S.sc, S.sc_ = given(c, 'scaler', sk, S.n, nonzero=True)
        S.ad, S.ad_ = given(c, 'adder', ak, S.n)
        S.idx, S.ks = indices(c, 'i', ik)
        S.i0 = c.snap(S.idx) if ik == 'array' else None
        S.old = c.odict([('scaler', 2.0)], label='old')
        S.dup = c.flag('declared before')
        return S


def kept(c, S, d, name):
    """after an error: what was declared before is all there is"""
    c.check(name, And(c.eq(c.len(d), 1), c.same(c.item(d, 'x' if S.dup else 'other'), S.old)))


class Desvar(Declare):
    """limits of a design variable are stored as (limit + adder) * scaler; a second declaration is refused"""
    target = M + 'add_desvar'
    cases = tuple((lo, hi, sk, ak, ik) for (lo, hi) in itertools.product(('none', 'real', 'array', 'matrix'), repeat=2)
                  for (sk, ak, ik) in (('real', 'real', 'none'), ('array', 'int', 'array'), ('int', 'matrix', 'list'), ('matrix', 'array', 'one'), ('real', 'real', 'tuple')))

    def build(self, c, case):
        lo, hi, sk, ak, ik = case
        S = self.common(c, sk, ak, ik)
        S.lo, S.lo_ = given(c, 'lower', lo, S.n)
        S.hi, S.hi_ = given(c, 'upper', hi, S.n)
        S.drv = c.obj(Driver, _desvars=c.odict([('x' if S.dup else 'other', S.old)], label='desvars'))
        S.args = (S.drv, 'x')
        S.kwargs = dict(lower=S.lo, upper=S.hi, indices=S.idx, adder=S.ad, scaler=S.sc)
        return S

    def ensures(self, c, S, out):
        d = c.attr(S.drv, '_desvars')
        if S.dup:
            c.check('declared twice: refused', out.raised(RuntimeError))
            kept(c, S, d, 'nothing else is declared')
            return
        c.check('no error', out.ok)
        if not out.ok:
            return
        rec = c.item(d, 'x')
        c.check('added after the earlier ones', And(c.eq(c.len(d), 2), c.same(c.item(d, 'other'), S.old)))
        for key, f, big in (('lower', S.lo_, -BIG), ('upper', S.hi_, BIG)):
            f = f or (lambda k, big=big: big)
            self.stored(c, rec, key, S.n, lambda k, f=f: (f(k) + S.ad_(k)) * S.sc_(k), '%s limit in scaled space' % key)
        self.stored(c, rec, 'scaler', S.n, S.sc_, 'the scaler declared')
        self.stored(c, rec, 'adder', S.n, S.ad_, 'the adder declared')
        self.index(c, rec, S)


class Objective(Declare):
    """an objective keeps its scaler, adder and indices; a second one needs a driver that can handle it"""
    target = M + 'add_objective'
    cases = tuple((sk, ak, ik) for sk in ('real', 'array', 'int', 'matrix') for ak in ('real', 'array') for ik in ('none', 'list', 'one', 'array', 'tuple'))

    def build(self, c, case):
        S = self.common(c, *case)
        S.multi = c.flag('multiple')
        S.first = c.flag('first')
        S.drv = c.obj(Driver, _objs=c.odict([] if S.first else [('x' if S.dup else 'other', S.old)], label='objs'),
                      supports=c.dict([('multiple_objectives', S.multi)], label='supports'), pathname='driver')
        S.args = (S.drv, 'x')
        S.kwargs = dict(indices=S.idx, adder=S.ad, scaler=S.sc)
        return S

    def ensures(self, c, S, out):
        d = c.attr(S.drv, '_objs')
        many = S.ikind in ('list', 'array', 'tuple')
        if (not S.first and (S.dup or not S.multi)) or (many and not S.multi):
            c.check('refused', out.raised(RuntimeError))
            if S.first:
                c.check('nothing is declared', c.eq(c.len(d), 0))
            else:
                kept(c, S, d, 'nothing else is declared')
            return
        c.check('no error', out.ok)
        if not out.ok:
            return
        rec = c.item(d, 'x')
        c.check('added after the earlier ones', c.eq(c.len(d), 1 if S.first else 2))
        self.stored(c, rec, 'scaler', S.n, S.sc_, 'the scaler declared')
        self.stored(c, rec, 'adder', S.n, S.ad_, 'the adder declared')
        self.index(c, rec, S)


class Constraint(Declare):
    """limits of a constraint are stored in scaled space; contradictory or empty declarations are refused"""
    target = M + 'add_constraint'
    cases = tuple((lo, hi, eq) + x for k, (lo, hi, eq) in enumerate(itertools.product(('none', 'real', 'array'), repeat=3)) for x in (
        ('real', 'real', 'none'), ('array', 'matrix', ('list', 'one', 'array', 'tuple')[k % 4]), ('matrix', 'array', 'none')))

    def build(self, c, case):
        lo, hi, eq, sk, ak, ik = case
        S = self.common(c, sk, ak, ik)
        S.lo, S.lo_ = given(c, 'lower', lo, S.n)
        S.hi, S.hi_ = given(c, 'upper', hi, S.n)
        S.eq, S.eq_ = given(c, 'equals', eq, S.n)
        S.can = {k: c.flag(k) for k in ('equality_constraints', 'inequality_constraints', 'two_sided_constraints')}
        S.lin = c.flag('linear')
        S.drv = c.obj(Driver, _cons=c.odict([('x' if S.dup else 'other', S.old)], label='cons'), supports=c.dict(list(S.can.items()), label='supports'))
        S.args = (S.drv, 'x')
        S.kwargs = dict(lower=S.lo, upper=S.hi, equals=S.eq, linear=S.lin, indices=S.idx, adder=S.ad, scaler=S.sc)
        return S

    def ensures(self, c, S, out):
        d = c.attr(S.drv, '_cons')
        ineq = S.lo is not None or S.hi is not None
        bad = S.dup or (S.eq is not None and ineq) or not (ineq or S.eq is not None) or (S.eq is not None and not S.can['equality_constraints']) \
            or (S.eq is None and not S.can['inequality_constraints']) or (S.lo is not None and S.hi is not None and not S.can['two_sided_constraints'])
        if bad:
            c.check('refused', out.raised(RuntimeError))
            kept(c, S, d, 'nothing else is declared')
            return
        c.check('no error', out.ok)
        if not out.ok:
            return
        rec = c.item(d, 'x')
        c.check('added after the earlier ones', And(c.eq(c.len(d), 2), c.same(c.item(d, 'other'), S.old)))
        for key, f in (('lower', S.lo_), ('upper', S.hi_), ('equals', S.eq_)):
            self.stored(c, rec, key, S.n, None if f is None else (lambda k, f=f: (f(k) + S.ad_(k)) * S.sc_(k)), '%s limit in scaled space' % key)
        self.stored(c, rec, 'scaler', S.n, S.sc_, 'the scaler declared')
        self.stored(c, rec, 'adder', S.n, S.ad_, 'the adder declared')
        c.check('linear as declared', c.item(rec, 'linear') is S.lin)
        self.index(c, rec, S)


class Grad(Driver):
    """a driver that says itself whether it uses gradients"""


class Setup(Contract):
    """at setup: unknown or unsettable variables are refused, sizes and derivative scaling are those declared"""
    prop = 'C06'
    target = M + '_setup'
    cases = tuple(itertools.product(('one', 'real', 'array'), ('one', 'real', 'array'), (False, True)))

    def build(self, c, case):
        dk, ck, sub = case
        kinds = [c.choice('kind_' + n, ['flat', 'object']) for n in ('a', 'b')]
        vs = [var(c, n, k, **({'_canset_': c.flag('canset')} if n == 'a' else {})) for n, k in zip(('a', 'b'), kinds)]
        S = NS(vs=vs, kinds=kinds, sub=sub, grads=c.flag('gradients'), there=[c.flag('a there'), c.flag('b there')])
        S.canset = bool(c.item(vs[0].m, '_canset_')) if c.has(vs[0].m, '_canset_') else False
        names = [v.name for v, t in zip(vs, S.there) if t]
        S.n = [c.int('na', 1), c.int('nb', 1)]
        S.sc = [1.0 if k == 'one' else c.real('sc' + w, nonzero=True) if k == 'real' else c.array('sc' + w, n, nonzero=True)
                for k, w, n in zip((dk, ck), 'ab', S.n)]
        S.sc0 = [c.snap(x) if c.isarray(x) else x for x in S.sc]
        S.idx = [c.index_array('idx' + w, n, 9) for w, n in zip('ab', S.n)]
        rec = [c.odict([('adder', 0.0), ('scaler', s), ('lower', None)] + ([('indices', i)] if sub else []), label='rec')
               for s, i in zip(S.sc, S.idx)]
        S.rec = rec
        S.role = c.choice('role', ['obj', 'con'])
        cls = Grad
        vec = srcvec(c, names)
        S.drv = c.obj(cls, root=group(c, vec), _desvars=c.odict([('a', rec[0])], label='dv'), _objs=c.odict([('b', rec[1])] if S.role == 'obj' else [], label='o'),
                      _cons=c.odict([('b', rec[1])] if S.role == 'con' else [], label='c'), supports=c.dict([('gradients', S.grads)], label='supports'),
                      options=c.dict([], label='options'))
        S.args = (vec, c.odict([(v.name, v.m) for v, t in zip(vs, S.there) if t]), S.drv)
        return S

    @staticmethod
    def program(vec, ud, drv):
        vec.setup(ud, None, None, True, None, False, 'u')
        drv._setup()

    def ensures(self, c, S, out):
        if not S.there[0]:
            c.check('a variable that does not exist is refused', out.raised(ValueError))
            return
        if not S.canset:
            c.check('a computed variable cannot be a design variable', out.raised(RuntimeError))
            return
        if S.grads and S.kinds[0] == 'object':
            c.check('an object cannot be differentiated', out.raised(RuntimeError))
            return
        if not S.there[1]:
            c.check('a variable that does not exist is refused', out.raised(ValueError))
            return
        if S.grads and S.kinds[1] == 'object':
            c.check('an object cannot be differentiated', out.raised(RuntimeError))
            return
        c.check('no error', out.ok)
        if not out.ok:
            return
        d = [c.attr(S.drv, '_desvars'), c.attr(S.drv, '_objs' if S.role == 'obj' else '_cons')]
        conv = [c.attr(S.drv, 'dv_conversions'), c.attr(S.drv, 'fn_conversions')]
        for k, n in enumerate('ab'):
            c.check('%s is kept as declared' % n, And(c.eq(c.len(d[k]), 1), c.same(c.item(d[k], n), S.rec[k])))
            c.check('size of %s' % n, c.eq(c.item(S.rec[k], 'size'), S.n[k] if S.sub else S.vs[k].size))
            s = S.sc0[k]
            unit = c.forall(0, S.n[k], lambda i: c.eq(c.at(s, i), 1.0)) if c.isarray(s) else c.eq(s, 1.0)
            has = c.has(conv[k], n)
            c.check('%s has no conversion only if its scaler is one' % n, Or(has, unit))
            if has:
                x = c.item(conv[k], n)
                f = (lambda v: 1.0 / v) if k == 0 else (lambda v: v)
                if c.isarray(s):
                    c.check('derivatives of %s are scaled like its value' % n, c.forall(0, S.n[k], lambda i: c.eq(c.at(x, i), f(c.at(s, i)))))
                else:
                    c.check('derivatives of %s are scaled like its value' % n, c.eq(x, f(s)))
