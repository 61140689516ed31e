"""C05: an options dictionary never holds an invalid value."""
from pyvc.contract import *
from openmdao.util.options import OptionsDictionary

M = 'openmdao.util.options:'
TYPES = ('float', 'int', 'bool', 'str')


def value(c, name, ty):
    if ty == 'float':
        return c.real(name)
    if ty == 'int':
        return c.int(name)
    if ty == 'bool':
        return c.bool(name)
    return c.str(name, pool=('fd', 'cs', 'user', 'x'))


def option(c, name, ty, bounds):
    """one declared option, holding a valid value"""
    v = value(c, name + '_val', ty)
    lo = hi = vals = None
    if ty in ('float', 'int'):
        if bounds in ('lower', 'both'):
            lo = value(c, name + '_lo', ty)
            c.assume(v >= lo)
        if bounds in ('upper', 'both'):
            hi = value(c, name + '_hi', ty)
            c.assume(v <= hi)
    if bounds == 'values':
        a, b = value(c, name + '_v1', ty), value(c, name + '_v2', ty)
        vals = c.list([a, b])
        c.assume(Or(v == a, v == b))
    lock = c.bool(name + '_lock')
    d = c.dict([('val', v), ('lower', lo), ('upper', hi), ('values', vals), ('desc', ''),
                ('lock_on_setup', lock), ('changed', c.bool(name + '_changed'))], label=name)
    return NS(d=d, v=v, lo=lo, hi=hi, vals=vals, lock=lock, ty=ty)


def valid(c, o, v, vty):
    """the declared condition on a value of python type vty"""
    if o.vals is not None:
        if vty != o.ty:
            return False
        return Or(v == c.at(o.vals, 0), v == c.at(o.vals, 1))
    fs = [vty == o.ty]
    if vty == o.ty:
        if o.lo is not None:
            fs.append(o.lo <= v)
        if o.hi is not None:
            fs.append(v <= o.hi)
    return And(fs)


def state(c, o, S, expect, name):
    """option o's stored record is exactly `expect` (value), everything else as declared"""
    c.check(name, And(c.eq(c.item(o.d, 'val'), expect),
                      c.item(o.d, 'lower') is o.lo, c.item(o.d, 'upper') is o.hi,
                      c.item(o.d, 'values') is o.vals))


class OptionsBase(Contract):
    prop = 'C05'
    def dictionary(self, c, ty, bounds):
        k1, k2, dep = c.str('k1', pool=('a', 'b')), c.str('k2', pool=('b', 'c')), c.str('dep', pool=('old', 'c'))
        c.assume(Not(k1 == k2), Not(dep == k1), Not(dep == k2))
        o1 = option(c, 'o1', ty, bounds)
        o2 = option(c, 'o2', 'float', 'both')
        opts = c.dict([(k1, o1.d), (k2, o2.d)], label='_options')
        deps = c.dict([(dep, k1)], label='_deprecations')
        locked = c.bool('locked')
        me = c.obj(OptionsDictionary, _options=opts, _deprecations=deps, read_only=True, locked=locked)
        return NS(me=me, o1=o1, o2=o2, k1=k1, k2=k2, dep=dep, opts=opts, deps=deps, locked=locked)

    def frame(self, c, S, which=None):
        state(c, S.o2, S, S.o2.v, 'the other option is unchanged')
        c.check('no option appears or disappears', And(len(c.keys(S.opts)) == 2, c.has(S.opts, S.k1), c.has(S.opts, S.k2)))
        c.check('an option keeps its own record', And(c.item(S.opts, S.k1) is S.o1.d, c.item(S.opts, S.k2) is S.o2.d))


class SetItem(OptionsBase):
    target = M + 'OptionsDictionary.__setitem__'
    cases = tuple((t, b, vt) for t in TYPES for b in ('none', 'lower', 'upper', 'both', 'values')
                  for vt in ('same', 'other')
                  if not (t in ('bool', 'str') and b in ('lower', 'upper', 'both'))
                  and not (t == 'bool' and b == 'values') and not (b == 'values' and vt == 'other'))

    def build(self, c, case):
        ty, bounds, vt = case
        S = self.dictionary(c, ty, bounds)
        S.vty = ty if vt == 'same' else {'float': 'str', 'int': 'float', 'bool': 'int', 'str': 'float'}[ty]
        S.value = value(c, 'value', S.vty)
        S.name = c.choice('name', [S.k1, S.dep, c.str('unknown', pool=('zz',))])
        c.assume(Not(S.name == S.k2))
        S.args = (S.me, S.name, S.value)
        return S

    def ensures(self, c, S, out):
        known = Or(S.name == S.k1, S.name == S.dep)
        lockd = And(S.locked, S.o1.lock)
        okv = And(known, Not(lockd), valid(c, S.o1, S.value, S.vty))
        c.check('a valid set is accepted and an invalid, undeclared or locked one raises', Iff(okv, out.ok))
        c.check('an undeclared option raises KeyError', Implies(Not(known), out.raised(KeyError)))
        c.check('a locked option raises RuntimeError', Implies(And(known, lockd), out.raised(RuntimeError)))
        c.check('an invalid value raises ValueError',
                Implies(And(known, Not(lockd), Not(okv)), out.raised(ValueError)))
        now = c.item(S.o1.d, 'val')
        c.check('the option holds the new value, or its old one after an error',
                Ite(okv, lambda: c.eq(now, S.value), lambda: c.eq(now, S.o1.v)) if c.sym and False else
                And(Implies(okv, lambda: c.eq(now, S.value)), Implies(Not(okv), lambda: c.eq(now, S.o1.v))))
        c.check('limits and allowed values are unchanged', And(c.item(S.o1.d, 'lower') is S.o1.lo,
                c.item(S.o1.d, 'upper') is S.o1.hi, c.item(S.o1.d, 'values') is S.o1.vals))
        self.frame(c, S)


class GetItem(OptionsBase):
    target = M + 'OptionsDictionary.__getitem__'
    cases = (('float', 'both'), ('str', 'values'), ('int', 'none'))

    def build(self, c, case):
        S = self.dictionary(c, *case)
        S.name = c.choice('name', [S.k1, S.k2, S.dep, c.str('unknown', pool=('zz', 'a', 'b'))])
        S.args = (S.me, S.name)
        return S

    def expect(self, c, S, out):
        known1 = Or(S.name == S.k1, S.name == S.dep)
        known2 = S.name == S.k2
        c.check('returns the value held by the named (or renamed) option',
                And(Implies(known1, lambda: And(out.ok, lambda: c.eq(out.value, S.o1.v)) if False else
                            (c.eq(out.value, S.o1.v) if out.ok else False)),
                    Implies(known2, lambda: c.eq(out.value, S.o2.v) if out.ok else False)))
        return known1, known2

    def ensures(self, c, S, out):
        k1, k2 = self.expect(c, S, out)
        c.check('an undeclared option raises KeyError', Implies(Not(Or(k1, k2)), out.raised(KeyError)))
        state(c, S.o1, S, S.o1.v, 'reading changes nothing')
        self.frame(c, S)


class Get(GetItem):
    target = M + 'OptionsDictionary.get'

    def build(self, c, case):
        S = GetItem.build(self, c, case)
        S.dflt = c.real('default')
        S.args = (S.me, S.name, S.dflt)
        return S

    def ensures(self, c, S, out):
        k1, k2 = self.expect(c, S, out)
        c.check('an undeclared option gives the default',
                Implies(Not(Or(k1, k2)), lambda: c.eq(out.value, S.dflt) if out.ok else False))
        state(c, S.o1, S, S.o1.v, 'reading changes nothing')
        self.frame(c, S)


class Contains(GetItem):
    target = M + 'OptionsDictionary.__contains__'

    def ensures(self, c, S, out):
        known = Or(S.name == S.k1, S.name == S.k2, S.name == S.dep)
        c.check('tells whether the option is declared', And(out.ok, Iff(out.value, known)) if out.ok else False)
        state(c, S.o1, S, S.o1.v, 'reading changes nothing')
        self.frame(c, S)


class Items(OptionsBase):
    target = M + 'OptionsDictionary.items'
    cases = (('float', 'both'), ('str', 'values'))

    def build(self, c, case):
        S = self.dictionary(c, *case)
        S.args = (S.me,)
        S.realcall = lambda: list(S.me.items())
        return S

    def ensures(self, c, S, out):
        c.check('lists every option once with its value', And(out.ok, c.len(out.value) == 2,
                c.eq(c.at(out.value, 0)[0], S.k1), c.eq(c.at(out.value, 0)[1], S.o1.v),
                c.eq(c.at(out.value, 1)[0], S.k2), c.eq(c.at(out.value, 1)[1], S.o2.v)) if out.ok else False)
        self.frame(c, S)


class AddOption(OptionsBase):
    target = M + 'OptionsDictionary.add_option'
    cases = tuple((t, b) for t in ('float', 'int') for b in ('none', 'lower', 'upper', 'both', 'values')) + \
        (('str', 'none'), ('str', 'values'), ('bool', 'none'))

    def build(self, c, case):
        ty, bounds = case
        S = self.dictionary(c, 'float', 'both')
        S.name = c.choice('name', [S.k1, c.str('new', pool=('n', 'm'))])
        c.assume(Not(S.name == S.k2), Not(S.name == S.dep))
        S.v = value(c, 'value', ty)
        S.lo = value(c, 'lo', ty) if bounds in ('lower', 'both') else None
        S.hi = value(c, 'hi', ty) if bounds in ('upper', 'both') else None
        S.vals = c.list([value(c, 'v1', ty), value(c, 'v2', ty)]) if bounds == 'values' else None
        S.lock = c.bool('lock')
        S.ty = ty
        S.args = (S.me, S.name, S.v)
        S.kwargs = dict(lower=S.lo, upper=S.hi, values=S.vals, desc='text', lock_on_setup=S.lock)
        return S

    def ensures(self, c, S, out):
        o = NS(lo=S.lo, hi=S.hi, vals=S.vals, ty=S.ty)
        dup = S.name == S.k1
        okv = And(Not(dup), valid(c, o, S.v, S.ty), Not(And(S.locked, S.lock)))
        c.check('declared exactly when new and valid', Iff(okv, out.ok))
        c.check('errors are ValueError (RuntimeError when locked)', Or(out.ok, out.raised(ValueError, RuntimeError)))
        state(c, S.o1, S, S.o1.v, 'an existing option is unchanged')
        state(c, S.o2, S, S.o2.v, 'the other option is unchanged')
        if out.ok:
            d = c.item(S.opts, S.name)
            c.check('the new option holds exactly what was declared',
                    And(c.eq(c.item(d, 'val'), S.v), c.item(d, 'lower') is S.lo, c.item(d, 'upper') is S.hi,
                        c.item(d, 'values') is S.vals, Iff(c.item(d, 'lock_on_setup'), S.lock),
                        len(c.keys(S.opts)) == 3))
        else:
            c.check('nothing is added after an error', len(c.keys(S.opts)) == 2)


class RemoveOption(OptionsBase):
    target = M + 'OptionsDictionary.remove_option'

    def build(self, c, case):
        S = self.dictionary(c, 'float', 'both')
        S.name = c.choice('name', [S.k1, c.str('unknown', pool=('zz',))])
        c.assume(Not(S.name == S.k2))
        S.args = (S.me, S.name)
        return S

    def ensures(self, c, S, out):
        c.check('does not raise', out.ok)
        gone = S.name == S.k1
        c.check('removes exactly the named option', And(Iff(c.has(S.opts, S.k1), Not(gone)), c.has(S.opts, S.k2)))
        state(c, S.o2, S, S.o2.v, 'the other option is unchanged')


class AddDeprecation(OptionsBase):
    target = M + 'OptionsDictionary._add_deprecation'

    def build(self, c, case):
        S = self.dictionary(c, 'float', 'both')
        S.old = c.str('oldname', pool=('q',))
        c.assume(Not(S.old == S.k1), Not(S.old == S.k2), Not(S.old == S.dep))
        S.new = c.choice('new', [S.k1, S.k2, c.str('unknown', pool=('zz',))])
        S.args = (S.me, S.old, S.new)
        return S

    def ensures(self, c, S, out):
        known = Or(S.new == S.k1, S.new == S.k2)
        c.check('renaming to an undeclared option raises NameError', Iff(Not(known), out.raised(NameError)))
        c.check('the old name maps to the new one',
                Implies(known, lambda: c.eq(c.item(S.deps, S.old), S.new) if c.has(S.deps, S.old) else False))
        c.check('other renamings stay', c.eq(c.item(S.deps, S.dep), S.k1))
        state(c, S.o1, S, S.o1.v, 'options are unchanged')
        self.frame(c, S)


class SetAttr(OptionsBase):
    target = M + 'OptionsDictionary.__setattr__'

    def build(self, c, case):
        S = self.dictionary(c, 'float', 'both')
        S.name = c.str('attr', pool=('val', 'k1', 'iprint'))
        for r in ('_options', 'read_only', '_deprecations', 'locked'):
            c.assume(Not(S.name == r))
        S.args = (S.me, S.name, c.real('x'))
        return S

    def ensures(self, c, S, out):
        c.check('attribute-style setting raises', out.raised(ValueError))
        state(c, S.o1, S, S.o1.v, 'options are unchanged')
        self.frame(c, S)
