"""C13: names relative to a system, promotion, and the name maps of a group."""
import itertools
from collections import OrderedDict
from pyvc.contract import *
from openmdao.core.component import Component
from openmdao.core.group import Group
from openmdao.core.system import System, _SysData

U = 'openmdao.util.string_util:'
POOL = ('a', 'ab', 'a1', 'b', 'sub')


class Relative(Contract):
    """a path made relative to an enclosing system and re-qualified is the original path"""
    prop = 'C13'
    target = U + 'name_relative_to'
    cases = ('top', 'inside')

    def build(self, c, case):
        rest = c.str('rest', ('x', 'a.x', 'sub.a.x', 'ab.x', 'x:y'))
        if case == 'top':
            return NS(rest=rest, args=('', rest))
        par = c.str('parent', ('a', 'sub.ab', 'a.a', 'ab'))
        c.assume(par != '')
        return NS(rest=rest, args=(par, par + '.' + rest))

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            c.check('the rest of the path', out.value == S.rest)


class Scoped(Relative):
    target = 'openmdao.core.system:_SysData._scoped_abs_name'
    prop = 'C13'

    def build(self, c, case):
        S = Relative.build(self, c, case)
        par, name = S.args
        S.args = (par, name)
        return S

    @staticmethod
    def program(par, name):
        return _SysData(par)._scoped_abs_name(name)


class Nearest(Contract):
    """the child of a system that contains a path below it"""
    prop = 'C13'
    target = U + 'nearest_child'
    cases = tuple(itertools.product(('top', 'inside'), ('direct', 'deeper')))

    def build(self, c, case):
        child, _ = c.path('child', 1, POOL)
        tail = child if case[1] == 'direct' else child + '.' + c.str('rest', ('x', 'a.x', 'ab.x'))
        if case[0] == 'top':
            return NS(child=child, args=('', tail))
        par = c.str('parent', ('a', 'sub.ab', 'a.a', 'ab'))
        c.assume(par != '')
        return NS(child=child, args=(par, par + '.' + tail))

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            c.check('the first name below the system', out.value == S.child)


class Ancestor(Contract):
    """the longest common path of two names, part by part"""
    prop = 'C13'
    target = U + 'get_common_ancestor'
    cases = tuple(itertools.product((1, 2, 3), (1, 2, 3)))

    def build(self, c, case):
        a, pa = c.path('a', case[0], POOL)
        b, pb = c.path('b', case[1], POOL)
        return NS(pa=pa, pb=pb, args=(a, b))

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        m = min(len(S.pa), len(S.pb))
        for k in range(m + 1):
            want = ''
            for j, p in enumerate(S.pa[:k]):
                want = p if j == 0 else want + '.' + p
            agree = And([S.pa[j] == S.pb[j] for j in range(k)] + ([S.pa[k] != S.pb[k]] if k < m else []) or [True])
            c.check('agreeing in %d parts' % k, Implies(agree, lambda: out.value == want))


class Rx(object):
    """stands for a compiled pattern"""


class Mt(object):
    """stands for a match"""


def rx(c, how, name, prefixes):
    """a pattern that matches nothing, a proper prefix of the name, or all of it"""
    def match(nm):
        if how == 'none':
            return None
        return c.obj(Mt, group=c.model(lambda: name if how == 'all' else prefixes))
    return c.obj(Rx, match=c.model(match))


class Promoted(Contract):
    """a variable is promoted exactly when one of the patterns matches all of its name"""
    prop = 'C13'
    target = 'openmdao.core.system:System._promoted'
    cases = (0, 1, 2, 3)

    def build(self, c, case):
        S = NS(how=[c.choice('how%d' % k, ['none', 'part', 'all']) for k in range(case)], where=c.choice('where', ['param', 'unknown', 'both', 'none']))
        name = 's.xy'
        par = OrderedDict([('other', 1)] + ([(name, 1)] if S.where in ('param', 'both') else []))
        unk = OrderedDict([('more', 1)] + ([(name, 1)] if S.where in ('unknown', 'both') else []))
        sd = c.obj(_SysData, to_abs_uname=c.odict(list(unk.items())), to_abs_pnames=c.odict(list(par.items())))
        sy = c.obj(System, _sysdata=sd, _prom_regex=c.list([rx(c, h, name, 's.x') for h in S.how]))
        S.args = (sy, name)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            c.check('promoted iff fully matched by a pattern', Iff(out.value, 'all' in S.how and S.where != 'none'))


class PromotedName(Contract):
    """the promoted name is the name itself or has the name of the subsystem in front"""
    prop = 'C13'
    target = 'openmdao.core.group:Group._promoted_name'

    def build(self, c, case):
        S = NS(name=c.str('name', ('x', 'a.x')), sub=c.str('sub', ('', 'a', 'ab')), prom=c.flag('promoted'))
        g = c.obj(Group, name='g')
        S.args = (g, S.name, c.obj(System, name=S.sub))
        return S

    def uses(self, c, S):
        return {'System._promoted': c.model(lambda self, n: S.prom, '_promoted')}

    def patches(self, c, S):
        return [(System, '_promoted', lambda self, n: S.prom)]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        if S.prom:
            c.check('promoted as it is', out.value == S.name)
        else:
            c.check('qualified by the subsystem', And(Implies(S.sub == '', lambda: out.value == S.name),
                    Implies(S.sub != '', lambda: out.value == S.sub + '.' + S.name)))


class CheckPromotes(Contract):
    """every pattern has to match some variable"""
    prop = 'C13'
    target = 'openmdao.core.system:System._check_promotes'
    names = ('x', 's.y', 'z')

    def build(self, c, case):
        S = NS(m=[[c.choice('m%d%d' % (i, j), ['none', 'part', 'all'] if j == 0 else ['none', 'all']) for j in range(3)] for i in range(2)])

        def pat(i):
            def match(nm):
                h = S.m[i][self.names.index(nm)]
                if h == 'none':
                    return None
                return c.obj(Mt, group=c.model(lambda: nm if h == 'all' else ''))
            return c.obj(Rx, match=c.model(match))
        sd = c.obj(_SysData, to_prom_name=c.dict([('p.x', 'x'), ('p.s.y', 's.y'), ('p.z', 'z')]))
        S.args = (c.obj(System, name='p', pathname='p', _promotes=('a*', 'b*'), _sysdata=sd, _prom_regex=c.list([pat(0), pat(1)]),
                        _params_dict=c.odict([('p.x', 1), ('p.s.y', 1)]), _unknowns_dict=c.odict([('p.z', 1)])),)
        return S

    def ensures(self, c, S, out):
        good = all('all' in row for row in S.m)
        c.check('an error exactly when a pattern matches no variable', Iff(out.ok, good))
        if not out.ok:
            c.check('the error is a RuntimeError', out.exc is RuntimeError)


class Sub(System):
    def _promoted(self, name):
        return self._flags[name]

    def _setup_variables(self):
        return self._vars

    def _check_promotes(self):
        pass


class SetupVariables(Contract):
    """the name maps of a group of two subsystems: every absolute name has one promoted name and back"""
    prop = 'C13'
    target = 'openmdao.core.group:Group._setup_variables'
    cases = tuple(itertools.product(('same', 'other'), ('same', 'other')))
    # the second subsystem's variables have the same or other names than the first one's

    def build(self, c, case):
        S = NS(prom={})
        S.subs = OrderedDict()
        for k, n in enumerate(('s', 'sub')):
            pn = 'x' if k == 0 or case[0] == 'same' else 'w'
            un = 'y' if k == 0 or case[1] == 'same' else 'z'
            S.subs[n] = (pn, un, 'q.' + un)
            for v in S.subs[n]:
                S.prom[n, v] = c.flag('prom %s %s' % (n, v))
        S.meta = {}
        subs = []
        for n, (pn, un, vn) in S.subs.items():
            P, V = 'g.%s.' % n, {}
            for v in (pn, un, vn):
                S.meta[P + v] = c.dict([('val', 1.0)], label=P + v)
            pd = c.odict([(P + pn, S.meta[P + pn])])
            ud = c.odict([(P + un, S.meta[P + un]), (P + vn, S.meta[P + vn])])
            sd = c.obj(_SysData, to_prom_pname=c.odict([(P + pn, pn)]), to_prom_uname=c.odict([(P + un, un), (P + vn, vn)]))
            subs.append((n, c.obj(Sub, name=n, pathname='g.' + n, _sysdata=sd, _vars=(pd, ud), _flags=c.dict([(v, S.prom[n, v]) for v in S.subs[n]]))))
        sd = c.obj(_SysData)
        S.sd = sd
        S.g = c.obj(Group, name='g', pathname='g', _sysdata=sd, _subsystems=c.odict(subs))
        S.args = (S.g,)
        return S

    def ensures(self, c, S, out):
        name = {}
        for n, (pn, un, vn) in S.subs.items():
            for v in (pn, un, vn):
                name[n, v] = v if S.prom[n, v] else n + '.' + v
        unk = [(n, v) for n, (p, u, w) in S.subs.items() for v in (u, w)]
        clash = len(set(name[k] for k in unk)) < len(unk)
        c.check('two unknowns with one promoted name are an error', Iff(out.ok, not clash))
        if not out.ok:
            c.check('the error is a RuntimeError', out.exc is RuntimeError)
            return
        pd, ud = c.item(out.value, 0) if c.sym and not isinstance(out.value, tuple) else out.value
        sd = S.sd
        au, ap, pu, pp, pn_ = [c.attr(sd, k) for k in ('to_abs_uname', 'to_abs_pnames', 'to_prom_uname', 'to_prom_pname', 'to_prom_name')]
        pars = [(n, p) for n, (p, u, w) in S.subs.items()]
        c.check('all params and unknowns, in order', And([list(c.keys(pd)) == ['g.%s.%s' % k for k in pars], list(c.keys(ud)) == ['g.%s.%s' % k for k in unk]]))
        c.check('their own metadata', And([c.same(c.item(pd, 'g.%s.%s' % k), S.meta['g.%s.%s' % k]) for k in pars] +
                                          [c.same(c.item(ud, 'g.%s.%s' % k), S.meta['g.%s.%s' % k]) for k in unk]))
        for k in unk:
            a = 'g.%s.%s' % k
            c.check('unknown %s: there and back' % a, And(c.item(pu, a) == name[k], c.item(pn_, a) == name[k], c.item(au, name[k]) == a))
        for k in pars:
            a = 'g.%s.%s' % k
            c.check('param %s: there and back' % a, And(c.item(pp, a) == name[k], c.item(pn_, a) == name[k],
                    c.keys_(c.item(ap, name[k])) == ['g.%s.%s' % j for j in pars if name[j] == name[k]]))
        c.check('no other names', And(set(c.keys(au)) == set(name[k] for k in unk), set(c.keys(ap)) == set(name[k] for k in pars),
                set(c.keys(pn_)) == set('g.%s.%s' % k for k in unk + pars)))


class Maps(Contract):
    """every unknown of a subsystem is found under the name its parent gives it, and nothing else is"""
    prop = 'C13'
    target = 'openmdao.core.group:Group._get_relname_map'
    cases = (0, 1, 2, 3)
    kind = 'group'

    def build(self, c, case):
        kind, n = self.kind, case
        S = NS()
        names = ['y', 'a', 's1.y'][:n] if kind == 'group' else ['y', 'a', 'x1'][:n]
        S.abs = OrderedDict(('p.s.' + nm, nm) for nm in names)
        S.parent = {}
        for a, nm in S.abs.items():
            S.parent[a] = c.choice('parent ' + nm, ['s.' + nm, nm, 'p.s.' + nm])
        S.other = c.flag('others')
        pp = c.odict(([('p.t.y', 't.y')] if S.other else []) + list(S.parent.items()))
        if kind == 'group':
            # unknowns inside subgroups are known by their promoted names
            S.own = {a: (c.choice('own ' + nm, [nm, 'z%d' % k])) for k, (a, nm) in enumerate(S.abs.items())}
            s = c.obj(Group, pathname='p.s', _sysdata=c.obj(_SysData, to_prom_uname=c.odict([(a, S.own[a]) for a in S.abs])))
        else:
            S.own = dict(S.abs)
            s = c.obj(Component, pathname='p.s', _init_unknowns_dict=c.odict([(nm, c.dict([])) for nm in names]))
        S.args = (s, pp)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        want = OrderedDict((S.parent[a], S.own[a]) for a in S.abs)
        c.check('exactly these, in order', c.keys(out.value) == list(want))
        for k, v in want.items():
            c.check('the name of its own', c.item(out.value, k) == v)


class MapsOfComponent(Maps):
    target = 'openmdao.core.component:Component._get_relname_map'
    kind = 'component'
