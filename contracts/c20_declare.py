"""C20: declarations of variables (openmdao/core/component.py)."""
import itertools
from pyvc.contract import *
from openmdao.core.component import Component, _NotSet
import openmdao.core.component as module

M = 'openmdao.core.component:Component.'


class Box(object):
    """any object"""


class Pattern(object):
    """stands for the pattern of legal names"""


class Match(object):
    """a match of part of a name"""


VALUES = ('none', 'float', 'int', 'flat', 'matrix', 'ints', 'object', 'text', 'float by object')
SHAPES = ('none', 1, 'int', 'tuple', 'pair')


class Declare(Contract):
    """one declaration after any earlier ones: recorded as given under its name, or an error that changes nothing"""
    prop = 'C20'
    target = M + '_add_variable'
    cases = tuple((k, v, s) for k in ('param', 'output', 'state') for v in VALUES for s in SHAPES if v == 'none' or s in ('none', 'int'))

    def build(self, c, case):
        kind, vk, sk = case
        S = NS(kind=kind, vk=vk, sk=sk)
        S.n, S.m = c.int('n', 2), c.int('m', 1)
        S.pm, S.um = c.dict([('val', 1.5), ('shape', 1)]), c.dict([('val', 2.5), ('shape', 1), ('state', True)])
        S.params, S.unknowns = c.odict([('p:a', S.pm)]), c.odict([('u', S.um)])
        S.name = c.str('name', ('p:a', 'u', 'x', 'v:w', '_1', 'p', '1x', 'x.y', ''))
        S.late = c.flag('after setup')
        S.legal = c.flag('legal name')
        S.comp = c.obj(Component, pathname=c.str('pathname', ('', 'g.c')), _post_setup_vars=S.late, _init_params_dict=S.params, _init_unknowns_dict=S.unknowns,
                       _pbo_warns=c.list([]), _run_apply=False)
        S.kw = [('units', 'm'), ('lower', c.real('lower')), ('note', c.obj(Box))]
        S.old = c.choice('old', (0, 1, 2))
        if S.old:
            S.kw.append((('low', 'high')[S.old - 1], 0.0))
        S.rs = None
        if c.flag('resid_scaler'):
            S.rs = c.real('resid_scaler')
            S.kw.append(('resid_scaler', S.rs))
        S.shape = {'none': None, 1: 1, 'int': S.n, 'tuple': (S.n,), 'pair': (S.n, S.m)}[sk]
        if sk != 'none':
            S.kw.append(('shape', S.shape))
        if vk == 'float by object':
            S.kw.append(('pass_by_obj', True))
        S.val = {'none': lambda: _NotSet, 'float': lambda: c.real('v'), 'int': lambda: c.int('v'), 'flat': lambda: c.array('v', c.int('size', 0)),
                 'matrix': lambda: c.array('v', (c.int('rows', 0, small=3), c.int('cols', 0, small=3))), 'ints': lambda: c.array('v', 3, 'int'), 'object': lambda: c.obj(Box),
                 'text': lambda: 'abc', 'float by object': lambda: c.real('v')}[vk]()
        S.size0 = c.size(S.val) if vk in ('flat', 'matrix') else None
        S.dims0 = [c.dim(S.val, d) for d in range({'flat': 1, 'matrix': 2}.get(vk, 0))]
        S.args = (S.comp, kind, S.name, S.val, dict(S.kw) if not c.sym else c.dict(S.kw), vk != 'none')
        return S

    def rgx(self, c, S):
        def match(name):
            return c.obj(Match, group=c.method(lambda: name if S.legal else name + '?')) if S.legal else None
        return c.obj(Pattern, match=c.method(match))

    def overrides(self, c, S):
        return {'namecheck_rgx': self.rgx(c, S)}

    def patches(self, c, S):
        return [(module, 'namecheck_rgx', self.rgx(c, S))]

    @staticmethod
    def program(comp, kind, name, val, kw, given):
        f = {'param': comp.add_param, 'output': comp.add_output, 'state': comp.add_state}[kind]
        if given:
            f(name, val, **kw)
        else:
            f(name, **kw)

    def ensures(self, c, S, out):
        taken = Or(S.name == 'p:a', S.name == 'u')
        bad = S.late or S.old > 0 or not S.legal
        if S.rs is not None:
            bad = Or(bad, S.rs == 0) if S.kind == 'state' else True
        if S.kind != 'param' and S.vk == 'none' and S.sk == 'none':
            bad = True
        bad = Or(bad, taken)
        c.check('an error exactly when the declaration is not acceptable', Iff(not out.ok, bad))
        pd, ud = c.attr(S.comp, '_init_params_dict'), c.attr(S.comp, '_init_unknowns_dict')
        c.check('earlier declarations stay', And(c.same(c.item(pd, 'p:a'), S.pm), c.same(c.item(ud, 'u'), S.um), c.eq(c.item(S.pm, 'val'), 1.5), c.eq(c.item(S.um, 'val'), 2.5),
                                                 len(c.keys(S.pm)) == 2, len(c.keys(S.um)) == 3))
        pk, uk = c.keys(pd), c.keys(ud)
        if not out.ok:
            c.check('an error changes nothing', And(len(pk) == 1, len(uk) == 1))
            c.check('the error says which', out.exc in (RuntimeError, NameError, ValueError, TypeError))
            return
        mine, keys = (pd, pk) if S.kind == 'param' else (ud, uk)
        c.check('declared under its name, after the others', And(len(pk) == 1 + (S.kind == 'param'), len(uk) == 1 + (S.kind != 'param'), keys[-1] == S.name))
        m = c.item(mine, S.name)
        for k, v in S.kw:
            if k in ('shape', 'pass_by_obj'):
                continue
            c.check('options are recorded as given', And(c.has(m, k), c.same(c.item(m, k), v) if k == 'note' else c.eq(c.item(m, k), v) if k != 'units' else c.item(m, k) == v))
        c.check('a state is marked as one', c.has(m, 'state') == (S.kind == 'state'))
        c.check('a state has to be applied', Implies(S.kind == 'state', c.attr(S.comp, '_run_apply')))
        v = c.item(m, 'val')
        byobj = S.vk in ('int', 'ints', 'object', 'text', 'float by object')
        c.check('what cannot be differentiated is passed by object', c.has(m, 'pass_by_obj') == byobj)
        if byobj:
            c.check('has no size in the vectors', And(c.item(m, 'pass_by_obj'), c.eq(c.item(m, 'size'), 0)))
            if S.vk in ('int', 'float by object'):
                c.check('its value', c.eq(v, S.val))
            elif S.vk != 'text':
                c.check('its value', c.same(v, S.val))
            else:
                c.check('its value', v == 'abc')
            return
        if S.vk == 'none' and S.sk not in ('none', 1):
            n = S.n * S.m if S.sk == 'pair' else S.n
            c.check('without a value, zeros of the shape', And(c.eq(c.size(v), n), c.eq(c.dim(v, 0), S.n), c.forall(0, n, lambda i: c.eq(c.at(c.flat(v), i), 0))))
            dims = [S.n, S.m][:2 if S.sk == 'pair' else 1]
        elif S.vk == 'none' and S.sk == 1:
            c.check('without a value, zero', c.eq(v, 0.0))
            dims = None
        elif S.vk == 'none':
            c.check('one element, zero', And(c.eq(c.size(v), 1), c.eq(v, 0)))
            dims = []
        elif S.vk == 'float':
            c.check('its value', c.eq(v, S.val))
            dims = None
        else:
            c.check('its value', c.same(v, S.val))
            dims = S.dims0
        if dims is None:
            c.check('one element', And(c.eq(c.item(m, 'size'), 1), c.eq(c.item(m, 'shape'), 1)))
        else:
            size = 1
            for d in dims:
                size = size * d
            sh = c.item(m, 'shape')
            c.check('size and shape are those of the value', And(c.eq(c.item(m, 'size'), size), len(sh) == len(dims), *[c.eq(a, b) for a, b in zip(sh, dims)]))
