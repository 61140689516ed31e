"""Random OpenMDAO models with an independent description of what they mean.

A Model is generated together with its oracle: the source (and element selection) of every param, the promoted
name of every variable, the value of every unknown and its exact derivatives. The oracle is computed from the
description alone, never from /repo.
"""
import fnmatch
from collections import OrderedDict
import numpy as np
from openmdao.api import Problem, Group, Component, IndepVarComp

# unit -> (factor, offset) in its own family: base = (value + offset) * factor
UNITS = {'len': {'m': (1.0, 0.0), 'cm': (0.01, 0.0), 'km': (1000.0, 0.0), 'ft': (0.3048, 0.0), 'inch': (0.0254, 0.0)},
         'temp': {'degK': (1.0, 0.0), 'degC': (1.0, 273.15), 'degR': (5.0 / 9.0, 0.0), 'degF': (5.0 / 9.0, 459.67)},
         'time': {'s': (1.0, 0.0), 'min': (60.0, 0.0), 'h': (3600.0, 0.0)}}
FAMILY = {u: f for f in UNITS for u in UNITS[f]}


def conv(src_units, tgt_units):
    """(scale, offset): target value = scale * (source value + offset)"""
    if not src_units or not tgt_units or src_units == tgt_units:
        return 1.0, 0.0
    fs, os_ = UNITS[FAMILY[src_units]][src_units]
    ft, ot = UNITS[FAMILY[tgt_units]][tgt_units]
    # (v + os)*fs/ft - ot = fs/ft * (v + os - ot*ft/fs)
    return fs / ft, os_ - ot * ft / fs


class Var(object):
    def __init__(self, name, shape, units=None, pbo=False, val=None):
        self.name, self.shape, self.units, self.pbo = name, shape, units, pbo
        self.size = 0 if pbo else (1 if shape == 1 else int(np.prod(shape)))
        self.val = val
        self.abs = None
        self.scaler = None
        self.lower = self.upper = None

    def init(self, rng, lo=-8, hi=8):
        if self.pbo:
            self.val = rng.choice(['abc', [1, 'x'], {'k': 2}, ('t',), 7])
            return
        if self.shape == 1:
            self.val = rng.randint(lo, hi) / 4.0
        else:
            self.val = np.array([rng.randint(lo, hi) / 4.0 for _ in range(self.size)]).reshape(self.shape)

    def flat(self):
        return np.atleast_1d(np.array(self.val, dtype=float)).flatten()


class CompSpec(object):
    kind = 'comp'

    def __init__(self, name):
        self.name = name
        self.params, self.outs, self.states = [], [], []
        self.A, self.B, self.C = {}, {}, {}    # (out, in) -> matrix; C: const of out; D: state matrices
        self.D = {}
        self.style = 'lin'
        self.promotes = []
        self.path = None
        self.parent = None
        self.runs = 0

    def ins(self):
        return [p for p in self.params if not p.pbo]

    def outputs(self):
        return [o for o in self.outs if not o.pbo]

    # y = C + sum A x + 1/2 (B x)^2        residual of state s: D s - (C + sum A x + 1/2 (B x)^2)
    def rhs(self, o, x):
        y = self.C[o.name].copy()
        for p in self.ins():
            k = (o.name, p.name)
            if k in self.A:
                y = y + self.A[k].dot(x[p.name])
            if k in self.B:
                y = y + 0.5 * self.B[k].dot(x[p.name]) ** 2
        return y

    def drhs(self, o, p, x):
        k = (o.name, p.name)
        J = np.zeros((o.size, p.size))
        if k in self.A:
            J = J + self.A[k]
        if k in self.B:
            J = J + self.B[k].dot(x[p.name])[:, None] * self.B[k]
        return J

    def eval(self, x):
        y = {o.name: self.rhs(o, x) for o in self.outputs()}
        for s in self.states:
            y[s.name] = np.linalg.solve(self.D[s.name], self.rhs(s, x))
        return y

    def jac(self, x):
        """exact derivative of unknowns wrt params"""
        J = {}
        for o in self.outputs():
            for p in self.ins():
                J[o.name, p.name] = self.drhs(o, p, x)
        for s in self.states:
            for p in self.ins():
                J[s.name, p.name] = np.linalg.solve(self.D[s.name], self.drhs(s, p, x))
        return J


class IndepSpec(CompSpec):
    kind = 'indep'

    def eval(self, x):
        return {o.name: o.flat() for o in self.outputs()}

    def jac(self, x):
        return {}


def _flat(v):
    return np.atleast_1d(np.asarray(v)).flatten()


class GenComp(Component):
    """the component that a CompSpec describes"""
    def __init__(self, spec):
        super(GenComp, self).__init__()
        self.spec = spec
        for p in spec.params:
            kw = {}
            if p.units:
                kw['units'] = p.units
            if p.pbo:
                kw['pass_by_obj'] = True
            if getattr(p, 'src_indices', None) is not None:
                kw['src_indices'] = p.src_indices
            kw.update(getattr(p, 'fdopts', None) or {})
            self.add_param(p.name, val=p.val if p.pbo or p.shape == 1 else p.val.copy(), **kw)
        for o in spec.unknown_order:
            kw = {}
            if o.units:
                kw['units'] = o.units
            if o.lower is not None:
                kw['lower'] = o.lower
            if o.upper is not None:
                kw['upper'] = o.upper
            v = o.val if o.pbo or o.shape == 1 else o.val.copy()
            if o in spec.states:
                if o.scaler:
                    kw['resid_scaler'] = o.scaler
                self.add_state(o.name, val=v, **kw)
            else:
                if o.pbo:
                    kw['pass_by_obj'] = True
                self.add_output(o.name, val=v, **kw)
        if spec.style == 'mf':
            self.apply_linear = self._mf
        elif spec.style == 'fd':
            self.deriv_options['type'] = 'fd'
            self.deriv_options['form'] = 'central'
            self.deriv_options['step_size'] = 1e-3

    def _x(self, params):
        return {p.name: _flat(params[p.name]) for p in self.spec.ins()}

    def _put(self, vec, o, y):
        if o.shape == 1:
            vec[o.name] = y[0]
        else:
            vec[o.name] = y.reshape(o.shape)

    def solve_nonlinear(self, params, unknowns, resids):
        self.spec.runs += 1
        x = self._x(params)
        y = self.spec.eval(x)
        self.spec.seen = {p.name: params[p.name] for p in self.spec.params}
        for o in self.spec.unknown_order:
            if o.pbo:
                unknowns[o.name] = ('out', o.name, tuple(repr(params[p.name]) for p in self.spec.params if p.pbo))
            else:
                self._put(unknowns, o, y[o.name])

    def _resid(self, params, unknowns, resids):
        x = self._x(params)
        for o in self.spec.unknown_order:
            if o.pbo:
                continue
            u = _flat(unknowns[o.name])
            if o in self.spec.states:
                r = self.spec.D[o.name].dot(u) - self.spec.rhs(o, x)
            else:
                r = self.spec.rhs(o, x) - u
            self._put(resids, o, r)

    def _partials(self, params):
        x = self._x(params)
        J = {}
        for o in self.spec.unknown_order:
            if o.pbo:
                continue
            sg = -1.0 if o in self.spec.states else 1.0
            for p in self.spec.ins():
                k = (o.name, p.name)
                if k in self.spec.A or k in self.spec.B:
                    J[k] = sg * self.spec.drhs(o, p, x)
            if o in self.spec.states:
                J[o.name, o.name] = self.spec.D[o.name].copy()
        return J

    def linearize(self, params, unknowns, resids):
        self._save = self._partials(params)
        return self._save if self.spec.style == 'lin' else None

    def _mf(self, params, unknowns, dparams, dunknowns, dresids, mode):
        J = self._partials(params)
        for o in self.spec.unknown_order:
            if o.pbo or o.name not in dresids:
                continue
            for (on, i), M in J.items():
                if on != o.name:
                    continue
                isout = i in dunknowns if i in [s.name for s in self.spec.states] else False
                vec = dunknowns if i in [s.name for s in self.spec.states] else dparams
                if i not in vec:
                    continue
                if mode == 'fwd':
                    d = M.dot(_flat(vec[i]))
                    dresids[on] += d[0] if o.shape == 1 else d.reshape(o.shape)
                else:
                    d = M.T.dot(_flat(dresids[on]))
                    sh = np.shape(vec[i])
                    vec[i] += d[0] if sh == () else d.reshape(sh)

    def _solve_linear(self, dumat, drmat, vois, mode=None):
        for voi in vois:
            du, dr = self.dumat[voi], self.drmat[voi]
            for o in self.spec.unknown_order:
                if o.pbo or o.name not in du:
                    continue
                if o in self.spec.states:
                    D = self.spec.D[o.name] / (o.scaler or 1.0)
                    src, dst = (dr, du) if mode == 'fwd' else (du, dr)
                    M = D if mode == 'fwd' else D.T
                    self._put(dst, o, np.linalg.solve(M, _flat(src[o.name])))
                else:
                    src, dst = (dr, du) if mode == 'fwd' else (du, dr)
                    self._put(dst, o, -_flat(src[o.name]))


class GenStateComp(GenComp):
    """one with states, which it solves itself"""
    def apply_nonlinear(self, params, unknowns, resids):
        self._resid(params, unknowns, resids)

    def solve_linear(self, dumat, drmat, vois, mode=None):
        self._solve_linear(dumat, drmat, vois, mode)


class GroupSpec(object):
    def __init__(self, name):
        self.name = name
        self.children = []
        self.promotes = []
        self.connects = []
        self.parent = None
        self.path = ''


def matches(name, patterns):
    return any(fnmatch.fnmatchcase(name, p) for p in patterns)


class Model(object):
    def __init__(self, rng, ncomp=None, depth=3, units=True, pbo=True, states=False, src_indices=True, quad=True,
                 styles=('lin',), cyclic=False, promote=0.5, unconnected=0.25, arrays=True, explicit_only=False,
                 bounds=False, two_d=True, contract=0.15, scalers=False):
        self.rng = rng
        self.o = dict(units=units, pbo=pbo, states=states, src_indices=src_indices, quad=quad, styles=styles,
                      cyclic=cyclic, promote=promote, unconnected=unconnected, arrays=arrays,
                      explicit_only=explicit_only, bounds=bounds, two_d=two_d, contract=contract, scalers=scalers)
        self.nv = 0
        self.comps = []
        self.root = GroupSpec('')
        self._tree(ncomp or rng.randint(3, 7), depth)
        self._vars()
        self._wire()
        self._realise()

    # ---------------------------------------------------------------- structure
    def _tree(self, n, depth):
        rng = self.rng
        made = [0]

        def fill(g, k, d):
            used = set()
            pool = ['c', 'c1', 'c10', 'g', 'g1', 'sub', 'sub1', 's', 'sub_a', 'ab', 'abc', 'a']
            rng.shuffle(pool)
            while k > 0:
                name = pool.pop() if pool else 'z%d' % made[0]
                made[0] += 1
                if name in used:
                    continue
                used.add(name)
                if d > 0 and k > 1 and rng.random() < 0.45:
                    m = rng.randint(1, k)
                    sg = GroupSpec(name)
                    g.children.append(sg)
                    sg.parent = g
                    fill(sg, m, d - 1)
                    k -= m
                else:
                    c = (IndepSpec if (not self.comps or rng.random() < 0.2) else CompSpec)(name)
                    c.parent = g
                    g.children.append(c)
                    self.comps.append(c)
                    k -= 1
        fill(self.root, n, depth)
        if not any(c.kind == 'comp' for c in self.comps):
            c = CompSpec('tail')
            c.parent = self.root
            self.root.children.append(c)
            self.comps.append(c)

        def paths(g):
            for ch in g.children:
                ch.path = (g.path + '.' if g.path else '') + ch.name
                if isinstance(ch, GroupSpec):
                    paths(ch)
        paths(self.root)
        self.groups = []

        def collect(g):
            self.groups.append(g)
            for ch in g.children:
                if isinstance(ch, GroupSpec):
                    collect(ch)
        collect(self.root)

    def newname(self, stem):
        self.nv += 1
        return '%s%d' % (stem, self.nv)

    def shape(self):
        rng = self.rng
        if not self.o['arrays'] or rng.random() < 0.3:
            return 1
        if self.o['two_d'] and rng.random() < 0.25:
            return (rng.randint(1, 2), rng.randint(1, 3))
        return (rng.randint(1, 4),)

    def mat(self, m, n):
        return np.array([[self.rng.choice([-2, -1, 0, 0.5, 1, 2, 3]) for _ in range(n)] for _ in range(m)]) * self.o['contract'] * 2

    def _vars(self):
        rng, o = self.rng, self.o
        for c in self.comps:
            if c.kind == 'indep':
                for _ in range(rng.randint(1, 3)):
                    v = Var(self.newname('v'), self.shape(), pbo=o['pbo'] and rng.random() < 0.12)
                    if o['units'] and not v.pbo and rng.random() < 0.5:
                        v.units = rng.choice(sorted(FAMILY))
                    v.init(rng)
                    c.outs.append(v)
            else:
                c.style = rng.choice(list(o['styles']))
                for _ in range(rng.randint(1, 2)):
                    v = Var(self.newname('v'), self.shape(), pbo=o['pbo'] and rng.random() < 0.1)
                    if o['units'] and not v.pbo and rng.random() < 0.4:
                        v.units = rng.choice(sorted(FAMILY))
                    v.init(rng)
                    c.outs.append(v)
                if o['states'] and rng.random() < 0.5:
                    for _ in range(rng.randint(1, 2)):
                        v = Var(self.newname('st'), self.shape())
                        v.init(rng)
                        if o['scalers'] and rng.random() < 0.5:
                            v.scaler = rng.choice([2.0, 0.25, 10.0])
                        c.states.append(v)
                if c.states and c.style == 'fd':
                    c.style = 'lin'
            c.unknown_order = c.outs + c.states
            rng.shuffle(c.unknown_order)
            for v in c.unknown_order:
                v.abs = c.path + '.' + v.name
                v.comp = c
                if o['bounds'] and not v.pbo and c.kind == 'comp' and rng.random() < 0.6:
                    v.lower = -1e3
                    v.upper = 1e3
        self.unknowns = OrderedDict((v.abs, v) for c in self.comps for v in c.unknown_order)

    def _wire(self):
        """choose the source of every param"""
        rng, o = self.rng, self.o
        self.src = OrderedDict()           # abs param -> (abs source, idx list or None)
        self.params = OrderedDict()
        order = {c: i for i, c in enumerate(self.comps)}
        for c in self.comps:
            if c.kind == 'indep':
                continue
            cand = [v for v in self.unknowns.values() if (order[v.comp] < order[c] or
                                                          (o['cyclic'] and v.comp is not c and v.comp.kind == 'comp'))]
            for _ in range(rng.randint(1, 3)):
                if cand and rng.random() > o['unconnected']:
                    s = rng.choice(cand)
                    idx = None
                    shape = s.shape
                    if not s.pbo and o['src_indices'] and s.shape != 1 and rng.random() < 0.4:
                        n = rng.randint(1, 3)
                        idx = [rng.randrange(s.size) for _ in range(n)]
                        shape = 1 if n == 1 and rng.random() < 0.5 else (n,)
                        if n == 2 and rng.random() < 0.3 and o['two_d']:
                            shape = (1, 2)
                    p = Var(self.newname('x'), shape, pbo=s.pbo)
                    if s.units and rng.random() < 0.7:
                        p.units = rng.choice(sorted(UNITS[FAMILY[s.units]]))
                    p.init(rng)
                    if s.pbo:
                        p.val = s.val
                    p.source = s
                    p.idx = idx
                else:
                    p = Var(self.newname('x'), self.shape(), pbo=o['pbo'] and rng.random() < 0.1)
                    p.init(rng)
                    p.source, p.idx = None, None
                p.comp = c
                p.src_indices = None
                c.params.append(p)
            for out in c.outputs() + c.states:
                c.C[out.name] = np.array([rng.randint(-4, 4) / 2.0 for _ in range(out.size)])
                for p in c.ins():
                    if rng.random() < 0.85:
                        c.A[out.name, p.name] = self.mat(out.size, p.size)
                    if o['quad'] and rng.random() < 0.4:
                        c.B[out.name, p.name] = self.mat(out.size, p.size)
                if out in c.states:
                    M = self.mat(out.size, out.size)
                    c.D[out.name] = M * 0.3 + np.eye(out.size) * rng.choice([2.0, 3.0, -2.0])

    # ---------------------------------------------------------------- names
    def _prom_in(self, v, g):
        """promoted name of variable v as seen from group g (None outside)"""
        name = v.name
        s = v.comp
        while True:
            if not matches(name, s.promotes):
                name = s.name + '.' + name
            s = s.parent
            if s is g:
                return name
            if s is None:
                return None

    def _ancestors(self, c):
        r = []
        g = c.parent
        while g is not None:
            r.append(g)
            g = g.parent
        return r

    def _realise(self):
        rng, o = self.rng, self.o
        # choose promotions
        for s in self.comps + self.groups[1:]:
            s.promotes = []
        implicit = []
        for c in self.comps:
            for p in c.params:
                p.how = 'explicit' if p.source is not None else None
                if p.source is None or p.idx is not None and rng.random() < 0.5:
                    continue
                if o['explicit_only'] or rng.random() > o['promote']:
                    continue
                s = p.source
                if s.name in [q.name for q in c.params] or s.comp is c:
                    continue
                # take the source's name and promote both up to a common group
                p.oldname = p.name
                ren = s.name
                for d in (c.A, c.B):
                    for k in [k for k in d if k[1] == p.name]:
                        d[k[0], ren] = d.pop(k)
                p.name = ren
                p.how = 'implicit'
                common = [g for g in self._ancestors(c) if g in self._ancestors(s.comp)]
                g = rng.choice(common)
                for v in (p, s):
                    x = v.comp
                    while x is not g:
                        if v.name not in x.promotes:
                            x.promotes.append(v.name)
                        x = x.parent
                # above g the shared name may or may not be promoted further: same for both
        allv = [v for c in self.comps for v in c.unknown_order + c.params]
        # random further promotions and wildcards, innermost systems first
        for s in self.comps + self.groups[:0:-1]:
            if isinstance(s, GroupSpec):
                inside = [v for v in allv if s in self._ancestors(v.comp)]
                names = sorted(set(self._prom_in(v, s) for v in inside))
            else:
                names = sorted(set(v.name for v in allv if v.comp is s))
            for n in names:
                if rng.random() < 0.2 and n not in s.promotes:
                    s.promotes.append(n)
            if rng.random() < 0.15 and names:
                s.promotes.append(rng.choice(['*', rng.choice(names)[:2] + '*']))
            # every pattern must match something
            s.promotes = [q for q in s.promotes if any(matches(n, [q]) for n in names)]
        for c in self.comps:
            for v in c.unknown_order + c.params:
                v.abs = c.path + '.' + v.name
                v.top = self._prom_in(v, self.root)
        self.unknowns = OrderedDict((v.abs, v) for c in self.comps for v in c.unknown_order)
        self.params = OrderedDict((p.abs, p) for c in self.comps for p in c.params)
        # explicit connections for what promotion does not connect
        tops = {v.top: v for v in self.unknowns.values()}
        for p in self.params.values():
            s = p.source
            if p.top in tops and tops[p.top] is not s:
                # the name happens to be that of another source: cannot happen (names are unique)
                raise AssertionError('ambiguous name')
        for p in self.params.values():
            s = p.source
            if s is None:
                continue
            if p.top == s.top:
                p.how = 'implicit'
                p.src_indices = p.idx
                continue
            p.how = 'explicit'
            common = [g for g in self._ancestors(p.comp) if g in self._ancestors(s.comp)]
            g = rng.choice(common)
            if p.idx is not None and rng.random() < 0.5:
                p.src_indices = p.idx
                g.connects.append((self._prom_in(s, g), self._prom_in(p, g), None))
            elif p.idx is not None:
                g.connects.append((self._prom_in(s, g), self._prom_in(p, g), list(p.idx)))
            else:
                g.connects.append((self._prom_in(s, g), self._prom_in(p, g), None))
        # params that share a promoted name share their source
        self.conns = OrderedDict()
        for p in self.params.values():
            if p.source is not None:
                self.conns[p.abs] = (p.source.abs, p.idx)

    def consistent(self):
        """params promoted to the same name must not be wired differently"""
        by = {}
        for p in self.params.values():
            by.setdefault(p.top, []).append(p)
        for ps in by.values():
            if len(ps) < 2:
                continue
            s = set((q.source.abs if q.source else None) for q in ps)
            if len(s) > 1:
                return False
            if ps[0].source is None:
                return False
            if ps[0].top != ps[0].source.top:
                return False
        # the same at every group level: names joined in a group are connected together
        for g in self.groups:
            by = {}
            for p in self.params.values():
                n = self._prom_in(p, g) if g in self._ancestors(p.comp) else None
                if n is not None:
                    by.setdefault(n, []).append(p)
            for ps in by.values():
                if len(ps) > 1:
                    s = set((q.source.abs if q.source else None) for q in ps)
                    if len(s) > 1:
                        return False
                    if g is not self.root and len(set(q.top == q.source.top for q in ps if q.source)) > 1:
                        return False
                    if not all(q.source and q.top == q.source.top for q in ps):
                        return False
        return True

    # ---------------------------------------------------------------- build
    def build(self, rng=None):
        def mk(g):
            G = Group()
            for ch in g.children:
                if isinstance(ch, GroupSpec):
                    s = mk(ch)
                elif ch.kind == 'indep':
                    s = self._indep(ch)
                else:
                    s = (GenStateComp if ch.states else GenComp)(ch)
                G.add(ch.name, s, promotes=list(ch.promotes))
                ch.system = s
            for src, tgt, idx in g.connects:
                if idx is None:
                    G.connect(src, tgt)
                else:
                    G.connect(src, tgt, src_indices=list(idx))
            g.system = G
            return G
        p = Problem()
        p.root = mk(self.root)
        return p

    def _indep(self, c):
        lst = []
        for v in c.unknown_order:
            kw = {}
            if v.units:
                kw['units'] = v.units
            if v.pbo:
                kw['pass_by_obj'] = True
            lst.append((v.name, v.val if v.pbo or v.shape == 1 else v.val.copy(), kw))
        return IndepVarComp(lst)

    def has_states(self, g):
        return any(c.states for c in self.comps if g in self._ancestors(c))

    def setup(self, **kw):
        p = self.build()
        for f in kw.pop('hooks', ()):
            f(p)
        p.setup(check=False, **kw)
        return p

    # ---------------------------------------------------------------- oracle
    def param_value(self, p, u):
        """flat value of a numeric param given all unknown values"""
        if p.source is None:
            return p.flat()
        v = u[p.source.abs]
        if p.idx is not None:
            v = v[np.array(p.idx, dtype=int)]
        sc, of = conv(p.source.units, p.units)
        return sc * (v + of)

    def evaluate(self, over=None, u=None):
        """flat values of all numeric unknowns, components run once in order"""
        u = dict(u) if u is not None else {v.abs: v.flat() for v in self.unknowns.values() if not v.pbo}
        if over:
            u.update({k: np.array(x, dtype=float) for k, x in over.items()})
        for c in self.comps:
            if c.kind == 'indep':
                continue
            x = {p.name: self.param_value(p, u) for p in c.ins()}
            for n, y in c.eval(x).items():
                u[c.path + '.' + n] = y
        return u

    def fixed_point(self, over=None, n=400):
        u = self.evaluate(over)
        for _ in range(n):
            w = self.evaluate(over, u)
            d = max([np.max(np.abs(w[k] - u[k])) for k in w if w[k].size] or [0.0])
            u = w
            if d < 1e-14:
                return u
        return None

    def pjac(self, u, p):
        """d param / d source"""
        s = p.source
        M = np.zeros((p.size, s.size))
        sc, _ = conv(s.units, p.units)
        idx = p.idx if p.idx is not None else range(s.size)
        for r, k in enumerate(idx):
            M[r, k] += sc
        return M

    def layout(self):
        off, n = OrderedDict(), 0
        for a, v in self.unknowns.items():
            if not v.pbo:
                off[a] = (n, n + v.size)
                n += v.size
        return off, n

    def system_matrix(self, u):
        """d unknowns (explicit form) / d unknowns: y - F(y) = 0, returns I - dF/dy"""
        off, n = self.layout()
        M = np.eye(n)
        for c in self.comps:
            if c.kind == 'indep':
                continue
            x = {p.name: self.param_value(p, u) for p in c.ins()}
            J = c.jac(x)
            for (on, pn), D in J.items():
                p = [q for q in c.params if q.name == pn][0]
                if p.source is None:
                    continue
                a, b = off[c.path + '.' + on]
                e, f = off[p.source.abs]
                M[a:b, e:f] -= D.dot(self.pjac(u, p))
        return M, off

    def totals(self, u):
        """d of every unknown wrt every unknown's independent value"""
        M, off = self.system_matrix(u)
        return np.linalg.inv(M), off

    def describe(self):
        out = []

        def rec(g, ind):
            for ch in g.children:
                out.append('%s%s %s promotes=%s' % ('  ' * ind, 'group' if isinstance(ch, GroupSpec) else ch.kind, ch.name, ch.promotes))
                if isinstance(ch, GroupSpec):
                    rec(ch, ind + 1)
                else:
                    for v in ch.unknown_order:
                        out.append('%s  out %s %s %s%s%s' % ('  ' * ind, v.name, v.shape, v.units or '', ' pbo' if v.pbo else '', ' state' if v in ch.states else ''))
                    for p in ch.params:
                        out.append('%s  par %s %s %s <- %s %s (%s)' % ('  ' * ind, p.name, p.shape, p.units or '', p.source.abs if p.source else None, p.idx, p.how))
            for cn in g.connects:
                out.append('%sconnect %s' % ('  ' * ind, cn))
        rec(self.root, 0)
        return '\n'.join(out)


def model(rng, **kw):
    """a random model whose promotions and connections are consistent"""
    for _ in range(200):
        try:
            m = Model(rng, **kw)
        except AssertionError:
            continue
        if m.consistent():
            return m
    raise RuntimeError('no consistent model')


def system_at(problem, path):
    s = problem.root
    for part in path.split('.') if path else []:
        s = s._subsystems[part]
    return s
