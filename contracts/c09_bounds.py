"""C09: Newton and line-search steps respect declared bounds."""
import itertools
from pyvc.contract import *
from contracts.c01_storage import var, srcvec
from contracts.c03_adjoint import dvec, fill
from openmdao.core.vec_wrapper import SrcVecWrapper

M = 'openmdao.core.vec_wrapper:'
NAMES = ('a', 'b', 'z')


def bound(c, name, kind, shape):
    if kind == 'none':
        return None, None
    if kind == 'real' or shape == 1:
        x = c.real(name, pool=(-2.0, -1.0, 0.0, 0.5, 2.0, 3.0))
        return x, lambda i: x
    x = c.array(name, shape)
    x0 = c.snap(x)
    f = c.flat(x0) if len(shape) == 2 else x0
    return x, lambda i: c.at(f, i)


def le(c, a, b):
    return Or(a <= b, c.eq(a, b))


class Limit(Contract):
    """every element gets the longest step up to the requested one that keeps it within its limits"""
    prop = 'C09'
    target = M + 'SrcVecWrapper.distance_along_vector_to_limit'
    cases = tuple((k, lo, up, 'none') for k in ('scalar', 'flat', 'matrix') for lo, up in itertools.product(('none', 'real', 'array'), repeat=2)
                  if k != 'scalar' or 'array' not in (lo, up)) + (('scalar', 'none', 'real', 'both'), ('flat', 'real', 'none', 'both'), ('flat', 'none', 'none', 'both'))
    weight = 2
    timeout_ms = 20000

    def build(self, c, case):
        kind, lo, up, extra = case
        vs = [var(c, 'a', 'object', upper=1.0 if extra == 'both' else None), var(c, 'b', kind), var(c, 'z', 'flat')]
        S = NS(vs=vs, lim={})
        for v, l, u in ((vs[1], lo, up), (vs[2], 'real' if extra == 'both' else 'none', 'none')):
            L, l_ = bound(c, v.name + '_lower', l, v.shape)
            U, u_ = bound(c, v.name + '_upper', u, v.shape)
            n = v.size
            v0 = c.flat(v.v0) if v.kind == 'matrix' else v.v0
            x_ = (lambda i, v0=v0: c.at(v0, i)) if v.kind != 'scalar' else (lambda i, v0=v0: v0)
            for key, B, f, sg in (('lower', L, l_, 1), ('upper', U, u_, -1)):
                if B is None:
                    if v.name == 'b' and c.flag(key + '_key'):
                        c.put(v.m, key, None)
                    continue
                c.put(v.m, key, B)
                if v.kind == 'scalar':
                    c.assume(f(0) <= x_(0) if sg > 0 else x_(0) <= f(0))
                else:
                    c.assume(c.forall(0, n, lambda i, f=f, x_=x_: f(i) <= x_(i) if sg > 0 else x_(i) <= f(i)))
            S.lim[v.name] = (l_, u_, x_)
        S.total = vs[1].size + vs[2].size
        S.du = dvec(c, SrcVecWrapper, 'du', S.total, 'du')
        S.du0 = c.snap(c.attr(S.du, 'vec'))
        S.alpha = c.array('alpha', S.total, lo=0.0)
        S.a0 = c.snap(S.alpha)
        vec = srcvec(c, NAMES)
        dm = [(v.name, v.m) for v in vs[1:]]
        S.args = (vec, c.odict([(v.name, v.m) for v in vs]), S.alpha, S.du, dm)
        return S

    @staticmethod
    def program(vec, ud, alpha, du, dm):
        vec.setup(ud, None, None, True, None, False, 'u')
        fill(du, dm)
        start = vec.vec.copy()
        got = vec.distance_along_vector_to_limit(alpha, du)
        return got, start, vec.vec

    @staticmethod
    def limited(a, diff, step):
        """the step granted to an element: `diff` is the signed distance to the limit"""
        return Ite(And(step * diff >= 0, step != 0, diff <= a * step if False else True), a, a)

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            al = L.alpha
            if isinstance(k, int):
                S.entry = c.snap(al)
            e = S.entry
            idx, diff, step = L.idx, L.diff, L.step
            n = c.len(diff)

            def moved(i):
                d, s, a = c.at(diff, i), c.at(step, i), c.at(e, idx + i)
                hit = And(s != 0, d * s >= 0, Or(And(s > 0, d < a * s), And(s < 0, d > a * s)))
                got = c.at(al, idx + i)
                return And(Implies(hit, got * s == d), Implies(Not(hit), got == a))
            return [('elements so far are limited', c.forall(0, k, moved)),
                    ('the others are not changed', c.forall(0, c.len(al), lambda i: Implies(Or(i < idx, i >= idx + k), lambda: c.at(al, i) == c.at(e, i))))]
        return {1: LoopSpec(inv=inv), 2: LoopSpec(inv=inv)}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        got, start, end = out.value
        c.check('the unknowns and the step are not changed', And(c.eq(start, end), c.eq(c.attr(S.du, 'vec'), S.du0)))
        c.check('one step length for every element', c.eq(c.len(got), S.total))
        pos = 0
        for v in S.vs[1:]:
            lo, up, x = S.lim[v.name]

            def step(i, pos=pos):
                return c.at(S.du0, pos + i), c.at(S.a0, pos + i), c.at(got, pos + i)

            def within(i):
                d, a, g = step(i)
                return And([0 <= g, g <= a] + ([le(c, lo(i), x(i) + g * d)] if lo else []) + ([le(c, x(i) + g * d, up(i))] if up else []))

            def longest(i):
                d, a, g = step(i)
                stop = [g == a]
                if lo:
                    stop.append(And(d < 0, c.eq(x(i) + g * d, lo(i))))
                    stop.append(And(d > 0, x(i) == lo(i), g == 0))      # known finding: no step away from a bound
                if up:
                    stop.append(And(d > 0, c.eq(x(i) + g * d, up(i))))
                    stop.append(And(d < 0, x(i) == up(i), g == 0))
                return Or(stop)
            c.check('%s stays within its limits' % v.name, c.forall(0, v.size, within))
            c.check('the step of %s is the longest' % v.name, c.forall(0, v.size, longest))
            pos = pos + v.size
