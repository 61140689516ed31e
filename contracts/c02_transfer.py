"""C02/C03: data transfer copies exactly the connected values; its reverse is its transpose."""
import itertools
from collections import OrderedDict
import numpy as np
from pyvc.contract import *
from contracts.c01_storage import plain
from openmdao.core.data_transfer import DataTransfer
from openmdao.core.fileref import FileRef
from openmdao.core.group import Group
from openmdao.core.mpi_wrap import FakeComm
from openmdao.core.problem import _ProbData
from openmdao.core.relevance import Relevance
from openmdao.core.vec_wrapper import VecWrapper, SrcVecWrapper, TgtVecWrapper, Accessor, _ByObjWrapper
from openmdao.util.array_util import to_slice

M = 'openmdao.core.data_transfer:'


class ToSlice(Contract):
    """an index array becomes a slice only if the slice selects the same elements in the same order"""
    prop = 'C02'
    target = 'openmdao.util.array_util:to_slice'

    def build(self, c, case):
        n = c.int('n', 0)
        size = c.int('size', 1)
        idx = c.index_array('idx', n, size)
        return NS(n=n, idx=idx, i0=c.snap(idx), args=(idx,))

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        r = out.value
        if isinstance(r, slice):
            st = 1 if r.step is None else r.step
            c.check('a slice without a step is a single element', Iff(r.step is None, S.n == 1))
            c.induct('equal differences', S.n, lambda k: c.at(S.i0, k) == r.start + k * st)
            c.check('the slice selects the same elements in the same order', And(st > 0,
                    c.forall(0, S.n, lambda k: c.at(S.i0, k) == r.start + k * st), c.eq(r.stop, r.start + S.n * st)))
        else:
            c.check('otherwise the array itself', c.same(r, S.idx))
        c.check('the array is not modified', c.eq(S.idx, S.i0))


def to_slice_contract(c):
    """what ToSlice proves about to_slice"""
    def f(idxs):
        n = c.len(idxs)
        if c.flag('kept as it is'):
            c.assume(n != 1)
            return idxs
        c.assume(n >= 1)
        if bool(n == 1):
            return slice(c.at(idxs, 0), c.at(idxs, 0) + 1, None)
        c.e.count_hints.append(n)
        if c.flag('stride one'):
            st = 1
        else:
            st = c.int('stride', 2, small=None)
        c.assume(c.forall(0, n, lambda k: c.at(idxs, k) == c.at(idxs, 0) + k * st), c.at(idxs, n - 1) == c.at(idxs, 0) + (n - 1) * st)
        return slice(c.at(idxs, 0), c.at(idxs, 0) + n * st, st)
    return c.model(f, 'to_slice')


def vec(c, name, n, pd, cs=False):
    v = c.obj(VecWrapper, vec=c.array(name, n), _probdata=pd, _dat=c.odict())
    if cs:
        im = c.array(name + '_imag', n)
        if c.sym:
            v.attrs['imag_vec'] = im
        else:
            v.imag_vec = im
    return v


def sel(c, s, k):
    """the k-th element an index object selects"""
    if isinstance(s, slice):
        return s.start + k * (1 if s.step is None else s.step)
    return c.at(s, k)


def selects(c, s, n, want):
    """s selects exactly the n elements want(0), want(1), ..."""
    if isinstance(s, slice):
        st = 1 if s.step is None else s.step
        head = And(st > 0, c.eq(s.stop, s.start + n * st))
    else:
        head = c.eq(c.len(s), n)
    return And(head, Implies(head, lambda: c.forall(0, n, lambda k: c.eq(sel(c, s, k), want(k)))))


class Scatters(Contract):
    """the scatters made from two connections pair every source element with its target element, in order"""
    prop = 'C02'
    target = M + 'DataTransfer.__init__'
    cases = tuple(itertools.product(('any', 'one'), ('any', 'one'), ('fwd', 'rev')))
    timeout_ms = 20000

    def uses(self, c, S):
        return {'to_slice': to_slice_contract(c)}

    def build(self, c, case):
        L = []
        size = c.int('size', 1)
        for k in (0, 1):
            n = c.int('n%d' % k, 1) if case[k] == 'any' else 1
            L.append(NS(n=n, src=c.index_array('src%d' % k, n, size), tgt=c.index_array('tgt%d' % k, n, size)))
        if not c.sym and c.flag('adjacent runs'):
            a = 0
            for x in L:
                for j in range(x.n):
                    x.src[j] = x.tgt[j] = a
                    a += 1
        for x in L:
            x.s0, x.t0 = c.snap(x.src), c.snap(x.tgt)
        conns, objs, sd = c.list([]), c.list([]), c.opaque('sysdata', plain)
        return NS(L=L, conns=conns, objs=objs, sd=sd, mode=case[2],
                  args=(c.list([x.src for x in L]), c.list([x.tgt for x in L]), conns, objs, case[2], sd))

    @staticmethod
    def program(src_idxs, tgt_idxs, conns, objs, mode, sd):
        return DataTransfer(src_idxs, tgt_idxs, conns, objs, mode, sd)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        d = out.value
        sc = c.keys_(c.attr(d, 'scatters'))
        c.check('connections are kept', And(c.same(c.attr(d, 'vec_conns'), S.conns), c.same(c.attr(d, 'byobj_conns'), S.objs)))
        c.check('one or two scatters', len(sc) in (1, 2))
        alts = []
        for x, y in (S.L, S.L[::-1]):
            fs = []
            for which, i in (('s0', 0), ('t0', 1)):
                a, b = getattr(x, which), getattr(y, which)
                if len(sc) == 2:
                    fs += [selects(c, sc[0][i], x.n, lambda k, a=a: c.at(a, k)), selects(c, sc[1][i], y.n, lambda k, b=b: c.at(b, k))]
                else:
                    n = x.n + y.n
                    s = sc[0][i]
                    head = c.eq(s.stop, s.start + n * (1 if s.step is None else s.step)) if isinstance(s, slice) else c.eq(c.len(s), n)
                    fs += [head, Implies(head, lambda: And(c.forall(0, x.n, lambda k: c.eq(sel(c, s, k), c.at(a, k))),
                           c.forall(0, y.n, lambda k: c.eq(sel(c, s, x.n + k), c.at(b, k)))))]
            alts.append(And(fs))
        c.check('the scatters are the connections, element by element', Or(alts))
        if S.mode == 'rev':
            for e in sc:
                if isinstance(e[0], slice):
                    continue
                n = c.len(e[0])
                c.check('repeated source elements are recognised', Implies(e[2], lambda: c.forall(0, n, lambda i: c.forall(0, n, lambda j: Or(i == j, c.at(e[0], i) != c.at(e[0], j))))))


FORMS = ('array', 'run', 'step', 'one')


class TransferFwd(Contract):
    """two scatters: any elements in any order, into any distinct target elements"""
    prop = 'C02'
    target = M + 'DataTransfer.transfer'
    cases = tuple(x + (cs,) for x in (('array', 'array', 'array', 'array'), ('array', 'run', 'run', 'run'),
                                      ('array', 'run', 'step', 'run'), ('run', 'array', 'one', 'one'), ('run', 'run', 'run', 'run'),
                                      ('step', 'run', 'array', 'array'), ('run', 'step', 'array', 'run'), ('step', 'array', 'one', 'one'))
                  for cs in (False, True))
    weight = 2

    def index(self, c, name, form, n, size, distinct):
        """(index object, selection function)"""
        if form == 'array':
            a = c.index_array(name, n, size, distinct=distinct)
            a0 = c.snap(a)
            return a, lambda k: c.at(a0, k), lambda q: c.exists(0, n, lambda i: c.at(a0, i) == q)
        st = 1
        if form == 'step':
            st = c.int(name + '_step', 2, small=None)
        a = c.int(name + '_start', 0, small=None)
        c.assume(a + (n - 1) * st < size)
        if c.sym:
            c.e.count_hints.append(n)
        return slice(a, a + n * st, None if form == 'one' else st), lambda k: a + k * st, \
            (lambda q: c.exists(0, n, lambda i: a + i * st == q)) if form == 'step' else lambda q: And(q >= a, q < a + n)

    def build(self, c, case):
        cs = case[4]
        pd = c.obj(_ProbData, in_complex_step=cs)
        ns, nt = c.int('nsrc', 1), c.int('ntgt', 1)
        L = []
        for k in (0, 1):
            f, g = case[2 * k:2 * k + 2]
            n = 1 if 'one' in (f, g) else c.int('n%d' % k, 1)
            si, sf, _ = self.index(c, 'src%d' % k, f, n, ns, False)
            ti, tf, hit = self.index(c, 'tgt%d' % k, g, n, nt, True)
            L.append(NS(n=n, si=si, ti=ti, sf=sf, tf=tf, hit=hit))
        a, b = L
        c.assume(c.forall(0, a.n, lambda i: c.forall(0, b.n, lambda j: a.tf(i) != b.tf(j))))
        S = NS(L=L, ns=ns, nt=nt, cs=cs, src=vec(c, 'u', ns, pd, cs), tgt=vec(c, 'p', nt, pd, cs))
        for nm in ('src', 'tgt'):
            v = getattr(S, nm)
            setattr(S, nm + '0', c.snap(c.attr(v, 'vec')))
            if cs:
                setattr(S, nm + '0i', c.snap(c.attr(v, 'imag_vec')))
        S.args = (c.list([(x.si, x.ti, True) for x in L]), S.src, S.tgt, c.flag('deriv'))
        return S

    @staticmethod
    def program(scatters, srcvec, tgtvec, deriv):
        d = DataTransfer([], [], [], [], 'fwd', None)
        d.scatters = scatters
        d.transfer(srcvec, tgtvec, 'fwd', deriv)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        for attr, sfx in (('vec', '0'), ('imag_vec', '0i'))[:2 if S.cs else 1]:
            t, s = c.attr(S.tgt, attr), c.attr(S.src, attr)
            t0, s0 = getattr(S, 'tgt' + sfx), getattr(S, 'src' + sfx)
            c.check('the source is not changed', c.eq(s, s0))
            for k, x in enumerate(S.L):
                c.check('every element of param %d receives its source element (%s)' % (k, attr),
                        c.forall(0, x.n, lambda i: c.eq(c.at(t, x.tf(i)), c.at(s0, x.sf(i)))))
            a, b = S.L
            c.check('nothing else changes (%s)' % attr, c.forall(0, S.nt, lambda q: Or(
                a.hit(q), b.hit(q),
                c.eq(c.at(t, q), c.at(t0, q)))))


class ObjectTransfer(Contract):
    """a pass-by-object param receives its source's object; derivative transfers move no objects"""
    prop = 'C02'
    target = M + 'DataTransfer.transfer'
    cases = (False, True)

    def build(self, c, case):
        pd = c.obj(_ProbData, in_complex_step=False)
        u, p = vec(c, 'u', 1, pd), vec(c, 'p', 1, pd)
        names = ('a', 'b', 'c')
        S = NS(o=[c.opaque('src' + n, plain) for n in names], t=[c.opaque('tgt' + n, plain) for n in names], deriv=case)
        S.args = (u, p, c.list(S.o), c.list(S.t), names, case)
        return S

    @staticmethod
    def program(u, p, us, ps, names, deriv):
        for n, a, b in zip(names, us, ps):
            meta = {'val': a, 'shape': None, 'pass_by_obj': True}
            u.vectype = p.vectype = 'u'
            u.deriv_units = p.deriv_units = False
            u._dat[n] = Accessor(u, None, a, meta, None, False)
            p._dat['x.' + n] = Accessor(p, None, b, meta, None, False)
        d = DataTransfer([], [], [], [('x.a', 'b'), ('x.c', 'b')], 'fwd', None)
        d.transfer(u, p, 'fwd', deriv)
        return [p['x.' + n] for n in names], [u[n] for n in names]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        ps, us = out.value
        c.check('connected params hold their source object', And([c.same(c.at(ps, k), S.t[k] if S.deriv else S.o[1]) for k in (0, 2)]))
        c.check('an unconnected one keeps its own', c.same(c.at(ps, 1), S.t[1]))
        c.check('sources are not changed', And([c.same(c.at(us, k), S.o[k]) for k in range(3)]))


class GlobalIndices(Contract):
    """where the elements of a connected pair sit in the vectors: after the variables before theirs, at the source
    indices given, and one after the other in the param"""
    prop = 'C02'
    target = 'openmdao.core.group:Group._get_global_idxs'
    cases = tuple((m, x, k, j) for m in ('fwd', 'rev') for x in ('all', 'some') for k in (0, 1, 2) for j in (0, 2))

    def build(self, c, case):
        mode, form, k, j = case
        S = NS(mode=mode, form=form, k=k, j=j)
        S.us = [c.int('u%d' % i, 1) for i in range(3)]
        S.ps = [c.int('p%d' % i, 1) for i in range(3)]
        if form == 'some':
            S.idx = c.index_array('src_indices', S.ps[j], S.us[k])
            S.i0 = c.snap(S.idx)
            pm = [('size', S.ps[j]), ('src_indices', S.idx)]
        else:
            c.assume(c.eq(S.ps[j], S.us[k]))
            pm = [('size', S.ps[j])]
        acc = lambda m: c.obj(Accessor, meta=c.dict(m), remote=False)
        uvec = c.obj(SrcVecWrapper, _dat=c.odict([('u%d' % i, acc([('size', S.us[i])])) for i in range(3)]))
        pvec = c.obj(TgtVecWrapper, _dat=c.odict([('p%d' % i, acc(pm if i == j else [('size', S.ps[i])])) for i in range(3)]))
        S.grp = c.obj(Group, pathname='g', unknowns=uvec, params=pvec, comm=c.obj(FakeComm, rank=0, size=1),
                      _owning_ranks=c.dict([('%s%d' % (x, i), 0) for x in 'up' for i in range(3)]))
        S.args = (S.grp, 'u%d' % k, 'p%d' % j, c.odict([('u%d' % i, i) for i in range(3)]), c.grid(1, 3, lambda a, b: S.us[b]),
                  c.odict([('p%d' % i, i) for i in range(3)]), c.grid(1, 3, lambda a, b: S.ps[b]), mode)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        src, tgt = out.value
        n = S.ps[S.j]
        us, ps = sum(S.us[:S.k]), sum(S.ps[:S.j])
        c.check('as many as the param has', And(c.eq(c.len(src), n), c.eq(c.len(tgt), n)))
        c.check('the source elements', c.forall(0, n, lambda q: c.eq(c.at(src, q), us + (c.at(S.i0, q) if S.form == 'some' else q))))
        c.check('the elements of the param, in order', c.forall(0, n, lambda q: c.eq(c.at(tgt, q), ps + q)))
        if S.form == 'some':
            c.check('the declared indices stay', c.eq(S.idx, S.i0))


class Transfers(Contract):
    """which transfers a group makes: for every subsystem, those of its own params forward and of its own outputs in reverse,
    and one of everything for either direction; only of params the group is responsible for, between relevant variables, each
    connection once, with the indices of _get_global_idxs"""
    prop = 'C02'
    target = 'openmdao.core.group:Group._setup_data_transfer'
    # connections: (param, its source), an object or an array
    PAIRS = (('s.x', 'a.y'), ('s.w', 'b.z'), ('t.s.x', 's.o'), ('t.q', 's.obj'))
    PAR = 'g.'
    cases = tuple((w, al) for w in ('root', 'sub') for al in (False, True))

    def build(self, c, case):
        where, alloc = case
        path = '' if where == 'root' else 'g'
        pre = path + '.' if path else ''
        S = NS(alloc=alloc, voi=c.choice('voi', [None, 'v']), pre=pre)
        us = ['a.y', 'b.z', 's.o', 's.obj']
        # the promoted names, not those of the path
        prom = {pre + u: 'P_' + u.split('.')[1] for u in us}
        S.mine = [c.flag('mine %s' % p) for p, u in self.PAIRS]
        gone = c.choice('irrelevant', [None] + us + [p for p, u in self.PAIRS])
        S.relp = [p != gone for p, u in self.PAIRS]
        S.relu = {u: u != gone for u in us}
        rel = c.set(['top ' + p for (p, u), r in zip(self.PAIRS, S.relp) if r] + ['top ' + u for u in us if S.relu[u]])
        sizes = {n: c.int('size ' + n, 0) for n in us + [p for p, u in self.PAIRS]}
        um = {u: c.dict([('top_promoted_name', 'top ' + u), ('pass_by_obj', True)] if u == 's.obj' else [('top_promoted_name', 'top ' + u)], label='meta ' + u) for u in us}
        pm = {p: c.dict([('top_promoted_name', 'top ' + p)], label='meta ' + p) for p, u in self.PAIRS}
        uvec = c.obj(SrcVecWrapper, _dat=c.odict([(prom[pre + u], c.obj(Accessor, meta=um[u])) for u in us]))
        pvec = c.obj(TgtVecWrapper, _dat=c.odict([(p, c.obj(Accessor, meta=pm[p])) for p, u in self.PAIRS]))
        S.dvec = [c.obj(SrcVecWrapper), c.obj(TgtVecWrapper)]
        S.vecs = S.dvec if alloc else [uvec, pvec]
        S.made = c.list([])

        def create(uv, pv, srcs, tgts, flats, objs, mode, sd):
            c.check('between the vectors of the group', And(c.same(uv, S.vecs[0]), c.same(pv, S.vecs[1])))
            x = c.obj(NS, srcs=srcs, tgts=tgts, flats=flats, objs=objs, mode=mode)
            return x

        def idxs(uname, pname, uidx, usz, pidx, psz, mode):
            # which variables count for the positions is the vectors' matter: those that are relevant, in their order
            c.check('positions among the relevant variables', And(
                [c.has(uidx, prom[pre + u]) == S.relu[u] for u in us] +
                [c.eq(c.item(uidx, prom[pre + u]), sum(1 for w in us[:us.index(u)] if S.relu[w])) for u in us if S.relu[u]] +
                [c.has(pidx, p) == r for (p, u), r in zip(self.PAIRS, S.relp)] +
                [c.eq(c.item(pidx, p), sum(1 for r in S.relp[:i] if r)) for i, (p, u) in enumerate(self.PAIRS) if S.relp[i]]))
            c.check('with their sizes', And(
                [c.eq(c.at(usz, 0, i), sizes[u]) for i, u in enumerate([u for u in us if S.relu[u]])] +
                [c.eq(c.at(psz, 0, i), sizes[p]) for i, p in enumerate([p for (p, u), r in zip(self.PAIRS, S.relp) if r])]))
            return ('src', uname, pname, mode), ('tgt', uname, pname, mode)
        S.xfer = c.odict()
        S.grp = c.obj(Group, pathname=path, unknowns=uvec, params=pvec, comm=c.obj(FakeComm, rank=0, size=1),
                      _probdata=c.obj(_ProbData, relevance=c.obj(Relevance, relevant=c.dict([(S.voi, rel)]))),
                      _sysdata=c.obj(NS, to_prom_name=c.dict(list(prom.items()))),
                      _u_size_lists=c.list([c.list([(prom[pre + u], sizes[u]) for u in us])]), _p_size_lists=c.list([c.list([(p, sizes[p]) for p, u in self.PAIRS])]),
                      _local_unknown_sizes=c.dict(), _local_param_sizes=c.dict(), _data_xfer=S.xfer,
                      connections=c.odict([(pre + p, (pre + u, None)) for p, u in self.PAIRS]),
                      _unknowns_dict=c.dict([(pre + u, um[u]) for u in us]), _params_dict=c.dict([(pre + p, pm[p]) for p, u in self.PAIRS]),
                      _get_global_idxs=c.method(idxs), dumat=c.dict([(S.voi, S.dvec[0])]), dpmat=c.dict([(S.voi, S.dvec[1])]),
                      _impl=c.obj(NS, idx_arr_type=int, create_data_xfer=c.method(create)))
        S.prom = prom
        S.args = (S.grp, c.set([pre + p for (p, u), m in zip(self.PAIRS, S.mine) if m]), S.voi, alloc)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        live = [i for i, (p, u) in enumerate(self.PAIRS) if S.mine[i] and S.relp[i] and S.relu[u]]
        want = {('', m, S.voi): [] for m in ('fwd', 'rev')}
        for i in live:
            p, u = self.PAIRS[i]
            for m, side in (('fwd', p), ('rev', u)):
                if m == 'rev' and u == 's.obj':
                    continue
                want.setdefault((side.split('.')[0], m, S.voi), []).append(i)
                want[('', m, S.voi)].append(i)
        c.check('exactly the transfers there are', set(c.keys(S.xfer)) == set(want))
        for k, idx in want.items():
            x = c.item(S.xfer, k)
            names = [(self.PAIRS[i][0], S.prom[S.pre + self.PAIRS[i][1]], self.PAIRS[i][1] == 's.obj') for i in idx]
            got = {f: [tuple(c.keys_(e)) if not isinstance(e, tuple) else e for e in c.keys_(c.attr(x, f))] for f in ('srcs', 'tgts', 'flats', 'objs')}
            c.check('in its direction', c.attr(x, 'mode') == k[1])
            flats = [(p, u) for p, u, o in names if not o]
            c.check('each connection of it once', sorted(got['flats']) == sorted(flats))
            c.check('objects by reference', sorted(got['objs']) == sorted((p, u) for p, u, o in names if o))
            c.check('the indices belong to the connections, in their order', And(got['srcs'] == [('src', u, p, k[1]) for p, u in got['flats']],
                                                                                 got['tgts'] == [('tgt', u, p, k[1]) for p, u in got['flats']]))


class Moves(Contract):
    """asking a group to hand on data runs the one transfer it made for that purpose, on the vectors meant, or nothing"""
    prop = 'C02'
    target = 'openmdao.core.group:Group._transfer_data'
    cases = tuple((s, m, d, v) for s in ('', 's') for m in ('fwd', 'rev') for d in (False, True) for v in (None, 'v'))

    def build(self, c, case):
        S = NS(key=(case[0], case[1], case[3]), deriv=case[2])
        S.log = c.list([])
        S.there = c.flag('there')

        def xfer(k):
            def transfer(u, p, mode='fwd', deriv=False):
                c.append(S.log, (k, mode, deriv))
                c.check('between the vectors meant', And(c.same(u, S.du[k[2]] if deriv else S.u), c.same(p, S.dp[k[2]] if deriv else S.p)))
            return c.obj(DataTransfer, transfer=c.method(transfer))
        keys = [(s, m, v) for s in ('', 's') for m in ('fwd', 'rev') for v in (None, 'v')]
        S.u, S.p = c.obj(SrcVecWrapper), c.obj(TgtVecWrapper)
        S.du, S.dp = {v: c.obj(SrcVecWrapper) for v in (None, 'v')}, {v: c.obj(TgtVecWrapper) for v in (None, 'v')}
        S.grp = c.obj(Group, pathname='g', unknowns=S.u, params=S.p, dumat=c.dict(list(S.du.items())), dpmat=c.dict(list(S.dp.items())),
                      _data_xfer=c.dict([(k, xfer(k)) for k in keys if S.there or k != S.key]))
        S.args = (S.grp, case[0], case[1], case[2], case[3])
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            log = [tuple(c.keys_(e)) if not isinstance(e, tuple) else e for e in c.keys_(S.log)]
            c.check('that transfer once, no other', log == ([(S.key, S.key[1], S.deriv)] if S.there else []))


class Owners(Contract):
    """every connected param is moved by exactly one group: the lowest that contains both ends"""
    prop = 'C02'
    target = 'openmdao.core.problem:_assign_parameters'
    cases = (0, 1, 2)

    def build(self, c, case):
        homes = ('a', 'ab', 'g.a', 'g.ab', 'g.h.a', 'g.h.b')
        S = NS(conn=OrderedDict())
        for k in range(case):
            s = c.choice('source %d' % k, homes)
            S.conn['%s.x%d' % (c.choice('target %d' % k, homes), k)] = s + ('.y' if k else c.choice('name', ['.y', '.x0']))
        c.assume(*[t != s for t, s in S.conn.items()])
        S.args = (c.odict([(t, (s, None)) for t, s in S.conn.items()]),)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        want = {}
        for t, s in S.conn.items():
            a, b = t.split('.')[:-1], s.split('.')[:-1]
            k = 0
            while k < min(len(a), len(b)) and a[k] == b[k]:
                k += 1
            want.setdefault('.'.join(a[:k]), set()).add(t)
        c.check('exactly these groups', set(c.keys(out.value)) == set(want))
        for g in want:
            if g in c.keys(out.value):
                c.check('exactly these params', set(c.keys_(c.item(out.value, g))) == want[g])
