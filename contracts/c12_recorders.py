"""C12: recorders (openmdao/recorders/*, util/record_util.py) and the records solvers and drivers make."""
import itertools
from pyvc.contract import *
from contracts import c08_convergence as c08
from openmdao.core.driver import Driver
from openmdao.core.group import Group
from openmdao.recorders.base_recorder import BaseRecorder
from openmdao.recorders.inmem_recorder import InMemoryRecorder
from openmdao.recorders.csv_recorder import CsvRecorder
from openmdao.recorders.sqlite_recorder import SqliteRecorder
from openmdao.recorders.recording_manager import RecordingManager
from openmdao.util.record_util import create_local_meta, update_local_meta, format_iteration_coordinate
import openmdao.recorders.base_recorder as base_module

R = 'openmdao.recorders.'
UT = 'openmdao.util.record_util:'
POOL = ('', 'root', 'g', 'sub_a', 'g.s', 'Driver')


class Box(object):
    """ghost state"""


class Nested(Contract):
    """metadata of nested levels: the coordinate is the names and counts of the nesting, and reads that way"""
    prop = 'C12'
    target = UT + 'format_iteration_coordinate'
    cases = tuple((d, s) for d in (1, 2, 3, 4) for s in (0, 1))

    def build(self, c, case):
        depth, sub = case
        S = NS(n=[c.str('name%d' % k, POOL) for k in range(depth)], sub=sub)
        S.i = [(c.int('i%d' % k, 0),) + ((c.int('j%d' % k, 0),) if sub else ()) for k in range(depth)]
        S.args = (S.n, S.i)
        return S

    @staticmethod
    def program(names, its):
        metas = []
        m = None
        for n, i in zip(names, its):
            m = create_local_meta(m, n)
            update_local_meta(m, i)
            metas.append(m)
        # a deeper level is counted on: what encloses it stays
        last = create_local_meta(m, 'below')
        update_local_meta(last, (99,))
        return metas, [format_iteration_coordinate(m['coord']) for m in metas], [BaseRecorder._get_pathname(None, m['coord']) for m in metas]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        metas, texts, paths = [c.keys_(x) for x in out.value]
        names = [c.ite(n == '', 'root', n) if k == 1 else n for k, n in enumerate(S.n)] if not c.sym else S.n
        for k in range(len(S.n)):
            name = lambda j: c.ite(S.n[j] == '', 'root', S.n[j]) if j == 1 else S.n[j]
            want, path = 'rank0:', ''
            for j in range(k + 1):
                it = c.istr(S.i[j][0])
                if S.sub:
                    it = it + '-' + c.istr(S.i[j][1])
                want = want + ('|' if j else '') + name(j) + '|' + it
                if j >= 2:
                    path = path + ('.' if j > 2 else '') + name(j)
            c.check('level %d reads as its names and counts' % (k + 1), texts[k] == want)
            c.check('level %d belongs to the system of that path' % (k + 1), paths[k] == path)
            c.check('a new level is successful until told otherwise', And(c.eq(c.item(metas[k], 'success'), 1), c.item(metas[k], 'msg') == ''))


class Plain(Contract):
    """an iteration given as a number is a tuple of it"""
    prop = 'C12'
    target = UT + 'update_local_meta'

    def build(self, c, case):
        S = NS(k=c.int('k', 0))
        S.args = (S.k,)
        return S

    @staticmethod
    def program(k):
        m = create_local_meta(None, 'Driver')
        update_local_meta(m, k)
        return m['coord']

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            v = c.keys_(out.value)
            c.check('rank, name and count', And(len(v) == 3, c.eq(v[0], 0), v[1] == 'Driver', len(v[2]) == 1, c.eq(v[2][0], S.k)))


class Included(Contract):
    """any number of patterns: recorded exactly when some include pattern and no exclude pattern matches"""
    prop = 'C12'
    target = R + 'base_recorder:BaseRecorder._check_path'

    def build(self, c, case):
        S = NS(ni=c.int('n include', 0, small=3), ne=c.int('n exclude', 0, small=3))
        S.inc, S.exc = c.symlist('includes', S.ni, 'int'), c.symlist('excludes', S.ne, 'int')
        S.m = c.func('matches', 1, 'bool')
        S.args = (c.obj(BaseRecorder), 'path', S.inc, S.exc)
        S.ats = (c.snap(S.inc), c.snap(S.exc)) if c.sym else (list(S.inc), list(S.exc))
        return S

    def match(self, c, S):
        def fnmatchcase(name, pat):
            c.check('patterns are matched against the name', name == 'path')
            return S.m(pat)
        return fnmatchcase

    def overrides(self, c, S):
        return {'fnmatchcase': c.model(self.match(c, S), 'fnmatchcase')}

    def patches(self, c, S):
        return [(base_module, 'fnmatchcase', self.match(c, S))]

    def loopspecs(self, c, S):
        return {0: LoopSpec(inv=lambda L, k, S_: [('no include pattern so far matches', c.forall(0, k, lambda i: Not(S.m(c.at(S.inc, i)))))]),
                1: LoopSpec(inv=lambda L, k, S_: [('no exclude pattern so far matches', c.forall(0, k, lambda i: Not(S.m(c.at(S.exc, i)))))])}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            c.check('included and not excluded', Iff(out.value, And(c.exists(0, S.ni, lambda i: S.m(c.at(S.inc, i))),
                                                                  c.forall(0, S.ne, lambda i: Not(S.m(c.at(S.exc, i)))))))


NAMES = ('a', 'b.x', 's')
KINDS = (('p', 'params', 'record_params'), ('u', 'unknowns', 'record_unknowns'), ('r', 'resids', 'record_resids'))


class Startup(Contract):
    """the names to record: those of an enabled category that the patterns select (up to three names per category)"""
    prop = 'C12'
    target = R + 'base_recorder:BaseRecorder.startup'
    cases = tuple(itertools.product((False, True), repeat=3))

    def build(self, c, case):
        S = NS(on=dict(zip('pur', case)))
        S.sel = {(k, n): c.flag('select %s %s' % (k, n)) for k in 'pu' for n in NAMES[:2]}
        for n in NAMES[:2]:
            S.sel['r', n] = S.sel['u', n]
        S.opts = c.odict([('record_params', S.on['p']), ('record_unknowns', S.on['u']), ('record_resids', S.on['r']),
                          ('includes', c.list(['i'])), ('excludes', c.list(['e']))])
        dec = lambda k: c.list([k + '.' + n if k == 'p' else n for n in NAMES[:2]])
        S.g = c.obj(Group, pathname=c.str('pathname', ('', 'g', 'g.s')), params=dec('p'), unknowns=dec('u'), resids=dec('u'))
        S.old = c.list(['old'])
        S.rec = c.obj(BaseRecorder, options=S.opts, _filtered=c.dict([('another', S.old)]), _check_path=c.method(self.pick(c, S)))
        c.assume(c.attr(S.g, 'pathname') != 'another')
        S.args = (S.rec, S.g)
        return S

    def pick(self, c, S):
        def check(path, includes, excludes):
            c.check('the options are the patterns', And(c.keys_(includes) == ['i'], c.keys_(excludes) == ['e']))
            return S.sel[('p', path[2:]) if path.startswith('p.') else ('u', path)]
        return check

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        f = c.attr(S.rec, '_filtered')
        mine = c.item(f, c.attr(S.g, 'pathname'))
        for k, attr, opt in KINDS:
            got = c.keys_(c.item(mine, k)) if S.on[k] else list(c.keys_(c.item(mine, k)))
            want = [('p.' + n if k == 'p' else n) for n in NAMES[:2] if S.sel[k, n]] if S.on[k] else []
            c.check('exactly the selected %s, in their order' % attr, got == want)
        c.check('what another group records is left alone', c.same(c.item(f, 'another'), S.old))


class Filtered(Contract):
    """the values handed on are those of the names of the system that the coordinate stands for"""
    prop = 'C12'
    target = R + 'base_recorder:BaseRecorder._filter_vector'
    cases = tuple(itertools.product('pur', (0, 1, 2, 3)))

    def build(self, c, case):
        key, n = case
        S = NS(n=n, key=key)
        S.path = c.str('path', ('', 'g', 'g.s'))
        S.vals = {x: c.real('v %s' % x) for x in NAMES}
        S.vec = c.odict([(x, S.vals[x]) for x in NAMES])
        other = c.dict([(k, c.list(['wrong'])) for k in 'pur' if k != key] + [(key, c.list(NAMES[:n]))])
        S.rec = c.obj(BaseRecorder, _filtered=c.dict([(S.path, other)]), _get_pathname=c.method(lambda co: S.path if co == 'coord' else c.throw(KeyError, co)))
        S.args = (S.rec, S.vec, key, 'coord')
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            c.check('the selected names', c.keys(out.value) == list(NAMES[:S.n]))
            for x in NAMES[:S.n]:
                c.check('their current values', c.eq(c.item(out.value, x), S.vals[x]))
            c.check('the vector stays', And([c.eq(c.item(S.vec, x), S.vals[x]) for x in NAMES]))


class InMemory(Contract):
    """a case kept in memory: one entry at the end, with the filtered values as they are now"""
    prop = 'C12'
    target = R + 'inmem_recorder:InMemoryRecorder.record_iteration'
    cases = tuple(itertools.product((False, True), repeat=3))

    def build(self, c, case):
        S = NS(on=dict(zip('pur', case)))
        S.size = c.int('size', 0)
        S.live, S.val, vecs = {}, {}, {}
        for k in 'pur':
            S.live[k] = c.array('live ' + k, S.size)
            S.val[k] = c.snap(S.live[k])
            vecs[k] = c.odict([('skip', 1.0), ('x', S.live[k]), ('f', 2.5)])
        S.opts = c.odict([('record_params', S.on['p']), ('record_unknowns', S.on['u']), ('record_resids', S.on['r'])])
        S.old = c.dict([('iter', 'before')])
        S.iters = c.list([S.old])
        S.meta = c.dict([('coord', 'coord'), ('timestamp', 12.5), ('success', c.int('success')), ('msg', 'said')])
        S.rec = c.obj(InMemoryRecorder, options=S.opts, iters=S.iters, _filtered=c.dict([('', c.dict([(k, c.list(['x', 'f'])) for k in 'pur']))]),
                      _get_pathname=c.method(lambda co: ''))
        S.args = (S.rec, vecs['p'], vecs['u'], vecs['r'], S.meta, [S.live[k] for k in 'pur'])
        return S

    def uses(self, c, S):
        return {'format_iteration_coordinate': c.model(lambda co: 'text of ' + co)}

    def patches(self, c, S):
        import openmdao.recorders.inmem_recorder as m
        return [(m, 'format_iteration_coordinate', lambda co: 'text of ' + co)]

    @staticmethod
    def program(rec, params, unknowns, resids, meta, live):
        rec.record_iteration(params, unknowns, resids, meta)
        # the model goes on and changes its values in place
        for a in live:
            a[:] = 7.25

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        its = c.keys_(c.attr(S.rec, 'iters'))
        c.check('one more entry, at the end', And(len(its) == 2, c.same(its[0], S.old)))
        d = its[1]
        c.check('with its coordinate, time and outcome', And(c.item(d, 'iter') == 'text of coord', c.eq(c.item(d, 'timestamp'), 12.5), c.eq(c.item(d, 'success'), c.item(S.meta, 'success')),
                                                          c.item(d, 'msg') == 'said'))
        for k, attr, opt in KINDS:
            if not S.on[k]:
                c.check('%s not asked for are not recorded' % attr, Not(c.has(d, attr)))
                continue
            v = c.item(d, attr)
            c.check('exactly the selected %s' % attr, c.keys(v) == ['x', 'f'])
            x = c.item(v, 'x')
            c.check('the recorded %s do not change with the model' % attr, And(c.eq(c.len(x), S.size), c.forall(0, S.size, lambda i: c.eq(c.at(x, i), c.at(S.val[k], i)))))
            c.check('the value of the other', c.eq(c.item(v, 'f'), 2.5))


class Columns(InMemory):
    """a case in a csv file: a header once, then one row per iteration, column by column under the header"""
    target = R + 'csv_recorder:CsvRecorder.record_iteration'
    cases = tuple(itertools.product((False, True), repeat=4))

    def build(self, c, case):
        S = NS(on=dict(zip('pur', case)), derivs=case[3])
        vecs = {}
        S.val = {}
        for k in 'pur':
            S.val[k] = [c.real('%s x' % k), c.real('%s f' % k)]
            vecs[k] = c.odict([('skip', 1.0), ('x', S.val[k][0]), ('f', S.val[k][1])])
        S.opts = c.odict([('record_params', S.on['p']), ('record_unknowns', S.on['u']), ('record_resids', S.on['r']), ('record_derivs', S.derivs)])
        S.written = c.bool('header written before')
        S.rows = c.list([])
        S.flushed = c.obj(Box, times=0)
        S.meta = c.dict([('coord', 'coord'), ('timestamp', 12.5), ('success', c.int('success')), ('msg', 'said')])
        S.rec = c.obj(CsvRecorder, options=S.opts, _filtered=c.dict([('', c.dict([(k, c.list(['x', 'f'])) for k in 'pur']))]), _get_pathname=c.method(lambda co: ''),
                      _wrote_header=S.written, ncol=c.int('ncol', 0), writer=c.obj(Box, writerow=c.method(lambda row: c.append(S.rows, row))),
                      out=c.obj(Box, flush=c.method(lambda: c.put_attr(S.flushed, 'times', c.attr(S.flushed, 'times') + 1))))
        S.before = c.attr(S.rec, 'ncol')
        S.args = (S.rec, vecs['p'], vecs['u'], vecs['r'], S.meta)
        return S

    def uses(self, c, S):
        return {'serialize': c.model(lambda v: v)}

    def patches(self, c, S):
        import openmdao.recorders.csv_recorder as m
        return [(m, 'serialize', lambda v: v)]

    @staticmethod
    def program(rec, params, unknowns, resids, meta):
        rec.record_iteration(params, unknowns, resids, meta)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        rows = c.keys_(S.rows)
        head = ['success'] + [n for k in 'pur' if S.on[k] for n in ('x', 'f')] + (['Derivatives'] if S.derivs else [])
        vals = [c.item(S.meta, 'success')] + [v for k in 'pur' if S.on[k] for v in S.val[k]]
        n = len(head)
        c.check('one row, after the header if there is none yet', c.ite(S.written, len(rows) == 1, len(rows) == 2))
        c.check('a header is known to be there', c.eq(c.attr(S.rec, '_wrote_header'), True))
        if len(rows) == 2:
            c.check('the header names the columns', c.keys_(rows[0]) == head)
            c.check('the number of columns', c.eq(c.attr(S.rec, 'ncol'), n))
        row = c.keys_(rows[-1])
        c.check('as many columns as names', len(row) == n)
        c.check('each value under its name', And([c.eq(a, b) for a, b in zip(row, vals)]))
        if S.derivs:
            c.check('no derivatives', c.isnone(row[-1]))
        c.check('written at once', c.eq(c.attr(S.flushed, 'times'), 1))


class Stored(InMemory):
    """a case in a sqlite file: one entry under the text of its coordinate, with the filtered values"""
    target = R + 'sqlite_recorder:SqliteRecorder.record_iteration'

    def build(self, c, case):
        S = super(Stored, self).build(c, case)
        S.file = c.dict([('before', S.old)])
        S.rec = c.obj(SqliteRecorder, options=S.opts, out_iterations=S.file, _filtered=c.dict([('', c.dict([(k, c.list(['x', 'f'])) for k in 'pur']))]),
                      _get_pathname=c.method(lambda co: ''))
        S.args = (S.rec,) + S.args[1:]
        return S

    def patches(self, c, S):
        import openmdao.recorders.sqlite_recorder as m
        return [(m, 'format_iteration_coordinate', lambda co: 'text of ' + co)]

    @staticmethod
    def program(rec, params, unknowns, resids, meta, live):
        rec.record_iteration(params, unknowns, resids, meta)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('one more entry, under its coordinate', c.keys(S.file) == ['before', 'text of coord'])
        c.check('what is there stays', c.same(c.item(S.file, 'before'), S.old))
        d = c.item(S.file, 'text of coord')
        c.check('with its time and outcome', And(c.eq(c.item(d, 'timestamp'), 12.5), c.eq(c.item(d, 'success'), c.item(S.meta, 'success')), c.item(d, 'msg') == 'said'))
        for k, attr in zip('pur', ('Parameters', 'Unknowns', 'Residuals')):
            if not S.on[k]:
                c.check('%s not asked for are not recorded' % attr, Not(c.has(d, attr)))
                continue
            v = c.item(d, attr)
            c.check('exactly the selected %s' % attr, c.keys(v) == ['x', 'f'])
            x = c.item(v, 'x')
            c.check('the values', And(c.eq(c.len(x), S.size), c.forall(0, S.size, lambda i: c.eq(c.at(x, i), c.at(S.val[k], i)))))
            c.check('the value of the other', c.eq(c.item(v, 'f'), 2.5))


class Derivs(Contract):
    """derivatives handed to the recorders: one entry with the derivatives, the time and the outcome"""
    prop = 'C12'
    target = R + 'inmem_recorder:InMemoryRecorder.record_derivatives'
    cases = ('memory', 'sqlite', 'csv')

    def build(self, c, case):
        S = NS(case=case)
        S.meta = c.dict([('coord', 'coord'), ('timestamp', 12.5), ('success', c.int('success')), ('msg', 'said')])
        S.derivs = c.obj(Box)
        if case == 'memory':
            S.into = c.list(['before'])
            S.rec = c.obj(InMemoryRecorder, deriv_iters=S.into)
        elif case == 'sqlite':
            S.into = c.dict([('before', 1.0)])
            S.rec = c.obj(SqliteRecorder, out_derivs=S.into)
        else:
            S.ncol = 4
            S.into = c.list([])
            S.rec = c.obj(CsvRecorder, ncol=S.ncol, writer=c.obj(Box, writerow=c.method(lambda row: c.append(S.into, row))), out=None)
            S.derivs = 2.5
        S.args = (S.rec, S.derivs, S.meta)
        return S

    def uses(self, c, S):
        return {'format_iteration_coordinate': c.model(lambda co: 'text of ' + co)}

    def patches(self, c, S):
        import openmdao.recorders.sqlite_recorder as m
        return [(m, 'format_iteration_coordinate', lambda co: 'text of ' + co)]

    @staticmethod
    def program(rec, derivs, meta):
        rec.record_derivatives(derivs, meta)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        if S.case == 'csv':
            rows = c.keys_(S.into)
            c.check('one row', len(rows) == 1)
            row = c.keys_(rows[0])
            c.check('under the header', And(len(row) == S.ncol, c.eq(row[0], c.item(S.meta, 'success')), [v for v in row[1:-1] if v is not None] == []))
            c.check('the derivatives in the last column', len(row) > 0 and row[-1] is not None and (c.sym or row[-1] == '[2.5]'))
            return
        if S.case == 'memory':
            its = c.keys_(S.into)
            c.check('one more entry, at the end', And(len(its) == 2, its[0] == 'before'))
            d = its[1]
        else:
            c.check('one more entry, under its coordinate', c.keys(S.into) == ['before', 'text of coord'])
            d = c.item(S.into, 'text of coord')
            c.check('with its outcome', And(c.eq(c.item(d, 'success'), c.item(S.meta, 'success')), c.item(d, 'msg') == 'said'))
        c.check('the derivatives', And(c.same(c.item(d, 'Derivatives'), S.derivs), c.eq(c.item(d, 'timestamp'), 12.5)))


class Many(object):
    """any number of recorders"""
    def __len__(self):
        return self.n

    def __iter__(self):
        for k in range(self.n):
            yield self.get(k)


class Dispatch(Contract):
    """any number of recorders: each is told of each iteration once, in order, with the vectors of the system"""
    prop = 'C12'
    target = R + 'recording_manager:RecordingManager.record_iteration'
    cases = ('iteration', 'case', 'derivatives', 'metadata', 'close')

    def build(self, c, case):
        S = NS(n=c.int('n', 0, small=3), case=case)
        S.box = c.obj(Box, told=0)
        S.opt = c.func('enabled', 1, 'bool')
        S.par = c.func('parallel', 1, 'bool')
        S.root = c.obj(Box, params=c.obj(Box), unknowns=c.obj(Box), resids=c.obj(Box))
        S.meta = c.dict([('coord', 'coord'), ('timestamp', None)])
        S.derivs = c.obj(Box)
        S.case_ = c.dict([('p', c.attr(S.root, 'params')), ('u', c.attr(S.root, 'unknowns')), ('r', c.attr(S.root, 'resids')), ('meta', S.meta)])

        def get(k):
            def told(*a):
                t = c.attr(S.box, 'told')
                c.check('only a recorder that asked is told', S.want(k))
                c.check('once', c.eq(t, S.count(k)))
                c.put_attr(S.box, 'told', t + 1)
                if case in ('iteration', 'case'):
                    c.check('of the vectors of the system', And(len(a) == 4, c.same(a[0], c.attr(S.root, 'params')), c.same(a[1], c.attr(S.root, 'unknowns')),
                                                                c.same(a[2], c.attr(S.root, 'resids')), c.same(a[3], S.meta)))
                elif case == 'derivatives':
                    c.check('of the derivatives', And(len(a) == 2, c.same(a[0], S.derivs), c.same(a[1], S.meta)))
                elif case == 'metadata':
                    c.check('of the system', And(len(a) == 1, c.same(a[0], S.root)))
                if case not in ('metadata', 'close'):
                    c.check('with the time', Not(c.isnone(c.item(S.meta, 'timestamp'))))
            return c.obj(Box, _parallel=S.par(k), options=c.odict([('record_derivs', S.opt(k)), ('record_metadata', S.opt(k))]),
                         record_iteration=c.method(told), record_derivatives=c.method(told), record_metadata=c.method(told), close=c.method(told))
        S.filtering = case in ('derivatives', 'metadata')
        S.want = (lambda k: S.opt(k)) if S.filtering else (lambda k: True)
        # ghost: how many of the recorders before k are to be told
        S.nth = c.func('told before', 1, 'int') if S.filtering else None
        if S.filtering:
            if c.sym:
                c.assume(c.eq(S.nth(0), 0))
                c.assume(c.forall(0, S.n, lambda k: c.eq(S.nth(k + 1), S.nth(k) + c.ite(S.opt(k), 1, 0))))
                S.count = lambda k: S.nth(k)
            else:
                S.count = lambda k: sum(1 for j in range(k) if S.opt(j))
        else:
            S.count = lambda k: k
        S.mgr = c.obj(RecordingManager, _recorders=c.obj(Many, n=S.n, get=c.method(get)), rank=0, _casecomm=None, _has_serial_recorders=False)
        S.args = (S.mgr, case, S.root, S.meta, S.derivs, S.case_)
        return S

    @staticmethod
    def program(mgr, case, root, meta, derivs, done):
        if case == 'iteration':
            mgr.record_iteration(root, meta)
        elif case == 'case':
            mgr.record_completed_case(root, done)
        elif case == 'derivatives':
            mgr.record_derivatives(derivs, meta)
        elif case == 'metadata':
            mgr.record_metadata(root)
        else:
            mgr.close()

    def loopspecs(self, c, S):
        return {('Many.__iter__', 0): LoopSpec(inv=lambda L, k, S_: [('all told so far', c.eq(c.attr(S.box, 'told'), S.count(k)))])}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            c.check('every recorder is told', c.eq(c.attr(S.box, 'told'), S.count(S.n)))


class Recorded(object):
    """what the nonlinear solvers share: every iteration is recorded once, after it ran, under a coordinate that counts it"""
    prop = 'C12'
    event = 'children'          # what makes an iteration
    skip = 0                    # how many of those come before the first iteration
    sub = ()                    # what follows the count in a coordinate

    def uses(self, c, S):
        d = super(Recorded, self).uses(c, S)
        return {k: v for k, v in d.items() if not k.endswith('local_meta')}

    def rec(self, c, S):
        def record(system, meta):
            c.check('the system itself is recorded', c.same(system, S.sys))
            c.check('an iteration is recorded when it ran, and once', c.eq(S.rec + 1, S.ran))
            self.coordinate(c, S, meta, S.ran)
            S.rec = S.rec + 1
        return c.obj(c08.Rec, record_iteration=c.method(record))

    def coordinate(self, c, S, meta, n):
        co = c.keys_(c.item(meta, 'coord'))
        c.check('the coordinate is that of the parent, the name, and the count', And(
            len(co) == 7, co[:4] == [0, 'Driver', S.up[0], 'root'], lambda: c.eq(co[4][0], S.up[1][0]), co[5] == S.name,
            lambda: self.counted(c, S, co[6], n)))

    def counted(self, c, S, it, n):
        return And(len(it) == 1 + len(self.sub), c.eq(it[0], n), [c.eq(x, y) for x, y in zip(it[1:], self.sub)] or True)

    def stub(self, c, S):
        super(Recorded, self).stub(c, S)
        S.rec, S.ran, S.skipped = 0, 0, 0
        S.name = 'g'
        S.up = ((c.int('driver count', 0),), (c.int('root count', 0),))
        S.meta = c.dict([('coord', c.list([0, 'Driver', S.up[0], 'root', S.up[1]])), ('name', 'root')])
        c.put_attr(S.sys, 'meta', S.meta)
        c.put_attr(S.sys, 'pathname', 'outer.g')

    def seer(self, c, S):
        def seen(kind, metadata):
            if kind == 'children':
                c.check('subsystems are told a coordinate', Not(c.isnone(metadata)))
                self.running(c, S, metadata)
            if kind == self.event:
                if S.skipped < self.skip:
                    S.skipped += 1
                else:
                    c.check('the iteration before was recorded', c.eq(S.rec, S.ran))
                    S.ran = S.ran + 1
                    if kind == 'children':
                        self.coordinate(c, S, metadata, S.ran)
        return seen

    def running(self, c, S, metadata):
        pass

    def loopspecs(self, c, S):
        d = super(Recorded, self).loopspecs(c, S)
        inner = d[0].inv

        def inv(L, k, S_):
            if not isinstance(k, int) and not getattr(S, 'head12', False):
                S.head12 = True
                S.rec = S.ran = k + self.first
                S.skipped = self.skip
            return inner(L, k, S_) + [('every iteration was recorded', And(c.eq(S.rec, k + self.first), c.eq(S.ran, k + self.first)))]
        d[0].inv = inv
        return d

    def ensures(self, c, S, out):
        c.check('every finished iteration was recorded', Or(S.boomed, lambda: c.eq(S.rec, S.ran)))
        c.check('the coordinate of the parent stays', And([x == y for x, y in zip(c.keys_(c.item(S.meta, 'coord'))[:4:2], (0, S.up[0]))]))


class SeidelRecords(Recorded, c08.GaussSeidel):
    """fixed point iterations are recorded"""
    first = 1


class OnceRecords(Recorded, c08.Once):
    """the one run of the subsystems is recorded"""
    def loopspecs(self, c, S):
        return {}


class NewtonRecords(Recorded, c08.NewtonSolve):
    """Newton iterations are recorded"""
    cases = tuple(itertools.product((False, True), (False, True), (None, 'children', 'apply')))
    event, skip, first, sub = 'apply', 1, 0, (0,)


class SearchRecords(Recorded, c08.LineSearch):
    """trials of a line search are recorded under the iteration they belong to"""
    event, first = 'apply', 0

    def build(self, c, case):
        S = super(SearchRecords, self).build(c, case)
        return S

    def counted(self, c, S, it, n):
        return And(len(it) == 2, c.eq(it[0], 3), c.eq(it[1], n))


class DriverOnce(Contract):
    """the default driver runs the model once under the next count and records that run"""
    prop = 'C12'
    target = 'openmdao.core.driver:Driver.run_once'

    def build(self, c, case):
        S = NS(n=c.int('n', 0), log=[], size=c.int('size', 1))

        def solve(params=None, unknowns=None, resids=None, metadata=None):
            S.log.append('run')
            self.coord(c, S, metadata)

        def record(system, metadata):
            S.log.append('record')
            c.check('the model is recorded', c.same(system, S.root))
            self.coord(c, S, metadata)
        S.root = c.obj(Box, ln_solver=c.obj(Box, local_meta=None), _dircontext=c.obj(c08.Ctx), solve_nonlinear=c.method(solve))
        S.drv = c.obj(Driver, iter_count=S.n, recorders=c.obj(Box, record_iteration=c.method(record)), metadata=None)
        S.args = (S.drv, c.obj(Box, root=S.root))
        return S

    def coord(self, c, S, metadata):
        co = c.keys_(c.item(metadata, 'coord'))
        c.check('under the next count', And(len(co) == 3, co[0] == 0, co[1] == 'Driver', len(co[2]) == 1, c.eq(co[2][0], S.n + 1)))

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        c.check('run once, then recorded once', S.log == ['run', 'record'])
        c.check('and counted', c.eq(c.attr(S.drv, 'iter_count'), S.n + 1))
