"""C17: cases of the sampling drivers (openmdao/drivers/*, evenly_distrib_idxs)."""
import itertools
import random
from pyvc.contract import *
from contracts.c15_order import fa
from openmdao.core.driver import Driver
from openmdao.core.group import Group
from openmdao.core.system import AnalysisError
from openmdao.drivers.predeterminedruns_driver import PredeterminedRunsDriver
from openmdao.drivers.fullfactorial_driver import FullFactorialDriver
from openmdao.drivers.latinhypercube_driver import LatinHypercubeDriver, OptimizedLatinHypercubeDriver, _LHC_Individual
from openmdao.drivers.uniform_driver import UniformDriver
from openmdao.drivers.case_driver import CaseDriver

P = 'openmdao.drivers.predeterminedruns_driver:'
L = 'openmdao.drivers.latinhypercube_driver:'


class Shares(Contract):
    """every index belongs to exactly one share, and shares differ by at most one (any number of workers and cases)"""
    prop = 'C17'
    target = 'openmdao.util.array_util:evenly_distrib_idxs'

    def build(self, c, case):
        S = NS(n=c.int('n', 1), m=c.int('m', 0))
        S.args = (S.n, S.m)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        sizes, offs = out.value
        base, left = S.m // S.n, S.m % S.n
        c.check('one share per worker', And(c.eq(c.len(sizes), S.n), c.eq(c.len(offs), S.n)))
        c.check('shares differ by at most one', c.forall(0, S.n, lambda k: Or(c.eq(c.at(sizes, k), base), c.eq(c.at(sizes, k), base + 1))))
        c.check('the first share starts with the first case', c.eq(c.at(offs, 0), 0))
        c.check('a share starts where the one before ends', c.forall(0, S.n - 1, lambda k: c.eq(c.at(offs, k + 1), c.at(offs, k) + c.at(sizes, k))))
        low = lambda k: c.ite(k < left, k, left)
        c.induct('offset', S.n, lambda k: c.eq(c.at(offs, k), k * base + low(k)))
        c.check('the last share ends with the last case', c.eq(c.at(offs, S.n - 1) + c.at(sizes, S.n - 1), S.m))


class Box(object):
    """ghost state"""


class RoundRobin(Contract):
    """a process yields exactly its own cases, each once and in order (any number of processes and cases)"""
    prop = 'C17'
    target = P + 'PredeterminedRunsDriver._distrib_build_runlist'

    def build(self, c, case):
        S = NS(n=c.int('n', 1), m=c.int('m', 0), log=[])
        S.id = c.idx('id', S.n)
        S.cases = c.index_array('cases', S.m, S.m)
        c.assume(c.forall(0, S.m, lambda k: c.eq(c.at(S.cases, k), k)))
        S.drv = c.obj(CaseDriver, _num_par_doe=S.n, _par_doe_id=S.id, cases=S.cases)
        # ghost: the number of cases yielded, and the last one
        S.box = c.obj(Box, count=0, last=-1)
        S.args = (S.drv, c.method(lambda v: self.sink(c, S, v)))
        return S

    def sink(self, c, S, v):
        if c.sym:
            c.check('only its own cases', c.eq(v % S.n, S.id))
            c.check('in order', v > c.attr(S.box, 'last'))
            c.put_attr(S.box, 'count', c.attr(S.box, 'count') + 1)
            c.put_attr(S.box, 'last', v)
        else:
            S.log.append(int(v))

    def uses(self, c, S):
        return {'CaseDriver._build_runlist': c.model(lambda s: S.cases)}

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            count = c.ite(k > S.id, (k - 1 - S.id) // S.n + 1, 0) if not isinstance(k, int) else 0
            return [('all its cases so far', c.eq(c.attr(S.box, 'count'), count)), ('the last of them', And(c.attr(S.box, 'last') < k, c.attr(S.box, 'last') >= -1))]
        return {('PredeterminedRunsDriver._distrib_build_runlist', 0): LoopSpec(inv=inv)}

    @staticmethod
    def program(drv, sink):
        for case in drv._distrib_build_runlist():
            sink(case)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        if not c.sym:
            c.check('exactly its own cases, in order', S.log == [k for k in range(S.m) if k % S.n == S.id])
            return
        c.check('as many as its share', c.eq(c.attr(S.box, 'count'), c.ite(S.m > S.id, (S.m - 1 - S.id) // S.n + 1, 0)))


class Thrown(object):
    """stands for the class of an exception that a case raised"""


class Serial(Contract):
    """any number of cases: each is set up, run and recorded once, in order; an unexpected exception ends the run"""
    prop = 'C17'
    target = P + 'PredeterminedRunsDriver._run_serial'

    def build(self, c, case):
        S = NS(m=c.int('m', 0), log=[])
        S.cases = c.index_array('cases', S.m, S.m)
        c.assume(c.forall(0, S.m, lambda k: c.eq(c.at(S.cases, k), k)))
        S.fails = c.func('raises an exception', 1, 'bool')
        S.box = c.obj(Box, prep=0, tried=0, saved=0)
        S.meta = c.dict([], label='metadata')
        S.root = c.obj(Group, pathname='')
        box = lambda n: c.attr(S.box, n)

        def prep(case, count):
            k = box('prep')
            c.check('a case is prepared when the one before is done', And(c.eq(box('tried'), k), c.eq(box('saved'), k)))
            c.check('the next case is taken', c.eq(case, k))
            c.check('it has its number', c.eq(count, k))
            c.put_attr(S.box, 'prep', k + 1)
            return S.meta

        def attempt(root, meta):
            k = box('tried')
            c.check('the case prepared is run', c.eq(box('prep'), k + 1))
            c.check('the model is run with the data of the case', And(root is S.root, meta is S.meta))
            c.put_attr(S.box, 'tried', k + 1)
            if c.sym:
                bad = c.e.branch(core._sb(S.fails(k)))
                return (bad, (c.obj(Thrown, with_traceback=c.method(lambda v, tb: c.throw(ValueError))), None, None) if bad else None)
            ex = ValueError()
            return (True, (ValueError, ex, None)) if S.fails(k) else (False, None)

        def save(case, meta=None):
            k = box('saved')
            c.check('the case run is recorded', And(c.eq(case, k), c.eq(box('tried'), k + 1), meta is S.meta, c.eq(c.attr(S.drv, 'iter_count'), k)))
            c.put_attr(S.box, 'saved', k + 1)
        S.drv = c.obj(CaseDriver, cases=S.cases, iter_count=0, root=S.root, _prep_case=c.method(prep), _try_case=c.method(attempt), _save_case=c.method(save))
        S.args = (S.drv,)
        return S

    def loopspecs(self, c, S):
        def inv(L, k, S_):
            return [('%s cases' % n, c.eq(c.attr(S.box, n), k)) for n in ('prep', 'tried', 'saved')] + [
                ('cases are counted', c.eq(c.attr(S.drv, 'iter_count'), k)),
                ('no case so far failed', c.forall(0, k, lambda i: Not(S.fails(i))))]
        return {('CaseDriver._build_runlist', 0): LoopSpec(inv=inv)}

    def ensures(self, c, S, out):
        m, box = S.m, lambda n: c.attr(S.box, n)
        if out.raised(ValueError):
            k = box('tried') - 1
            c.check('only a failed case raises', S.fails(k))
            c.check('what ran before is recorded', And(c.eq(box('saved'), k), c.eq(c.attr(S.drv, 'iter_count'), k)))
            return
        c.check('no error', out.ok)
        if out.ok:
            c.check('every case is run and recorded once', And(c.eq(box('saved'), m), c.eq(box('tried'), m), c.eq(c.attr(S.drv, 'iter_count'), m)))
            c.check('none of them failed', c.forall(0, m, lambda i: Not(S.fails(i))))


class Prep(Contract):
    """before a case, exactly its design variables are set, in order, to the given values"""
    prop = 'C17'
    target = P + 'PredeterminedRunsDriver._prep_case'
    cases = (0, 1, 2, 3)

    def build(self, c, case):
        S = NS(log=[], count=c.int('count', 0))
        S.case = [(c.str('name%d' % k, ('a', 'b')), c.opaque('value%d' % k)) for k in range(case)]
        S.drv = c.obj(CaseDriver, set_desvar=c.method(lambda *a: S.log.append(a)))
        S.args = (S.drv, c.list(list(S.case)), S.count)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('exactly the given values are set', And([len(S.log) == len(S.case)] + [
            And(len(a) == 2, a[1] is v, c.eq(a[0], n)) for a, (n, v) in zip(S.log, S.case)]))
        co = c.item(out.value, 'coord')
        c.check('the case is identified by its number', And(len(c.keys_(co) if c.sym else co) == 3, c.eq(c.item(co, 2)[0], S.count)))
        c.check('it starts as a success', c.eq(c.item(out.value, 'success'), 1))


class Try(Contract):
    """failed analyses are marked and the run goes on, other exceptions end it"""
    prop = 'C17'
    target = P + 'PredeterminedRunsDriver._try_case'
    cases = ('fine', 'analysis error', 'other')

    def build(self, c, case):
        S = NS(how=case, lb=c.flag('load balanced'), log=[], meta=c.dict([('success', 1), ('msg', '')], label='metadata'))

        def solve(metadata=None):
            S.log.append(metadata)
            if case != 'fine':
                c.throw(AnalysisError if case == 'analysis error' else ValueError, 'x')
        S.root = c.obj(Group, solve_nonlinear=c.method(solve))
        S.args = (c.obj(CaseDriver, _load_balance=S.lb), S.root, S.meta)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        term, exc = out.value
        c.check('the model is run once', And(len(S.log) == 1, lambda: S.log[0] is S.meta))
        c.check('marked as failed exactly when it failed', c.eq(c.item(S.meta, 'success'), 1 if S.how == 'fine' else 0))
        c.check('asks to stop only for an unexpected exception', c.eq(c.item(S.meta, 'terminate'), 1 if S.how == 'other' else 0))
        stop = S.how == 'other' and not S.lb
        c.check('the exception is handed on', And(term is stop if isinstance(term, bool) else False, (exc is not None) == stop))


class Queue(object):
    """stands for a queue between processes"""


class Item(object):
    """stands for a value of the model"""


class Worker(Contract):
    """a worker answers every case it takes, with the values of that case that later cases cannot change"""
    prop = 'C17'
    target = P + 'worker'
    cases = (0, 1, 2, 3)
    rac = 60

    def build(self, c, case):
        n = case
        S = NS(answers=[], now=None, ran=[])
        S.how = [c.choice('case %d' % k, ['fine', 'analysis error', 'other', 'broken result']) for k in range(n)]
        S.ids = [c.int('id%d' % k, 0) for k in range(n)]
        todo = [(i, 'case%d' % k) for k, i in enumerate(S.ids)] + ['STOP']
        S.todo = todo
        S.y = c.array('y', 2)
        S.results = [c.array('result%d' % k, 2) for k in range(n)]
        S.kept = [c.snap(r) for r in S.results]

        def prep(case, cid):
            c.check('one case at a time', S.now is None)
            S.now = int(case[4:])
            c.check('a case is run with its number', c.eq(cid, S.ids[S.now]))
            return c.dict([('success', 1), ('msg', ''), ('terminate', 0), ('n', S.now)], label='metadata')

        def attempt(root, meta):
            k = c.item(meta, 'n')
            S.ran.append(k)
            c.put(meta, 'terminate', 1 if S.how[k] == 'other' else 0)
            c.put(meta, 'success', 1 if S.how[k] in ('fine', 'broken result') else 0)
            return S.how[k] == 'other' and not S.lb, None
        S.lb = c.flag('load balanced')

        def put(a):
            meta, vals = a
            S.answers.append((c.item(meta, 'n') if c.has(meta, 'n') else None, c.item(meta, 'id') if c.has(meta, 'id') else None, c.item(meta, 'terminate'),
                              c.item(meta, 'success'), c.keys_(vals) if c.sym else list(vals)))
            S.now = None

        def var(root, name):
            k = S.ran[-1]
            if S.how[k] == 'broken result':
                c.throw(KeyError, name)
            c.check('the variables asked for', name == 'y')
            return S.results[k]
        S.var = var
        S.root = c.obj(Group, pathname='')
        drv = c.obj(CaseDriver, root=S.root, _prep_case=c.method(prep), _try_case=c.method(attempt))
        S.args = (c.obj(Problemlike, driver=drv), c.list(['y']), c.obj(Queue, get=c.method(lambda: todo.pop(0))), c.obj(Queue, put=c.method(put)), 0)
        return S

    def overrides(self, c, S):
        return {'_get_root_var': c.model(S.var, '_get_root_var'), 'os': c.obj(Box, environ=c.dict([], label='environ'))}

    def patches(self, c, S):
        import openmdao.drivers.predeterminedruns_driver as m
        return [(m, '_get_root_var', S.var), (m, 'os', NS(environ={}))]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('it stops when told to', len(S.todo) == 0)
        c.check('every case it takes is answered once', len(S.answers) == len(S.how))
        dead = [k for k, h in enumerate(S.how) if h == 'other' and not S.lb]
        last = dead[0] if dead else len(S.how)
        c.check('cases are run in order until an unexpected exception', S.ran == list(range(min(last + 1, len(S.how)))))
        for k, (n, cid, term, ok, vals) in enumerate(S.answers):
            if k > last:
                c.check('a case that was not run is not reported as a result', And(term == 1, len(vals) == 0))
                continue
            c.check('an answer carries the number of its case', And(n == k, c.eq(cid, S.ids[k])))
            bad = (k == last) or S.how[k] == 'broken result'
            c.check('failures are reported', And(ok == (1 if S.how[k] == 'fine' else 0), term == (1 if S.how[k] in ('other', 'broken result') else 0)))
            c.check('results are sent unless there are none', len(vals) == (0 if bad else 1))
            if vals:
                c.check('the results are those of the case', c.eq(vals[0], S.kept[k]))
                c.check('results are separate from the model', Not(c.shares(vals[0], S.results[k])))


class Problemlike(object):
    """stands for the problem"""


class Dispatch(Contract):
    """cases are handed to the workers once each, answers may come in any order, every answer is recorded once, and the run ends"""
    prop = 'C17'
    target = P + 'PredeterminedRunsDriver._run_lb_multiproc'
    # number of cases, number of workers
    cases = tuple(itertools.product((0, 1, 2, 3, 4), (1, 2, 3)))
    rac = 60
    max_paths = 20000

    def build(self, c, case):
        m, n = case
        S = NS(m=m, n=n, open=[], sent=[], stops=0, got=[], rec=[], procs=[], started=0, joined=0, roles=None, bad=None)
        S.cases = [c.list([('a', k)]) for k in range(m)]
        S.value = [c.opaque('value%d' % k) for k in range(m)]
        S.metas = [c.dict([('terminate', 0), ('msg', ''), ('id', k)], label='metadata') for k in range(m)]
        S.parts = [c.opaque('param%d' % k) for k in range(m)]

        def queue():
            def put(t):
                if t == 'STOP' if isinstance(t, str) else False:
                    S.stops += 1
                    return
                num, case = t
                c.check('no case after the order to stop', S.stops == 0)
                c.check('cases are handed out in order', And(num == len(S.sent), lambda: (c.item(c.item(case, 0), 1) == num)))
                c.check('no case is handed out after a fatal error', S.bad is None)
                c.check('a worker has at most one case', len(S.open) < n)
                S.sent.append(num)
                S.open.append(num)

            def get(*a):
                c.check('an answer that is waited for will come', And(len(S.open) > 0, S.started == n))
                if not S.open:
                    c.throw(RuntimeError, 'waits forever')
                k = S.open.pop(c.choice('answer %d' % len(S.got), list(range(len(S.open)))))
                S.got.append(k)
                fatal = c.flag('fatal error %d' % len(S.got))
                c.put(S.metas[k], 'terminate', 1 if fatal else 0)
                if fatal:
                    S.bad = k
                return (S.metas[k], c.list([] if fatal else [S.value[k], S.parts[k]]))
            q = c.obj(Queue, put=c.method(put), get=c.method(get))
            return q

        def process(target=None, args=()):
            c.check('a worker has its number', args[4] == len(S.procs))
            if S.roles is None:
                S.roles = args[2:4]
            c.check('all workers share the queues', And(args[2] is S.roles[0], args[3] is S.roles[1], args[2] is not args[3]))

            def start():
                S.started += 1

            def join():
                c.check('the worker has been told to stop', And(S.stops == n, len(S.open) == 0))
                S.joined += 1
            p = c.obj(Item, start=c.method(start), join=c.method(join))
            S.procs.append(p)
            return p
        S.queue, S.process = queue, process

        def record(root, case):
            S.rec.append((c.item(c.item(case, 'meta'), 'id'), case))
        S.root = c.obj(Group, pathname='')
        recs = c.obj(Item, _vars_to_record=c.dict([('unames', c.set(['y'])), ('pnames', c.set(['x']))], label='vars'), record_completed_case=c.method(record))
        S.drv = c.obj(CaseDriver, cases=c.list(S.cases), _num_par_doe=n, recorders=recs)
        S.args = (S.drv, c.obj(Problemlike, root=S.root))
        return S

    def overrides(self, c, S):
        return {'multiprocessing': c.obj(Box, Queue=c.method(S.queue), Process=c.method(S.process))}

    def patches(self, c, S):
        import openmdao.drivers.predeterminedruns_driver as m
        return [(m, 'multiprocessing', NS(Queue=S.queue, Process=S.process))]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        c.check('every worker is started and ended', S.started == S.n == S.joined == len(S.procs))
        if S.bad is None:
            c.check('every case is run once', S.sent == list(range(S.m)))
        c.check('every answer is awaited', sorted(S.got) == sorted(S.sent))
        good = [k for k in S.got if c.item(S.metas[k], 'terminate') == 0]
        c.check('every result is recorded once', [k for k, _ in S.rec] == good)
        for k, case in S.rec:
            c.check('the result of the case', And(c.same(c.item(case, 'meta'), S.metas[k]), c.item(c.item(case, 'u'), 'y') is S.value[k],
                                                  c.item(c.item(case, 'p'), 'x') is S.parts[k]))


class Val(object):
    """stands for the storage of one variable"""


class Lists(Contract):
    prop = 'C17'

    def design(self, c, S, names, sizes, kinds, ordered=True):
        """design variables with symbolic limits: a number for all elements or one per element"""
        S.names, S.sizes, S.lo, S.hi = names, sizes, {}, {}
        metas = []
        for n, s, k in zip(names, sizes, kinds):
            if k == 'real':
                lo, hi = c.real('lower_' + n), c.real('upper_' + n)
                S.lo[n], S.hi[n] = (lambda i, lo=lo: lo), (lambda i, hi=hi: hi)
                c.assume(lo <= hi)
            else:
                lo, hi = c.array('lower_' + n, s), c.array('upper_' + n, s)
                S.lo[n], S.hi[n] = (lambda i, lo=lo: c.at(lo, i)), (lambda i, hi=hi: c.at(hi, i))
                c.assume(c.forall(0, s, lambda i, lo=lo, hi=hi: c.at(lo, i) <= c.at(hi, i)))
            metas.append((n, c.odict([('lower', lo), ('upper', hi), ('size', s), ('adder', 0.0), ('scaler', 1.0)], label='meta')))
        S.dv = c.odict(metas, label='desvars')
        dat = c.dict([(n, c.obj(Val, val=c.array('val_' + n, s))) for n, s in zip(names, sizes)], label='dat')
        S.root = c.obj(Group, pathname='', unknowns=c.obj(Val, _dat=dat))
        S.meta = c.method(lambda: S.dv)

    def point(self, c, case):
        """a case as [(name, array)]"""
        if not c.sym:
            return [(k, v) for k, v in case]
        return [tuple(c.keys_(p)) for p in c.keys_(case)]

    def wellformed(self, c, S, p):
        c.check('a case gives a value to every design variable', [n for n, v in p] == list(S.names))
        for (n, v), s in zip(p, S.sizes):
            c.check('a value has the size of its variable', c.eq(c.len(v), s))
            c.check('every element is within its limits', c.forall(0, s, lambda i, n=n, v=v: And(S.lo[n](i) <= c.at(v, i), c.at(v, i) <= S.hi[n](i))))


TWO = tuple((s, k) for s in ((1,), (2,), (1, 1), (2, 1), (1, 2)) for k in (('real', 'array'), ('array', 'real'))[:2])


class Full(Lists):
    """every combination of evenly spaced levels exactly once, end points included"""
    target = 'openmdao.drivers.fullfactorial_driver:FullFactorialDriver._build_runlist'
    cases = tuple((l,) + x for l in (1, 2, 3) for x in TWO if l ** sum(x[0]) <= 9)

    def build(self, c, case):
        S = NS(levels=case[0])
        self.design(c, S, ('a', 'b')[:len(case[1])], case[1], case[2])
        S.drv = c.obj(FullFactorialDriver, num_levels=case[0], root=S.root, get_desvar_metadata=S.meta)
        S.args = (S.drv,)
        return S

    @staticmethod
    def program(drv):
        return [list(case) for case in drv._build_runlist()]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        pts = [self.point(c, p) for p in (c.keys_(out.value) if c.sym else out.value)]
        L = S.levels
        dims = [(n, i) for n, s in zip(S.names, S.sizes) for i in range(s)]
        c.check('as many cases as combinations', len(pts) == L ** len(dims))
        for p in pts:
            c.check('a case gives a value to every design variable', [n for n, v in p] == list(S.names))
            for (n, v), s in zip(p, S.sizes):
                c.check('a value has the size of its variable', c.eq(c.len(v), s))
        level = lambda n, i, q: S.lo[n](i) + (S.hi[n](i) - S.lo[n](i)) * q / (L - 1) if L > 1 else S.lo[n](i)
        same = (lambda x, y: c.eq(x, y)) if c.sym else (lambda x, y: abs(x - y) < 1e-9)
        for combo in itertools.product(range(L), repeat=len(dims)):
            want = {d: level(d[0], d[1], q) for d, q in zip(dims, combo)}
            c.check('each combination is run', Or([And([True] + [same(c.at(v, i), want[n, i]) for (n, v), s in zip(p, S.sizes) for i in range(s)]) for p in pts]))


class Uniform(Lists):
    """any number of samples within the limits"""
    target = 'openmdao.drivers.uniform_driver:UniformDriver._build_runlist'
    cases = TWO

    def build(self, c, case):
        S = NS(n=c.int('samples', 0))
        self.design(c, S, ('a', 'b')[:len(case[0])], case[0], case[1])
        S.box = c.obj(Box, count=0)
        S.drv = c.obj(UniformDriver, num_samples=S.n, seed=c.choice('seed', [None, 3]), root=S.root, get_desvar_metadata=S.meta)

        def sink(p):
            self.wellformed(c, S, self.point(c, p))
            c.put_attr(S.box, 'count', c.attr(S.box, 'count') + 1)
        S.args = (S.drv, c.method(sink))
        return S

    def loopspecs(self, c, S):
        return {('UniformDriver._build_runlist', 0): LoopSpec(inv=lambda L, k, S_: [('cases so far', c.eq(c.attr(S.box, 'count'), k))])}

    @staticmethod
    def program(drv, sink):
        for case in drv._build_runlist():
            sink(case)

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        c.check('as many cases as asked for', c.eq(c.attr(S.box, 'count'), S.n))


class Hyper(Lists):
    """one sample in each stratum of every dimension"""
    target = L + 'LatinHypercubeDriver._build_runlist'
    cases = tuple((n,) + x for n in (1, 2, 3) for x in TWO if n < 3 or sum(x[0]) < 3)
    max_paths = 5000

    def build(self, c, case):
        S = NS(n=case[0])
        self.design(c, S, ('a', 'b')[:len(case[1])], case[1], case[2])
        S.k = sum(case[1])
        S.perms = [c.choice('column %d' % j, list(itertools.permutations(range(S.n)))) for j in range(S.k)]

        def lhc():
            c.check('a hypercube of all dimensions is asked for', c.attr(S.drv, 'num_design_vars') == S.k)
            return c.grid(S.n, S.k, lambda i, j: S.perms[j][i])
        S.drv = c.obj(LatinHypercubeDriver, num_samples=S.n, seed=c.choice('seed', [None, 3]), root=S.root, get_desvar_metadata=S.meta, _get_lhc=c.method(lhc))
        S.args = (S.drv,)
        return S

    def overrides(self, c, S):
        return {'seed': c.model(lambda s: None, 'seed')}

    @staticmethod
    def program(drv):
        return [list(case) for case in drv._build_runlist()]

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if not out.ok:
            return
        pts = [self.point(c, p) for p in (c.keys_(out.value) if c.sym else out.value)]
        c.check('as many cases as asked for', len(pts) == S.n)
        for p in pts:
            self.wellformed(c, S, p)
        eps = 0 if c.sym else 1e-9
        for d, (n, s) in enumerate(zip(S.names, S.sizes)):
            for i in range(s):
                lo, hi = S.lo[n](i), S.hi[n](i)
                for q in range(S.n):
                    a, b = lo + (hi - lo) * q / S.n, lo + (hi - lo) * (q + 1) / S.n
                    c.check('every stratum has a sample', Or([And(a - eps <= c.at(p[d][1], i), c.at(p[d][1], i) <= b + eps) for p in pts]))


class Given(Contract):
    """exactly the given cases, in order"""
    prop = 'C17'
    target = 'openmdao.drivers.case_driver:CaseDriver._build_runlist'
    cases = (0, 1, 3)

    def build(self, c, case):
        S = NS(given=[c.opaque('case%d' % k) for k in range(case)])
        S.args = (c.obj(CaseDriver, cases=c.list(S.given)),)
        return S

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            got = c.keys_(out.value) if c.sym else out.value
            c.check('exactly the given cases', len(got) == len(S.given) and all(a is b for a, b in zip(got, S.given)))


def once(c, n, at):
    """whole numbers of 0..n-1, all different"""
    if not c.sym:
        return sorted(at(i) for i in range(n)) == list(range(n))
    return And(c.forall(0, n, lambda i: And(0 <= at(i), at(i) <= n - 1)),
               fa(c, n, 2, lambda i, h: Or(i == h, Not(c.eq(at(i), at(h))))))


def cells(c, a, n, lo, hi):
    """columns lo..hi-1 hold every number below n exactly once"""
    return c.forall(lo, hi, lambda j: once(c, n, lambda i: c.at(a, i, j)))


def whole(c, a, n, lo, hi):
    return c.forall(lo, hi, lambda j: c.forall(0, n, lambda i: c.integral(c.at(a, i, j))))


class Columns(Contract):
    """a random hypercube of any size has every number once in each column"""
    prop = 'C17'
    target = L + '_rand_latin_hypercube'

    def build(self, c, case):
        S = NS(n=c.int('n', 1), k=c.int('k', 0))
        S.args = (S.n, S.k)
        return S

    def overrides(self, c, S):
        return {'shuffle': c.model(lambda l: c.permute(l), 'shuffle')}

    def loopspecs(self, c, S):
        return {0: LoopSpec(inv=lambda L, k, S_: [
            ('the columns so far', cells(c, L.arr, S.n, 0, k)), ('whole numbers', whole(c, L.arr, S.n, 0, k)),
            ('the row holds every number once', And(c.eq(c.len(L.row), S.n), once(c, S.n, lambda i: c.at(L.row, i))))])}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            a = out.value
            c.check('as many rows as samples, as many columns as dimensions', And(c.ndim(a) == 2, c.eq(c.dim(a, 0), S.n), c.eq(c.dim(a, 1), S.k)))
            c.check('every column holds every number once', cells(c, a, S.n, 0, S.k))
            c.check('whole numbers', whole(c, a, S.n, 0, S.k))


class Perturb(Contract):
    """interchanging elements, any number of times, keeps a hypercube"""
    prop = 'C17'
    target = L + '_LHC_Individual.perturb'

    def build(self, c, case):
        S = NS(n=c.int('n', 1), k=c.int('k', 1), m=c.int('mutations', 0))
        if c.sym:
            S.doe = c.array('doe', (S.n, S.k))
            c.assume(cells(c, S.doe, S.n, 0, S.k), whole(c, S.doe, S.n, 0, S.k))
        else:
            S.perms = [c.choice('column %d' % j, list(itertools.permutations(range(S.n)))) for j in range(S.k)]
            S.doe = c.grid(S.n, S.k, lambda i, j: S.perms[j][i]).astype(float)
        S.old = c.snap(S.doe)
        S.x = c.obj(_LHC_Individual, doe=S.doe, q=2, p=1, phi=1.0)
        S.args = (S.x, S.m)
        return S

    def overrides(self, c, S):
        def randint(a, b):
            r = c.int('random', small=None)
            c.assume(a <= r, r <= b)
            return r
        return {'randint': c.model(randint, 'randint')}

    def loopspecs(self, c, S):
        return {0: LoopSpec(inv=lambda L, k, S_: [('a hypercube', cells(c, L.new_doe, S.n, 0, S.k)), ('whole numbers', whole(c, L.new_doe, S.n, 0, S.k))]),
                1: LoopSpec(inv=lambda L, k, S_: [('a row', And(0 <= L.el1, L.el1 < S.n, 0 <= L.el2, L.el2 < S.n))])}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            a = c.attr(out.value, 'doe')
            c.check('the same size', And(c.ndim(a) == 2, c.eq(c.dim(a, 0), S.n), c.eq(c.dim(a, 1), S.k)))
            c.check('every column holds every number once', cells(c, a, S.n, 0, S.k))
            c.check('whole numbers', whole(c, a, S.n, 0, S.k))
            c.check('the parent is unchanged', And(c.eq(S.doe, S.old), Not(c.shares(a, S.doe))))
            c.check('measured the same way', And(c.eq(c.attr(out.value, 'q'), 2), c.eq(c.attr(out.value, 'p'), 1), c.isnone(c.attr(out.value, 'phi'))))


class Search(Contract):
    """the search only ever interchanges elements of the hypercube it starts from"""
    prop = 'C17'
    target = L + '_mmlhs'

    def build(self, c, case):
        S = NS(pop=c.int('population', 0), gen=c.int('generations', 0))
        S.x = self.individual(c, S, 'start', True)
        S.args = (S.x, S.pop, S.gen)
        return S

    def individual(self, c, S, name, good=None):
        """ghost: good - its doe is a Latin hypercube"""
        if not c.sym:
            n, k = c.int('n', 2, 4), c.int('k', 1, 3)
            perms = [c.choice('column %d' % j, list(itertools.permutations(range(n)))) for j in range(k)]
            return _LHC_Individual(c.grid(n, k, lambda i, j: perms[j][i]).astype(float))
        if good is None:
            good = c.bool('good')
        phi = c.real('phi')
        return c.obj(_LHC_Individual, good=good, mmphi=c.method(lambda: phi), doe=c.array('doe', (c.int('rows', 1), c.int('columns', 1))))

    def uses(self, c, S):
        def perturb(x, count):
            c.check('a hypercube is perturbed', c.attr(x, 'good'))
            return self.individual(c, S, 'child', True)
        return {'_LHC_Individual.perturb': c.model(perturb)}

    def loopspecs(self, c, S):
        mk = lambda: self.individual(c, S, 'some')
        both = lambda L, k, S_: [('%s is a hypercube' % n, c.attr(getattr(L, n), 'good')) for n in ('x_best', 'x_improved')]
        return {0: LoopSpec(inv=lambda L, k, S_: [('x_best is a hypercube', c.attr(L.x_best, 'good'))], hints={'x_best': mk}),
                1: LoopSpec(inv=both, hints={'x_improved': mk})}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            if c.sym:
                c.check('a hypercube', c.attr(out.value, 'good'))
            else:
                n, k = out.value.doe.shape
                c.check('a hypercube', out.value.doe.shape == S.x.doe.shape and cells(c, out.value.doe, n, 0, k))


class Optimized(Contract):
    """the optimized hypercube is one, of the size asked for"""
    prop = 'C17'
    target = L + 'OptimizedLatinHypercubeDriver._get_lhc'

    def build(self, c, case):
        S = NS(n=c.int('n', 1), k=c.int('k', 0 if c.sym else 1))
        S.drv = c.obj(OptimizedLatinHypercubeDriver, qs=c.list([1, 2, 5]), num_samples=S.n, num_design_vars=S.k, population=2, generations=2, norm_method=1)
        S.args = (S.drv,)
        return S

    def fresh(self, c, S, n, k):
        a = c.toreal(c.array('hypercube', (n, k), kind='int'))
        c.assume(cells(c, a, n, 0, k))
        return a

    def uses(self, c, S):
        def rand(n, k):
            c.check('a hypercube of the size asked for', And(c.eq(n, S.n), c.eq(k, S.k)))
            return self.fresh(c, S, n, k)

        def mm(x, population, generations):
            d = c.attr(x, 'doe')
            n, k = c.dim(d, 0), c.dim(d, 1)
            c.check('the search starts from a hypercube', And(cells(c, d, n, 0, k), whole(c, d, n, 0, k)))
            return c.obj(_LHC_Individual, doe=self.fresh(c, S, n, k), q=1, p=1, phi=None)
        return {'_rand_latin_hypercube': c.model(rand), '_mmlhs': c.model(mm), '_LHC_Individual.mmphi': c.model(lambda x: c.real('phi'))}

    def ensures(self, c, S, out):
        c.check('no error', out.ok)
        if out.ok:
            a = out.value
            c.check('the size asked for', And(c.ndim(a) == 2, c.eq(c.dim(a, 0), S.n), c.eq(c.dim(a, 1), S.k)))
            c.check('every column holds every number once', cells(c, a, S.n, 0, S.k))


class Plain(Optimized):
    """a random hypercube of the size asked for"""
    target = L + 'LatinHypercubeDriver._get_lhc'

    def build(self, c, case):
        S = NS(n=c.int('n', 1), k=c.int('k', 0))
        S.args = (c.obj(LatinHypercubeDriver, num_samples=S.n, num_design_vars=S.k),)
        return S
