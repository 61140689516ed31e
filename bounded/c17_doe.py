"""C17 bounded stand-in: cases run by the sampling drivers on a recording model."""
import itertools
import numpy as np
from openmdao.api import (Problem, Group, Component, IndepVarComp, FullFactorialDriver, LatinHypercubeDriver, UniformDriver,
                          InMemoryRecorder)
from openmdao.drivers.latinhypercube_driver import OptimizedLatinHypercubeDriver
from openmdao.drivers.case_driver import CaseDriver
from openmdao.core.system import AnalysisError
from openmdao.util.array_util import evenly_distrib_idxs
from pyvc.contract import Bounded, Reject


class Log(Component):
    def __init__(self, vals, fail=()):
        super(Log, self).__init__()
        self.vals = vals
        self.seen = []
        self.fail = fail
        for n, v in vals.items():
            self.add_param(n, val=v)
        self.add_output('y', val=0.0)
        self.n = 0

    def solve_nonlinear(self, params, unknowns, resids):
        self.n += 1
        self.seen.append({n: np.array(params[n], dtype=float).flatten() for n in self.vals})
        if self.n - 1 in self.fail:
            raise AnalysisError('case fails')
        unknowns['y'] = sum(float(np.sum(params[n])) for n in self.vals)


class Setup(object):
    """a problem with a few design variables and what is expected of them"""
    def __init__(self, rng, driver, small=False):
        self.vals, self.size = {}, {}
        self.lo, self.hi, self.idx = {}, {}, {}
        names = ['x', 'ax', 'z'][:rng.randint(1, 2 if small else 3)]
        rng.shuffle(names)
        p = self.p = Problem(root=Group())
        p.driver = driver
        for n in names:
            s = rng.choice([0, 0, 1, 2] if small else [0, 0, 1, 2, 3])
            self.vals[n] = rng.randint(-4, 4) / 2.0 if s == 0 else np.array([rng.randint(-4, 4) / 2.0 for _ in range(s)])
        # variables the driver leaves alone
        self.vals['other'] = np.array([0.25, 0.75])
        p.root.add('p', IndepVarComp([(n, v if np.isscalar(v) else v.copy()) for n, v in self.vals.items()]))
        self.log = Log(self.vals, [k for k in range(3) if rng.random() < 0.1])
        p.root.add('c', self.log)
        self.names = []
        self.desc = []
        for n in self.vals:
            p.root.connect('p.' + n, 'c.' + n)
        for n in names:
            v = np.atleast_1d(self.vals[n])
            kw = {}
            idx = list(range(v.size))
            if v.size > 1 and rng.random() < 0.3:
                idx = rng.sample(idx, rng.randint(1, v.size))
                kw['indices'] = idx
            if rng.random() < 0.5:
                kw['lower'], kw['upper'] = rng.randint(-8, 0) / 2.0, rng.randint(1, 8) / 2.0
                lo, hi = [kw['lower']] * len(idx), [kw['upper']] * len(idx)
            else:
                lo = [rng.randint(-8, 0) / 2.0 for _ in idx]
                hi = [rng.randint(1, 8) / 2.0 for _ in idx]
                kw['lower'], kw['upper'] = np.array(lo), np.array(hi)
            if rng.random() < 0.3:
                kw['scaler'] = rng.choice([2.0, 0.5, 4.0])
            if rng.random() < 0.3:
                kw['adder'] = rng.choice([1.0, -2.0])
            self.desc.append('p.%s %s' % (n, kw))
            p.driver.add_desvar('p.' + n, **kw)
            self.names.append(n)
            self.lo[n], self.hi[n], self.idx[n] = lo, hi, idx
        p.driver.add_objective('c.y')
        self.rec = InMemoryRecorder()
        p.driver.add_recorder(self.rec)

    def run(self):
        self.p.setup(check=False)
        self.p.run()

    def rows(self):
        """one row per run: the selected elements of all design variables; and the rest"""
        rows, rest = [], []
        for c in self.log.seen:
            rows.append(np.concatenate([c[n][self.idx[n]] for n in self.names]))
            r = [c['other']]
            for n in self.names:
                r.append(np.array([c[n][k] for k in range(c[n].size) if k not in self.idx[n]]))
            rest.append(np.concatenate(r))
        want = np.concatenate([np.atleast_1d(self.vals['other'])] + [
            np.array([np.atleast_1d(self.vals[n])[k] for k in range(np.size(self.vals[n])) if k not in self.idx[n]]) for n in self.names])
        return rows, rest, want

    def limits(self):
        return np.concatenate([self.lo[n] for n in self.names]), np.concatenate([self.hi[n] for n in self.names])


class Samples(Bounded):
    prop = 'C17'
    covers = ('openmdao.drivers: FullFactorialDriver, LatinHypercubeDriver, OptimizedLatinHypercubeDriver, UniformDriver, CaseDriver, '
              'PredeterminedRunsDriver.run, _run_serial, _prep_case, _try_case; Driver.set_desvar')
    samples = 1600
    parts = 4

    def sample(self, t, rng):
        kind = rng.choice(['ff', 'lhc', 'olhc', 'uniform', 'case'])
        seed = rng.choice([None, rng.randint(0, 1000)])
        n = rng.randint(1, 6)
        if kind == 'ff':
            n = rng.randint(2, 4)
            d = FullFactorialDriver(num_levels=n)
        elif kind == 'lhc':
            d = LatinHypercubeDriver(num_samples=n, seed=seed)
        elif kind == 'olhc':
            d = OptimizedLatinHypercubeDriver(num_samples=n, seed=seed, population=rng.randint(1, 5), generations=rng.randint(1, 6),
                                              norm_method=rng.choice([1, 2]))
        elif kind == 'uniform':
            d = UniformDriver(num_samples=n, seed=seed)
        else:
            d = CaseDriver()
        s = Setup(rng, d, small=kind == 'ff')
        given = []
        if kind == 'case':
            for _ in range(n):
                case, row = [], {}
                for v in rng.sample(s.names, rng.randint(1, len(s.names))):
                    x = [rng.randint(-8, 8) / 4.0 for _ in s.idx[v]]
                    case.append(('p.' + v, np.array(x)))
                    row[v] = x
                given.append((case, row))
            d.cases = [c for c, r in given]
        t.note('%s n=%d seed=%s; %s; failing %s' % (kind, n, seed, s.desc, s.log.fail))
        s.run()
        rows, rest, want = s.rows()
        t.note('rows %s' % [r.tolist() for r in rows])
        for r in rest:
            t.check('what is no design variable is not touched', np.array_equal(r, want))
        t.check('every case is recorded once, in order', len(s.rec.iters) == len(rows))
        t.check('cases are numbered', s.p.driver.iter_count == len(rows))
        for k, it in enumerate(s.rec.iters):
            if k not in s.log.fail:
                t.check('case %d is recorded with its result' % k, abs(it['unknowns']['c.y'] - sum(float(np.sum(v)) for v in s.log.seen[k].values())) < 1e-9)
            t.check('success of case %d' % k, it['success'] == (0 if k in s.log.fail else 1))
        lo, hi = s.limits()
        if kind == 'case':
            t.check('as many cases as given', len(rows) == n)
            now = {v: np.atleast_1d(np.array(s.vals[v], dtype=float)).copy() for v in s.names}
            for k, (case, row) in enumerate(given):
                for v, x in row.items():
                    desv = s.p.driver.get_desvar_metadata()['p.' + v]
                    now[v][s.idx[v]] = np.array(x) / desv['scaler'] - desv['adder']
                w = np.concatenate([now[v][s.idx[v]] for v in s.names])
                t.check('case %d is the one given' % k, np.allclose(rows[k], w, atol=1e-12))
            return
        for r in rows:
            t.check('within the limits', np.all(r >= lo - 1e-9) and np.all(r <= hi + 1e-9))
        if kind == 'ff':
            levels = [np.linspace(a, b, n) for a, b in zip(lo, hi)]
            left = [np.array(x) for x in itertools.product(*levels)]
            t.check('as many cases as combinations', len(rows) == len(left))
            for r in rows:
                k = [i for i, x in enumerate(left) if np.allclose(x, r, atol=1e-9)]
                t.check('each combination exactly once', len(k) == 1)
                left.pop(k[0])
        else:
            t.check('as many cases as asked for', len(rows) == n)
        if kind in ('lhc', 'olhc'):
            for j in range(len(lo)):
                cell = [(r[j] - lo[j]) / (hi[j] - lo[j]) * n for r in rows]
                used = sorted(cell)
                t.check('one sample in each stratum of dimension %d' % j, all(k - 1e-9 <= x <= k + 1 + 1e-9 for k, x in enumerate(used)))
        if kind == 'uniform' and len(rows) > 1:
            t.check('the cases differ', not np.array_equal(rows[0], rows[1]))
        if seed is not None:
            first = [r.copy() for r in rows]
            s.log.seen, s.log.n = [], 0
            s.p.run()
            again, _, _ = s.rows()
            t.check('the same seed gives the same cases', len(first) == len(again) and all(np.allclose(a, b) for a, b in zip(first, again)))
            t.check('cases are counted again', s.p.driver.iter_count == len(again))


class Comm(object):
    """stands for an MPI communicator of the processes that share the cases"""
    def __init__(self, ids, box):
        self.ids, self.box, self.rank = ids, box, 0

    def allgather(self, x):
        return list(self.ids)

    def scatter(self, jobs, root=0):
        if jobs is not None:
            self.box['jobs'] = jobs
        return self.box['jobs'][self.rank]


class Division(Bounded):
    prop = 'C17'
    covers = ('evenly_distrib_idxs; PredeterminedRunsDriver._distrib_build_runlist, LatinHypercubeDriver._distrib_build_runlist '
              '(communicator replaced by a stand-in)')
    samples = 1500
    parts = 1

    def sample(self, t, rng):
        n, m = rng.randint(1, 9), rng.randint(0, 30)
        sizes, offs = evenly_distrib_idxs(n, m)
        t.note('%d workers, %d cases: %s %s' % (n, m, sizes, offs))
        t.check('as many shares as workers', len(sizes) == n and len(offs) == n)
        got = [k for s, o in zip(sizes, offs) for k in range(o, o + s)]
        t.check('every case to exactly one worker', got == list(range(m)))
        t.check('shares differ by at most one', max(sizes) - min(sizes) <= 1)
        d = CaseDriver([[('a', k)] for k in range(m)])
        d._num_par_doe = n
        parts = []
        for i in range(n):
            d._par_doe_id = i
            parts.append([c[0][1] for c in d._distrib_build_runlist()])
        t.note('round robin %s' % parts)
        t.check('every case to exactly one process', sorted(x for q in parts for x in q) == list(range(m)))
        t.check('shares of processes differ by at most one', max(map(len, parts)) - min(map(len, parts)) <= 1)
        t.check('each process keeps the order', all(q == sorted(q) for q in parts))
        d = LatinHypercubeDriver(num_samples=m)
        d._num_par_doe = n
        d._build_runlist = lambda: iter([[('a', k)] for k in range(m)])
        ids = list(range(n))
        rng.shuffle(ids)
        box, parts = {}, []
        for r in range(n):
            d._full_comm = Comm(ids, box)
            d._full_comm.rank = r
            d._par_doe_id = ids[r]
            parts.append([c[0][1] for c in d._distrib_build_runlist()])
        t.note('shares %s' % parts)
        t.check('every sample to exactly one process', sorted(x for q in parts for x in q) == list(range(m)))
        t.check('sample shares differ by at most one', max(map(len, parts)) - min(map(len, parts)) <= 1)


class Workers(Bounded):
    prop = 'C17'
    covers = 'PredeterminedRunsDriver._run_lb_multiproc, worker (real processes)'
    samples = 12
    parts = 2
    limit = 60

    def sample(self, t, rng):
        n, k = rng.randint(0, 6), rng.randint(2, 3)
        d = CaseDriver(num_par_doe=k)
        s = Setup(rng, d, small=True)
        s.log.fail = ()
        given = []
        for _ in range(n):
            row = {v: [rng.randint(-8, 8) / 4.0 for _ in s.idx[v]] for v in s.names}
            given.append(row)
        d.cases = [[('p.' + v, np.array(x)) for v, x in r.items()] for r in given]
        t.note('%d cases, %d workers; %s' % (n, k, s.desc))
        s.run()
        got = []
        for it in s.rec.iters:
            got.append(tuple(tuple(np.atleast_1d(it['unknowns']['p.' + v])[s.idx[v]]) for v in s.names))
            other = sum(float(np.sum(it['unknowns'][q])) for q in it['unknowns'] if q.startswith('p.'))
            t.check('its result is recorded with a case', abs(it['unknowns']['c.y'] - other) < 1e-9)
        want = []
        for r in given:
            row = []
            for v in s.names:
                m = s.p.driver.get_desvar_metadata()['p.' + v]
                row.append(tuple(np.array(r[v]) / m['scaler'] - m['adder']))
            want.append(tuple(row))
        t.note('got %s want %s' % (sorted(got), sorted(want)))
        t.check('every case is run and recorded exactly once', len(got) == len(want) and np.allclose(
            [np.concatenate(g) for g in sorted(got)], [np.concatenate(w) for w in sorted(want)]) if want else not got)
