"""C12 bounded stand-in: recorders of drivers and solvers on random nested models, watched from outside."""
import copy
import io
import os
import re
import shutil
import tempfile
import warnings
import numpy as np
from openmdao.api import Newton, NLGaussSeidel, RunOnce, DirectSolver, ScipyGMRES, AnalysisError, InMemoryRecorder, BaseRecorder, SqliteRecorder
from openmdao.core.group import Group
from openmdao.drivers.fullfactorial_driver import FullFactorialDriver
from openmdao.drivers.scipy_optimizer import ScipyOptimizer
from openmdao.recorders.case_reader import CaseReader
from openmdao.recorders.dump_recorder import DumpRecorder
from openmdao.solvers.backtracking import BackTracking
from openmdao.util.record_util import format_iteration_coordinate
from pyvc.contract import Bounded, Reject
from bounded import gen


def glob(pat, s):
    """shell patterns with * and ?, matched case-sensitively"""
    if not pat:
        return not s
    if pat[0] == '*':
        return any(glob(pat[1:], s[k:]) for k in range(len(s) + 1))
    return bool(s) and (pat[0] == '?' or pat[0] == s[0]) and glob(pat[1:], s[1:])


def wanted(name, rec):
    return any(glob(p, name) for p in rec.options['includes']) and not any(glob(p, name) for p in rec.options['excludes'])


def same(a, b):
    if isinstance(a, (float, int, np.ndarray)) and isinstance(b, (float, int, np.ndarray)):
        return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True)
    return a == b


def copies(vec, names=None):
    return {n: copy.deepcopy(vec[n]) for n in (vec if names is None else names)}


class Seen(BaseRecorder):
    """a recorder that copies what it is handed at once"""
    def __init__(self):
        super(Seen, self).__init__()
        self._parallel = True
        self.iters = []

    def record_iteration(self, params, unknowns, resids, metadata):
        c = metadata['coord']
        d = {'iter': format_iteration_coordinate(c), 'coord': copy.deepcopy(c)}
        for k, o, v in (('params', 'record_params', params), ('unknowns', 'record_unknowns', unknowns), ('resids', 'record_resids', resids)):
            if self.options[o]:
                d[k] = copies(self._filter_vector(v, k[0], c))
        self.iters.append(d)

    def record_metadata(self, group):
        pass

    def record_derivatives(self, derivs, metadata):
        pass


def patterns(rng, names, n):
    out = []
    for _ in range(n):
        s = rng.choice(names)
        k = rng.random()
        if k < 0.35:
            a = rng.randint(0, len(s))
            s = s[:a] + '*' + s[rng.randint(a, len(s)):]
        elif k < 0.5 and s:
            a = rng.randrange(len(s))
            s = s[:a] + '?' + s[a + 1:]
        elif k < 0.6:
            s = s.swapcase()
        elif k < 0.7:
            s = '*'
        out.append(s)
    return out


class Records(Bounded):
    prop = 'C12'
    covers = ('openmdao.recorders: BaseRecorder, InMemoryRecorder, SqliteRecorder with CaseReader, RecordingManager; util.record_util; the records made by '
              'Driver.run, FullFactorialDriver, ScipyOptimizer, RunOnce, NLGaussSeidel, Newton and BackTracking over nested groups')
    samples = 3000
    parts = 4

    def known(self, failure, t):
        if getattr(t, 'fd', False) and failure.startswith(('unexpected KeyError', 'coordinates name', 'a coordinate', 'coordinates are', 'the coordinate')):
            return 'C12-fd-coordinates'

    def sample(self, t, rng):
        kind = rng.choice(['run', 'run', 'run', 'doe', 'opt'])
        m = gen.model(rng, cyclic=rng.random() < 0.5, states=rng.random() < 0.3, contract=rng.choice([0.1, 0.3]), styles=('lin',), ncomp=rng.randint(2, 5))
        p = m.build()
        fd = False
        log = []                # (group path or 'driver', coordinate, vectors) for every iteration, watched from outside
        stack = []
        desc = []
        for g in m.groups:
            s = g.system
            k = rng.choice(['newton', 'gs', 'once', 'once'])
            nl = {'newton': Newton, 'gs': NLGaussSeidel, 'once': RunOnce}[k]()
            if k != 'once':
                nl.options['maxiter'] = rng.choice([1, 2, 3, 4])
            nl.options['iprint'] = -1
            if k == 'newton':
                nl.options['solve_subsystems'] = rng.random() < 0.6
                if rng.random() < 0.4:
                    nl.line_search = BackTracking()
                    nl.line_search.options['maxiter'] = rng.randint(0, 3)
                    nl.line_search.options['iprint'] = -1
            s.nl_solver = nl
            s.ln_solver = DirectSolver() if rng.random() < 0.7 else ScipyGMRES()
            s.ln_solver.options['iprint'] = -1
            if rng.random() < 0.07 and not any(c.kind == 'indep' for c in m.comps if self.inside(c, g)):
                s.deriv_options['type'] = 'fd'
                fd = True
                k += ' fd'
            desc.append('%s: %s' % (g.path or 'root', k))
        ins = [(c, v) for c in m.comps if c.kind == 'indep' for v in c.outputs() if not v.pbo]
        outs = [(c, v) for c in m.comps if c.kind != 'indep' for v in c.outputs() if not v.pbo]
        if kind != 'run':
            if not ins or not outs:
                raise Reject()
            p.driver = FullFactorialDriver(num_levels=2) if kind == 'doe' else ScipyOptimizer()
            c, v = rng.choice(ins)
            if kind == 'doe' and np.size(v.val) > 2:
                raise Reject()
            p.driver.add_desvar(v.top, lower=-1.0, upper=1.0)
            c, v = rng.choice(outs)
            p.driver.add_objective(v.top)
            if kind == 'opt':
                if np.size(v.val) != 1:
                    raise Reject()
                p.driver.options['disp'] = False
                p.driver.options['maxiter'] = 2
        names = [v.top.split('.')[-1] for c in m.comps for v in c.ins() + c.outputs()] + [v.top for c in m.comps for v in c.outputs()]
        names = names or ['x']
        tmp = None
        recs = []
        owners = [('driver', p.driver)] + [(g.path, g.system.nl_solver) for g in m.groups]
        files = []
        try:
            for where, o in owners:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    k = rng.choice(['seen', 'mem', 'mem', 'mem'])
                    if rng.random() < 0.06:
                        k = 'sqlite'
                        if tmp is None:
                            tmp = tempfile.mkdtemp()
                        f = os.path.join(tmp, '%d.db' % len(recs))
                        r = SqliteRecorder(f)
                        r.options['record_metadata'] = False
                        files.append((r, f))
                    else:
                        r = {'seen': Seen, 'mem': InMemoryRecorder}[k]()
                        r.options['record_metadata'] = False
                    for x in ('params', 'unknowns', 'resids'):
                        r.options['record_' + x] = rng.random() < 0.6
                    if rng.random() < 0.6:
                        r.options['includes'] = patterns(rng, names, rng.randint(0, 3))
                    if rng.random() < 0.6:
                        r.options['excludes'] = patterns(rng, names, rng.randint(0, 2))
                    o_ = [where]
                    o.add_recorder(r) if where == 'driver' else o.recorders.append(r)
                    if k != 'sqlite' and rng.random() < 0.1:            # one recorder in two places
                        w2, o2 = rng.choice(owners)
                        if w2 != where:
                            o2.recorders.append(r)
                            o_.append(w2)
                    recs.append((o_, r, k))
            t.note(m.describe() + '\n' + kind + ' ' + '; '.join(desc) + '\n' + '\n'.join(
                '%s: %s %s' % (w, k, {x: r.options[x] for x in ('includes', 'excludes', 'record_params', 'record_unknowns', 'record_resids')}) for w, r, k in recs))
            t.fd = fd
            try:
                p.setup(check=False)
            except NotImplementedError:
                raise Reject()
            for g in m.groups:
                self.watch(gen.system_at(p, g.path) if g.path else p.root, log, stack)
            self.watch_driver(p, kind, log, stack)
            runs = []
            for _ in range(rng.randint(1, 2)):
                a = len(log)
                counts = [len(r.iters) if k != 'sqlite' else None for w, r, k in recs]
                try:
                    with np.errstate(all='ignore'):
                        p.run()
                except (AnalysisError, np.linalg.LinAlgError):
                    raise Reject()
                except ValueError as e:
                    if 'inf' not in str(e).lower() and 'nan' not in str(e).lower():
                        raise
                    raise Reject()
                runs.append((a, len(log)))
                if kind != 'run':
                    break                       # a second optimization starts counting again
            # what comes later must not reach the records
            if rng.random() < 0.5:
                for s in [p.root]:
                    s.unknowns.vec[:] += 0.625
                    s.resids.vec[:] -= 1.5
                    s.params.vec[:] += 0.375
            for r, f in files:
                r.close()
            self.verify(t, recs, log, files, kind)
        finally:
            for r, f in files:
                try:
                    r.close()
                except Exception:
                    pass
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)

    @staticmethod
    def inside(c, g):
        x = c.parent
        while x is not None:
            if x is g:
                return True
            x = getattr(x, 'parent', None)
        return False

    def watch(self, s, log, stack):
        nl = s.nl_solver
        solve, kids, apply_ = nl.solve, s.children_solve_nonlinear, s.apply_nonlinear
        path = s.pathname
        newton = isinstance(nl, Newton)

        def note(meta):
            log.append((path, [e[2] for e in stack] and None, [copy.deepcopy(e) for e in stack], {'params': copies(s.params), 'unknowns': copies(s.unknowns), 'resids': copies(s.resids)}))

        def watched_solve(*a, **k):
            stack.append([s.name if path else 'root', path, 0, 0])
            try:
                return solve(*a, **k)
            finally:
                stack.pop()

        def watched_kids(metadata=None, *a, **k):
            top = stack and stack[-1][1] == path
            if top and not newton:
                stack[-1][2] += 1
            r = kids(metadata, *a, **k)
            if top and not newton:
                note(metadata)
            return r

        def watched_apply(*a, **k):
            top = stack and stack[-1][1] == path and newton
            r = apply_(*a, **k)
            if top:
                stack[-1][3] += 1
                if stack[-1][3] > 1:            # the first evaluation belongs to the starting point
                    note(None)
            return r
        nl.solve, s.children_solve_nonlinear, s.apply_nonlinear = watched_solve, watched_kids, watched_apply

    def watch_driver(self, p, kind, log, stack):
        s = p.root
        orig = s.solve_nonlinear
        count = [0]
        drv = 'SLSQP' if kind == 'opt' else 'Driver'
        run = p.driver.run

        def start(*a, **k):
            count[0] = 0
            return run(*a, **k)
        p.driver.run = start

        def solve(*a, **k):
            stack.append([drv, None, 0, 0])
            try:
                r = orig(*a, **k)
            finally:
                stack.pop()
            count[0] += 1
            if kind != 'opt' or count[0] > 1:   # the optimizer's first run is its starting point
                log.append(('driver', None, [[drv, None, 0, 0]], {'params': copies(s.params), 'unknowns': copies(s.unknowns), 'resids': copies(s.resids)}))
            return r
        s.solve_nonlinear = solve

    @staticmethod
    def parse(text):
        m = re.match(r'^rank(\d+):(.*)$', text)
        if not m:
            return None
        parts = m.group(2).split('|')
        if len(parts) % 2:
            return None
        try:
            return int(m.group(1)), [(parts[k], tuple(int(x) for x in parts[k + 1].split('-'))) for k in range(0, len(parts), 2)]
        except ValueError:
            return None

    def verify(self, t, recs, log, files, kind):
        everywhere = {}
        for where, r, k in recs:
            exp = [e for e in log if e[0] in where]
            if k == 'sqlite':
                rd = CaseReader([f for x, f in files if x is r][0])
                got = []
                for key in rd.list_cases():
                    c = rd.get_case(key)
                    got.append({'iter': key, 'params': c.parameters, 'unknowns': c.unknowns, 'resids': c.resids})
                for d in got:
                    for x in ('params', 'unknowns', 'resids'):
                        if not r.options['record_' + x]:
                            t.check('a category that is not enabled is not recorded', d[x] is None)
                            del d[x]
            else:
                got = r.iters
            t.check('each iteration is recorded exactly once (%s of %s: %d for %d)' % (k, where, len(got), len(exp)), len(got) == len(exp))
            last = None
            for d, e in zip(got, exp):
                for x in ('params', 'unknowns', 'resids'):
                    if r.options['record_' + x]:
                        now = {n: v for n, v in e[3][x].items() if wanted(n, r)}
                        t.check('exactly the variables asked for are recorded (%s)' % x, set(d[x]) == set(now))
                        for n, v in now.items():
                            t.check('the recorded value is the value at that time (%s)' % x, same(d[x][n], v))
                    else:
                        t.check('a category that is not enabled is not recorded', x not in d)
                c = self.parse(d['iter'])
                t.check('a coordinate reads back as names and counts', c is not None)
                t.check('coordinates name the nesting that made them', c[0] == 0 and [n for n, i in c[1]] == [s[0] for s in e[2]])
                everywhere.setdefault(d['iter'], set()).add(e[0])
            its = [d['iter'] for d in got]
            if len(where) == 1:
                t.check('the coordinate of an iteration is unique in its run', len(set(its)) == len(its))
                keys = [[i for n, i in self.parse(x)[1]] for x in its]
                t.check('coordinates are counted in order', all(a < b for a, b in zip(keys, keys[1:])))
        for c, who in everywhere.items():
            t.check('a coordinate belongs to one driver or solver', len(who) == 1)


class Dump(Bounded):
    """the text of iterations and derivatives written by a DumpRecorder"""
    prop = 'C12'
    covers = 'openmdao.recorders.dump_recorder: DumpRecorder.record_iteration, record_derivatives, record_metadata; BaseRecorder.startup'
    samples = 1500

    def sample(self, t, rng):
        out = io.StringIO()
        simple, warnings.simplefilter = warnings.simplefilter, lambda *a: None      # DumpRecorder announces its deprecation
        try:
            r = DumpRecorder(out)
        finally:
            warnings.simplefilter = simple
        names = rng.sample(['x', 'y', 'f', 'sub.x', 'sub.y', 'a_b', 'c1.out:z'], rng.randint(1, 7))

        def value():
            k = rng.randint(0, 3)
            return rng.uniform(-5, 5) if k == 0 else rng.randint(0, 9) if k == 1 else 'text%d' % rng.randint(0, 9) if k == 2 else np.array([rng.uniform(-5, 5) for _ in range(rng.randint(1, 3))])
        vecs = {k: {n: value() for n in names} for k in 'pu'}
        vecs['r'] = {n: value() for n in names}
        path = rng.choice(['', 'g', 'g.s'])
        g = type('G', (), {})()
        g.params, g.unknowns, g.resids, g.pathname = vecs['p'], vecs['u'], vecs['r'], path
        for k in ('params', 'unknowns', 'resids'):
            r.options['record_' + k] = rng.random() < 0.6
        r.options['includes'] = patterns(rng, names, rng.randint(0, 3)) + (['*'] if rng.random() < 0.6 else [])
        r.options['excludes'] = patterns(rng, names, rng.randint(0, 2))
        r.startup(g)
        coord = [0, 'Driver', (rng.randint(1, 9),), 'root', (rng.randint(1, 9), rng.randint(0, 9))]
        for n in path.split('.') if path else []:
            coord += [n, (rng.randint(1, 9),)]
        t.note('names %s, includes %s, excludes %s, at %s' % (names, r.options['includes'], r.options['excludes'], coord))
        for _ in range(rng.randint(1, 3)):
            for k in 'pur':
                for n in names:
                    if rng.random() < 0.5:
                        vecs[k][n] = value()
            ok = rng.random() < 0.7
            meta = {'coord': coord, 'timestamp': rng.uniform(0, 100), 'success': int(ok), 'msg': '' if ok else 'went wrong'}
            head = ['Timestamp: %r' % meta['timestamp'], None, 'Iteration succeeded: ' + ('yes' if ok else 'no')] + ([] if ok else ['Error msg: went wrong'])
            at = out.tell()
            if rng.random() < 0.75:
                r.record_iteration(vecs['p'], vecs['u'], vecs['r'], meta)
                head[1] = 'Iteration Coordinate: ' + format_iteration_coordinate(coord)
                want = head
                for k, title in (('p', 'Params'), ('u', 'Unknowns'), ('r', 'Resids')):
                    if r.options['record_' + title.lower()]:
                        want = want + [title + ':'] + ['  %s: %s' % (n, vecs[k][n]) for n in sorted(names) if wanted(n, r)]
            else:
                if rng.random() < 0.7:
                    derivs = {n: {m: value() for m in rng.sample(names, rng.randint(1, len(names)))} for n in rng.sample(names, rng.randint(1, len(names)))}
                    lines = ['  %s wrt %s: %s' % (n, m, derivs[n][m]) for n in sorted(derivs) for m in sorted(derivs[n])]
                else:
                    derivs = np.array([[rng.uniform(-5, 5)]])
                    lines = ['  %s ' % derivs]
                r.record_derivatives(derivs, meta)
                head[1] = 'Iteration Coordinate: ' + format_iteration_coordinate(coord) + '/Derivs'
                want = head + ['Derivatives:'] + lines
            out.seek(at)
            got = out.read()
            t.check('the text of what was asked for', got == '\n'.join(want) + '\n')
