"""Runs every contract and bounded stand-in of one property and decides it.

usage: python -m pyvc.run C04 [--tier quick|thorough] [--only NAME] [-v]
       python -m pyvc.run --replay FILE
"""
import argparse
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')

from pyvc import core, contract            # noqa: E402
from pyvc.contract import (run_symbolic, run_concrete, RandSource, ModelSource,   # noqa: E402
                           Reject, Hang, ConcCtx)
from pyvc.core import discharge, Unsupported, set_eng, z3, to_smt2   # noqa: E402

CHECKER = '/opt/venv/bin/python -m pyvc.run'
REPLAYS = os.environ.get('VERIF_REPLAYS', os.path.join(HERE, 'evidence', 'replays'))

TRUSTED_BASE = [
    'pyvc: the verification-condition generator in /verif/pyvc (AST interpreter, array/buffer model, loop rule)',
    'z3 (python API of /opt/veriftools/pyvenv); cvc5 as a second opinion in the thorough tier',
    'floats are mathematical reals: no rounding, overflow or signed zero; NaN only where a contract models it',
    'assumed contracts on Python builtins, six and numpy in pyvc/models.py',
]


class Recording(object):
    """a source that notes every primitive value it hands out"""
    def __init__(self, src):
        self.__dict__['src'] = src
        self.__dict__['draws'] = []

    def __getattr__(self, n):
        f = getattr(self.src, n)
        if n in ('real', 'int', 'bool', 'choose', 'string', 'elem', 'func'):
            def g(*a, **k):
                v = f(*a, **k)
                self.draws.append(v)
                return v
            return g
        return f


class Playback(object):
    def __init__(self, draws):
        self.draws = list(draws)

    def _next(self, *a, **k):
        if not self.draws:
            raise Reject()
        return self.draws.pop(0)
    real = int = bool = choose = string = elem = func = _next


class RSource(Recording):
    pass


# isinstance tests in ConcCtx look at the wrapped source's class
def recording(src):
    base = RandSource if isinstance(src, RandSource) else ModelSource

    class Rec(base):
        def __init__(self):
            self.__dict__.update(src.__dict__)
            self.draws = []
    for n in ('real', 'int', 'bool', 'choose', 'string', 'elem', 'func'):
        if hasattr(base, n):
            def mk(n):
                f = getattr(base, n)

                def g(self, *a, **k):
                    nested = getattr(self, '_in', 0)
                    self._in = nested + 1
                    try:
                        v = f(self, *a, **k)
                    finally:
                        self._in = nested
                    if not nested:
                        self.draws.append(v)
                    return v
                return g
            setattr(Rec, n, mk(n))
    return Rec()


class PlaySource(ModelSource):
    def __init__(self, draws):
        self.draws = list(draws)
        self.counter = {}

    def _next(self, *a, **k):
        if not self.draws:
            raise Reject()
        return self.draws.pop(0)
    real = int = bool = choose = string = elem = func = _next

    def begin_array(self, name):
        pass

    def name(self, base):
        return base


def jsonable(v):
    if isinstance(v, complex):
        return {'complex': [v.real, v.imag]}
    if hasattr(v, 'item'):
        return v.item()
    return v


def unjson(v):
    if isinstance(v, dict) and 'complex' in v:
        return complex(*v['complex'])
    return v


# ------------------------------------------------------------------ tasks

def load(prop):
    cons, bnds = [], []
    for pkg in ('contracts', 'bounded'):
        d = os.path.join(HERE, pkg)
        for fn in sorted(os.listdir(d)):
            if not fn.endswith('.py') or fn.startswith('_'):
                continue
            # only import the files of this property (fast start), named cNN_*.py or mentioning it
            with open(os.path.join(d, fn)) as f:
                src = f.read()
            if ("'%s'" % prop) not in src:
                continue
            m = importlib.import_module('%s.%s' % (pkg, fn[:-3]))
            for k, v in sorted(vars(m).items()):
                if isinstance(v, type) and v.__module__ == m.__name__:
                    props = getattr(v, 'prop', None)
                    if props is None:
                        continue
                    if prop != props and prop not in (props if isinstance(props, tuple) else ()):
                        continue
                    if issubclass(v, contract.Contract) and v.target:
                        cons.append(v())
                    elif issubclass(v, contract.Bounded):
                        bnds.append(v())
    return cons, bnds


def cname(con, case):
    return con.name if case is None else '%s[%s]' % (con.name, case)


def write_replay(name, data):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, '%s.json' % ''.join(ch if ch.isalnum() or ch in '-_' else '_' for ch in name))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return p


def replay_data(con, case, src, log, failures, out, how):
    return dict(kind='contract', prop=con.prop, module=type(con).__module__, contract=con.name,
                case=repr(case), target=con.target, failed=failures, outcome=repr(out)[:400], how=how,
                draws=[jsonable(d) for d in getattr(src, 'draws', [])],
                inputs=[(n, repr(v)[:300]) for n, v in log],
                rerun='cd /verif && ./check --replay <this file>')


def rac(con, case, n, seed, budget, res):
    """runtime assertion checking: random inputs through the real function"""
    rng = random.Random('%s|%s|%s' % (con.name, case, seed))
    t0 = time.time()
    tries = ok = checks = 0
    while ok < n and tries < n * 30 and time.time() - t0 < budget:
        tries += 1
        src = recording(RandSource(random.Random(rng.random())))
        try:
            f, k, log, out = run_concrete(con, case, src)
        except Reject:
            continue
        except Hang as ex:
            p = write_replay('%s_rac_hang' % cname(con, case),
                             replay_data(con, case, src, [], ['terminates: %s' % ex], None, 'runtime check'))
            res['violations'].append(dict(name='%s: terminates' % cname(con, case), replay=p, input=True))
            break
        ok += 1
        checks += k
        if f:
            known = [x for x in (con.known(x) for x in f) if x] if hasattr(con, 'known') else []
            if known and len(known) == len(f):
                res['known'].extend(known)
                continue
            p = write_replay('%s_rac' % cname(con, case), replay_data(con, case, src, log, f, out, 'runtime check'))
            res['violations'].append(dict(name='%s: %s' % (cname(con, case), f[0]), replay=p, input=True))
            break
    res['rac'] = ok
    res['rac_checks'] = checks


def discharge_all(e, timeout_ms, deadline, res, stop_after_fail=None):
    fails = []
    for i, ob in enumerate(e.obligations):
        if time.time() > deadline:
            for o in e.obligations[i:]:
                o.status, o.detail = 'unknown', 'time budget'
                fails.append(o)
            break
        discharge(ob, timeout_ms)
        if ob.status != 'proved':
            fails.append(ob)
            if stop_after_fail and len(fails) >= stop_after_fail:
                for o in e.obligations[i + 1:]:
                    if o.status is None:
                        o.status, o.detail = 'unknown', 'skipped'
                break
    return fails


def try_model(con, case, ob, res, label):
    """replay a solver model on the real code"""
    src = recording(ModelSource(ob.model, ob.path))
    try:
        f, k, log, out = run_concrete(con, case, src)
    except Reject:
        return False
    except Hang as ex:
        p = write_replay('%s_hang' % cname(con, case), replay_data(con, case, src, [], [str(ex)], None, label))
        res['violations'].append(dict(name='%s (hang)' % ob.name, replay=p, input=True))
        return True
    except Exception:
        return False
    if f:
        p = write_replay('%s_model' % cname(con, case),
                         dict(replay_data(con, case, src, log, f, out, label), obligation=ob.name,
                              solver=ob.backend, verdict=ob.status))
        res['violations'].append(dict(name=ob.name, replay=p, input=True))
        return True
    return False


def contract_task(con, case, opts):
    res = dict(contract=con.name, case=repr(case), target=con.target, violations=[], known=[], obligations=0,
               discharged=0, status=None, backends={}, solver_s=0.0, inlined=[], used=[], loops=[],
               assumptions=[], rac=0, rac_checks=0, notes=[], obs=[])
    seed, tier, t_end = opts['seed'], opts['tier'], time.time() + opts['task_s']
    mult = 8 if tier == 'thorough' else 1
    rac(con, case, con.rac * mult, seed, opts['task_s'] * 0.25, res)
    if res['violations']:
        res['status'] = 'violated'
        return res
    if opts.get('rac_only'):
        res['status'] = 'rac'
        return res
    e = None
    structural = None
    t0 = time.time()
    try:
        e = run_symbolic(con, case, bounded=con.bound if con.bounded_only else None,
                         deadline=time.time() + (t_end - time.time()) * 0.5)
    except Unsupported as ex:
        structural = 'unsupported: %s' % ex
    except Exception as ex:
        structural = 'engine: %s: %s' % (type(ex).__name__, ex)
        res['notes'].append('internal: ' + ' | '.join(traceback.format_exc().splitlines()[-4:]))
    except RecursionError as ex:
        structural = 'engine: recursion'
    fails = []
    if e is not None:
        info = e.info
        res.update(inlined=sorted(info['inlined']), used=sorted(info['used']),
                   loops=sorted('%s#%d' % k if isinstance(k, tuple) else str(k) for k in info['loops']),
                   paths=e.paths, outcomes=info['outcomes'], assumptions=sorted(e.assumptions))
        fails = discharge_all(e, con.timeout_ms * (3 if tier == 'thorough' else 1),
                              time.time() + max(5, (t_end - time.time()) * 0.6), res)
        for ob in e.obligations:
            res['obligations'] += 1
            res['solver_s'] += ob.time
            if ob.status == 'proved':
                res['discharged'] += 1
                res['backends'][ob.backend] = res['backends'].get(ob.backend, 0) + 1
        res['obs'] = sorted(set(ob.name for ob in e.obligations))
        res['failed'] = [(o.name, o.status, o.detail) for o in fails][:20]
        # vacuity: some completed path must be satisfiable, and there must be obligations
        if not e.obligations:
            structural = 'vacuous: no obligations'
        elif not info['completed']:
            structural = 'vacuous: no completed path'
        else:
            ok = False
            unk = False
            for pc in (info['cover'] or []):
                s = z3.Solver()
                s.set('timeout', 4000)
                s.add(*pc)
                r = s.check()
                if r == z3.sat:
                    ok = True
                    break
                if r == z3.unknown:
                    unk = True
            res['cover'] = 'sat' if ok else ('unknown' if unk else 'unsat')
            if not ok and not unk:
                structural = 'vacuous: precondition unsatisfiable'
        if tier == 'thorough' and not fails:
            second_opinion(e, res, t_end)
    res['sym_s'] = round(time.time() - t0, 2)
    if e is not None and not fails and not structural:
        res['status'] = 'bounded' if con.bounded_only else 'proved'
        return res
    # ------------------------------------------------ fallback
    res['notes'].append(structural or 'undischarged: %s' % '; '.join('%s (%s)' % (o.name, o.status) for o in fails[:4]))
    for ob in fails:
        if ob.model is not None and try_model(con, case, ob, res, 'solver model of a failed obligation'):
            res['status'] = 'violated'
            return res
    bfails = []
    bstruct = None
    be = None
    try:
        be = run_symbolic(con, case, bounded=con.bound, deadline=time.time() + max(5, (t_end - time.time()) * 0.4))
        bfails = discharge_all(be, con.timeout_ms, time.time() + max(5, (t_end - time.time()) * 0.7), res, 6)
    except Unsupported as ex:
        bstruct = str(ex)
    except Exception as ex:
        bstruct = '%s: %s' % (type(ex).__name__, ex)
    for ob in bfails:
        if ob.model is not None and try_model(con, case, ob, res, 'solver model of a failed bounded obligation'):
            res['status'] = 'violated'
            return res
    # more runtime checks, looking for a failing input
    rac(con, case, con.rac * 20, seed + 1000, max(2, (t_end - time.time()) * 0.5), res)
    if res['violations']:
        res['status'] = 'violated'
        return res
    refuted = [o for o in bfails if o.status == 'refuted']
    if be is not None and refuted and not structural and any(o.status == 'refuted' for o in fails):
        ob = refuted[0]
        p = write_replay('%s_obligation' % cname(con, case),
                         dict(kind='obligation', prop=con.prop, contract=con.name, case=repr(case), target=con.target,
                              obligation=ob.name, verdict=ob.status, model=str(ob.model)[:6000],
                              goal=str(ob.goal)[:3000], smt2=to_smt2(ob)[:20000]))
        res['violations'].append(dict(name=ob.name, replay=p, input=False))
        res['status'] = 'violated'
        return res
    if be is not None and not bfails and be.obligations and be.info['completed']:
        res['status'] = 'bounded'
        res['notes'].append('symbolic execution with sizes and loops up to %d: %d obligations, all discharged'
                            % (con.bound, len(be.obligations)))
        res['bounded_obligations'] = len(be.obligations)
    else:
        res['status'] = 'runtime-checked'
        res['notes'].append('bounded mode: %s' % (bstruct or 'undecided %s' % [(o.name, o.status) for o in bfails[:3]]))
    return res


def second_opinion(e, res, t_end):
    try:
        import cvc5
    except Exception:
        return
    n = agree = unk = bad = 0
    for ob in e.obligations:
        if ob.backend == 'simplifier' or time.time() > t_end - 10:
            continue
        n += 1
        try:
            sm = to_smt2(ob)
            tm = cvc5.TermManager()
            sv = cvc5.Solver(tm)
            sv.setOption('tlimit-per', '4000')
            sv.setLogic('ALL')
            ps = cvc5.InputParser(sv)
            ps.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, sm, 'ob')
            symm = ps.getSymbolManager()
            r = None
            while True:
                cmd = ps.nextCommand()
                if cmd.isNull():
                    break
                o = cmd.invoke(sv, symm)
                if 'sat' in o or 'unknown' in o:
                    r = o.strip()
            if r == 'unsat':
                agree += 1
            elif r == 'sat':
                bad += 1
                res['notes'].append('cvc5 disagrees on %s' % ob.name)
            else:
                unk += 1
        except Exception as ex:
            unk += 1
    res['cvc5'] = dict(asked=n, agree=agree, unknown=unk, disagree=bad)


def bounded_task(b, part, parts, opts):
    res = dict(contract=b.name, case='part %d/%d' % (part, parts), target=b.covers, violations=[], known=[],
               obligations=0, discharged=0, status=None, backends={}, solver_s=0.0, inlined=[], used=[], loops=[],
               assumptions=[], rac=0, rac_checks=0, notes=[], obs=[], bounded=True)
    n = b.samples * (8 if opts['tier'] == 'thorough' else 1)
    t_end = time.time() + min(opts['task_s'], b.budget * (6 if opts['tier'] == 'thorough' else 1))
    seed = opts['seed']

    def one(key):
        rng = random.Random(key)
        t = ConcBound(rng, b)

        def onalarm(sig, fr):
            raise Hang('did not return within %d s' % b.limit)
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(b.limit)
        try:
            b.sample(t, rng)
        except Reject:
            return None
        except Hang as ex:
            t.failures.append('terminates: %s' % ex)
        except contract.Fail as ex:
            t.failures.append(str(ex))
        except Exception as ex:
            t.failures.append('unexpected %s: %s | %s' % (type(ex).__name__, str(ex)[:300],
                              ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                          for f in reversed(traceback.extract_tb(ex.__traceback__)[-5:]))))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return t
    i = part
    while i < n and time.time() < t_end:
        key = '%s|%s|%d' % (b.name, seed, i)
        i += parts
        t = one(key)
        if t is None:
            continue
        res['rac'] += 1
        res['rac_checks'] += t.n
        if t.failures:
            kn = [k for k in (b.known(f, t) for f in t.failures) if k]
            if len(kn) == len(t.failures):
                res['known'].extend(kn)
                continue
            p = write_replay('%s_%d' % (b.name, i - parts),
                             dict(kind='bounded', prop=opts['prop'], module=type(b).__module__, contract=b.name,
                                  key=key, failed=t.failures[:10], log=[str(x)[:1500] for x in t.log],
                                  rerun='cd /verif && ./check --replay <this file>'))
            res['violations'].append(dict(name='%s: %s' % (b.name, t.failures[0]), replay=p, input=True))
            res['status'] = 'violated'
            break
    res['status'] = res['status'] or 'runtime-checked'
    return res


class ConcBound(object):
    """what a bounded stand-in's sample() reports to"""
    def __init__(self, rng, b):
        self.rng = rng
        self.failures = []
        self.n = 0
        self.log = []

    def check(self, name, okv):
        self.n += 1
        if not okv:
            self.failures.append(name)

    def eq(self, a, b, tol=1e-8):
        return contract.conc_eq(a, b, tol)

    def note(self, *xs):
        self.log.append(' '.join(str(x) for x in xs))


# ------------------------------------------------------------------ scheduler

def run_tasks(tasks, jobs, opts, t_stop):
    """tasks: list of (label, fn(opts)->dict, seconds). Each runs in a forked child."""
    results = [None] * len(tasks)
    pending = list(range(len(tasks)))
    running = {}
    pending.sort(key=lambda i: -tasks[i][3])
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            label, fn, secs, w = tasks[i]
            left = t_stop - time.time()
            if left < 3:
                results[i] = dict(dead='no time left', label=label)
                continue
            secs = min(secs, left - 1)
            r, wfd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgrp()
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    dn = os.open(os.devnull, os.O_WRONLY)
                    if not opts.get('verbose'):
                        os.dup2(dn, 1)
                        os.dup2(dn, 2)
                    o = dict(opts)
                    o['task_s'] = secs * 0.9
                    out = fn(o)
                    data = pickle.dumps(out)
                except BaseException as ex:
                    data = pickle.dumps(dict(dead='%s: %s' % (type(ex).__name__, ex), label=label,
                                             tb=traceback.format_exc()[-1500:]))
                try:
                    with os.fdopen(wfd, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(code)
            os.close(wfd)
            running[r] = dict(i=i, pid=pid, data=b'', end=time.time() + secs + 8, label=label, t0=time.time())
        if not running:
            continue
        rs, _, _ = select.select(list(running), [], [], 0.5)
        for r in rs:
            d = os.read(r, 1 << 20)
            if d:
                running[r]['data'] += d
            else:
                k = running.pop(r)
                os.close(r)
                os.waitpid(k['pid'], 0)
                try:
                    results[k['i']] = pickle.loads(k['data'])
                    results[k['i']]['wall'] = round(time.time() - k['t0'], 2)
                except Exception:
                    results[k['i']] = dict(dead='worker ended without a result', label=k['label'])
        now = time.time()
        for r in list(running):
            if running[r]['end'] < now:
                k = running.pop(r)
                try:
                    os.killpg(k['pid'], signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(k['pid'], signal.SIGKILL)
                os.waitpid(k['pid'], 0)
                os.close(r)
                results[k['i']] = dict(dead='hard time limit', label=k['label'])
    return results


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [x for x in d.get('findings', []) if x['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--time', type=float)
    ap.add_argument('--rac-only', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        x = z3.Int('x')
        sv = z3.Solver()
        sv.add(x > 1, x < 1)
        assert sv.check() == z3.unsat
        import openmdao.api
        print('ok: z3 %s, openmdao from %s' % (z3.get_version_string(), os.path.dirname(openmdao.api.__file__)))
        return 0
    if a.replay:
        return replay(a.replay)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = a.time or (500 if a.tier == 'quick' else 3000)
    try:
        cons, bnds = load(a.prop)
    except BaseException as ex:
        # the code under check no longer imports (or an anchored function is gone):
        # nothing can be decided
        traceback.print_exc()
        p = write_replay('%s_import' % a.prop, dict(kind='import', prop=a.prop, error=traceback.format_exc()))
        print('cannot load the code under contract: %s: %s' % (type(ex).__name__, ex))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, p))
        return 1
    opts = dict(seed=seed, tier=a.tier, verbose=a.v, prop=a.prop, rac_only=a.rac_only)
    tasks = []
    secs = 110 if a.tier == 'quick' else 600
    for con in cons:
        for case in con.cases:
            nm = cname(con, case)
            if a.only and a.only not in nm:
                continue
            tasks.append((nm, (lambda o, con=con, case=case: contract_task(con, case, o)),
                          getattr(con, 'task_s', secs) * (4 if a.tier == 'thorough' else 1), con.weight))
    for b in bnds:
        if a.only and a.only not in b.name:
            continue
        for part in range(b.parts):
            tasks.append(('%s/%d' % (b.name, part), (lambda o, b=b, part=part: bounded_task(b, part, b.parts, o)),
                          secs, b.weight))
    if not tasks:
        print('no contracts for %s' % a.prop)
        return 2
    # resolve targets first: a function under contract must exist
    results = run_tasks(tasks, a.j, opts, t0 + total)
    return report(a, tasks, results, seed, t0)


def report(a, tasks, results, seed, t0):
    viol, rows, dead, known = [], [], [], []
    ob = di = rac_n = rac_c = 0
    be, assumptions, trusted_used = {}, set(), set()
    solver = 0.0
    proved, bounded, rchecked = [], [], []
    for (label, fn, secs, w), r in zip(tasks, results):
        if r is None or 'dead' in r:
            dead.append((label, (r or {}).get('dead'), (r or {}).get('tb')))
            continue
        viol += r['violations']
        known += r['known']
        ob += r['obligations']
        di += r['discharged']
        rac_n += r['rac']
        rac_c += r['rac_checks']
        solver += r['solver_s']
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
        assumptions |= set(r['assumptions'])
        trusted_used |= set(r['used'])
        nm = '%s (%s)' % (label, r['target'])
        if r['status'] == 'proved':
            proved.append(nm)
        elif r['status'] == 'bounded':
            bounded.append(nm)
        else:
            rchecked.append(nm)
        rows.append(dict(name=label, target=r['target'], status=r['status'], obligations=r['obligations'],
                         discharged=r['discharged'], named=r['obs'], paths=r.get('paths'), cover=r.get('cover'),
                         loops=r['loops'], inlined=r['inlined'], callee_contracts=r['used'], cvc5=r.get('cvc5'),
                         runtime_samples=r['rac'], runtime_checks=r['rac_checks'], failed=r.get('failed'),
                         notes=r['notes'], wall=r.get('wall'), solver_s=round(r['solver_s'], 2)))
        if a.v or a.only or r['status'] not in ('proved',):
            print('%-62s %-15s obl %d/%d rac %d wall %s %s' % (label[:62], r['status'], r['discharged'], r['obligations'],
                  r['rac'], r.get('wall'), '' if r['status'] == 'proved' else '; '.join(r['notes'])[:400]))
    for l, d, tb in dead:
        print('%-62s NO RESULT (%s)' % (l, d))
        if a.v and tb:
            print(tb)
    # known findings
    kf = {x['id']: x for x in known_findings(a.prop)}
    for k in sorted(set(known)):
        if k in kf:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, kf[k]['what']))
        else:
            viol.append(dict(name='finding %s is not listed' % k, replay=write_replay('%s_unlisted' % a.prop, dict(id=k)),
                             input=True))
    targets = sorted(set(r['target'] for r in rows if not r['name'].count('/')))
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level='proof' if ob else 'other', wall_s=round(time.time() - t0, 2),
              violations=len(viol),
              coverage=dict(
                  obligations=ob, discharged=di, checker_cmd='%s %s --tier %s' % (CHECKER, a.prop, a.tier),
                  trusted_base=TRUSTED_BASE, back_ends=be, solver_s=round(solver, 2),
                  functions_under_contract=targets, proved=proved,
                  bounded_symbolic=bounded, runtime_checked_only=rchecked,
                  runtime_samples=rac_n, runtime_checks=rac_c,
                  evaluations=rac_n,
                  callee_contracts_used=sorted(trusted_used), contracts=rows,
                  no_result=[d[:2] for d in dead],
                  explanation='deductive proof of the contracts listed under proved; the entries under '
                              'bounded_symbolic and runtime_checked_only are bounded stand-ins and are not counted '
                              'as proved'),
              assumptions=sorted(assumptions) + ['see DESIGN.md for the contracts assumed on external code'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '%s.json' % a.prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d tasks, %d/%d obligations discharged, %d proved, %d bounded, %d runtime-checked, %d without result; '
          '%d runtime samples; %.1f s (solver %.1f s)' % (a.prop, a.tier, len(tasks), di, ob, len(proved), len(bounded),
                                                         len(rchecked), len(dead), rac_n, time.time() - t0, solver))
    if viol:
        viol.sort(key=lambda v: not v['input'])
        for v in viol[:8]:
            print('violated: %s' % v['name'])
        v = viol[0]
        print('VIOLATION property=%s replay=%s%s' % (a.prop, v['replay'], '' if v['input'] else ' no-failing-input-found'))
        return 1
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d['kind'] == 'contract':
        m = importlib.import_module(d['module'])
        con = getattr(m, d['contract'])()
        case = next((c for c in con.cases if repr(c) == d['case']), None)
        src = PlaySource([unjson(x) for x in d['draws']])
        fails, k, log, out = run_concrete(con, case, src)
        for n, v in log:
            print('  input %s = %r' % (n, v))
        print('outcome: %r' % out)
        print('failed: %s' % fails)
        return 1 if fails else 0
    if d['kind'] == 'bounded':
        m = importlib.import_module(d['module'])
        b = getattr(m, d['contract'])()
        rng = random.Random(d['key'])
        t = ConcBound(rng, b)
        try:
            b.sample(t, rng)
        except contract.Fail as ex:
            t.failures.append(str(ex))
        except Exception:
            t.failures.append(traceback.format_exc())
        for x in t.log:
            print(x)
        print('failed: %s' % t.failures)
        return 1 if t.failures else 0
    print(json.dumps(d, indent=1)[:5000])
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
