#!/usr/bin/env python3
"""development aid: run a bounded part without stopping at the first failure: survey.py module Class seconds [start]"""
import sys, os, time, random, re, importlib, traceback, signal, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.contract import Reject, Hang, Fail
from pyvc import run
mod, cls, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
i = int(sys.argv[4]) if len(sys.argv) > 4 else 0
b = getattr(importlib.import_module(mod), cls)()
end = time.time() + secs
seen = collections.OrderedDict(); n = rej = 0
def al(s, f): raise Hang('hang')
signal.signal(signal.SIGALRM, al)
sys.stdout.flush(); out = os.dup(1); nul = os.open(os.devnull, os.O_WRONLY); os.dup2(nul, 1)
while time.time() < end:
    key = '%s|1|%d' % (b.name, i); i += 1
    rng = random.Random(key); t = run.ConcBound(rng, b)
    signal.alarm(b.limit)
    try: b.sample(t, rng)
    except Reject: rej += 1; continue
    except Hang: t.failures.append('hang')
    except Fail as ex: t.failures.append(str(ex))
    except Exception as ex:
        t.failures.append('%s: %s | %s' % (type(ex).__name__, str(ex)[:200], ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(ex.__traceback__)[-5:]))))
    signal.alarm(0); n += 1
    for f in t.failures:
        if b.known(f, t): continue
        k = re.sub(r"\b[\w.]*\d[\w.]*\b|'[^']*'", '#', f)
        seen.setdefault(k, []).append((i - 1, f))
os.dup2(out, 1)
print(n, 'samples', rej, 'rejected')
for k, v in seen.items():
    print(len(v), k); print('    e.g. %d: %s' % v[0], [x[0] for x in v[1:4]])
