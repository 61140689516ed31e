"""Dev aid: python3 tools/plant.py SPEC.py [--check]: try planted bugs and keep the valid ones under seeded/.

SPEC.py defines BUGS = [dict(id, property, edits=[(path, old, new[, count])], needs, breaks, demo)].  Each bug is
applied to /repo's working tree, built, demonstrated, run through the stable tests, and undone."""
import json, os, subprocess, sys, tempfile
R = '/repo'
PRE = '''#!/bin/bash
export PYTHONPATH=/repo:/opt/vp/compat PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1 OPENMDAO_REQUIRE_MPI=0
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
D=$(cd "$(dirname "$0")" && pwd)
cd "$T" && /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = '/verif/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(PRE)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip())
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        ok = []
        try:
            r0 = sh('bash %s/demo.sh' % d, cwd=R)
            ok.append('demo clean rc=%d' % r0.returncode)
            for e in b['edits']:
                p = os.path.join(R, e[0])
                s = open(p).read()
                n = e[3] if len(e) > 3 else 1
                assert s.count(e[1]) == n, (b['id'], e[1], s.count(e[1]))
                open(p, 'w').write(s.replace(e[1], e[2]))
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            r1 = sh('bash %s/demo.sh' % d, cwd=R)
            ok.append('demo bug rc=%d' % r1.returncode)
            sh('bash /opt/vp/test.sh /tmp/w/plant.json')
            o = set(json.load(open('/tmp/w/plant.json'))['passed'])
            bad = [x for x in base if x not in o]
            ok.append('tests lost %d %s' % (len(bad), bad[:3]))
            valid = r0.returncode == 0 and r1.returncode != 0 and not bad
            if '--nocheck' not in sys.argv and valid:
                c = sh('./check %s' % b['property'], cwd='/verif')
                ok.append('check rc=%d %s' % (c.returncode, [l[:230] for l in c.stdout.splitlines() if 'VIOLATION' in l][:2]))
            if r0.returncode:
                ok.append(r0.stdout[-500:])
        finally:
            sh('git -C /repo checkout -- .')
        print(b['id'], 'VALID' if valid else 'INVALID', ok, flush=True)
        if not valid:
            sh('rm -rf /verif/seeded/%s' % b['id'])


main()
