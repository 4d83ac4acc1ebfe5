#!/usr/bin/env python3
"""Development: try many small changes at once.
usage: batch.py <list.py> [name...]
list.py defines MUTANTS = [(name, [(file, old, new)...], [ids])]; files relative to CoarseGrainSites.
A name starting with 'ok-' keeps the behaviour: the checks have to stay quiet."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def one(m):
    name, edits, ids = m
    d = tempfile.mkdtemp(prefix='bat-', dir='/tmp')
    try:
        R = d + '/repo'
        sh('git clone -q /repo %s' % R)
        for f, old, new in edits:
            f = R + '/CoarseGrainSites/' + f
            s = open(f).read()
            if s.count(old) < 1:
                print(name, 'EDIT matches', s.count(old), repr(old), flush=True)
                return
            open(f, 'w').write(s.replace(old, new))
        c = sh('cmake -S %s -B %s/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DENABLE_TESTING=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
               '-DCMAKE_PROJECT_mythical_INCLUDE=/opt/vp/cmake/scope.cmake && ninja -C %s/_build mythical unit_tests' % (R, R, R))
        if c.returncode:
            print(name, 'DOES NOT BUILD', c.stdout[-600:], flush=True)
            return
        fails = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable']
                 if sh('timeout 100 %s/_build/CoarseGrainSites/src/tests/unit/unit_tests "%s"' % (R, t), cwd=d).returncode]
        if fails:
            print(name, 'FAILS TESTS', fails, flush=True)
            return
        shutil.rmtree(R + '/_build')
        res = []
        for i in ids:
            p = sh('python3 %s/bin/check.py %s %s' % (V, i, os.environ.get('BATCH_ARGS', '--no-mc')), env=dict(os.environ, VERIF_REPO=R, VERIF_OUT=d))
            r = {0: 'quiet', 1: 'ALARM'}.get(p.returncode, 'ERROR ' + p.stdout[-300:] + p.stderr[-500:])
            first = [x for x in p.stdout.splitlines() if 'comparison' in x][:1]
            res.append(i + ':' + r + (' [' + first[0][-110:] + ']' if first else ''))
        good = all('quiet' in x for x in res) if name.startswith('ok-') else any('ALARM' in x for x in res)
        print('     ' if good else '#### ', name, ' '.join(res), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


g = {}
exec(open(sys.argv[1]).read(), g)
ms = [m for m in g['MUTANTS'] if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    list(ex.map(one, ms))
