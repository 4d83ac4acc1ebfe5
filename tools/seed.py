#!/usr/bin/env python3
"""Development: turn an edit of a scratch copy of /repo into /verif/seeded/<id>.
usage: seed.py <spec.py>...   each spec defines ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO (C++), UGLY (bool).
Confirms: builds, stable tests pass, demo 0 without and nonzero with the change."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Builds demo.cpp with the sources in the current directory (/repo) and runs it.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
L=$R/CoarseGrainSites/src/libmythical
SRC=$(find "$L" -name '*.cpp'%s)
INC="-I$R/CoarseGrainSites/include -I$R/CoarseGrainSites/src -I$L%s"
n=0
for f in $SRC "$D/demo.cpp"; do
  g++ -std=c++14 -g -w $INC -c "$f" -o "$T/o$n.o" & n=$((n+1))
done
wait
g++ "$T"/o*.o -o "$T/demo" || exit 3
timeout 120 "$T/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def one(path):
    g = {}
    exec(open(path).read(), g)
    i = g['ID']
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        sh('git clone -q /repo %s/repo' % d)
        R = d + '/repo'
        out = os.path.join(V, 'seeded', i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        ugly = g.get('UGLY')
        open(out + '/demo.cpp', 'w').write(g['DEMO'])
        if ugly:
            shutil.copytree(V + '/shim', out + '/shim')
        open(out + '/demo.sh', 'w').write(SH % ('' if ugly else " | grep -v 'coarsegrainsystem\\|basin_explorer\\|graph_library_adapter'",
                                                ' -I$D/shim/a/b/c -I$D/shim/UGLY/include' if ugly else ''))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % out, cwd=R)
        for f, old, new in g['EDITS']:
            f = R + '/CoarseGrainSites/' + f
            s = open(f).read()
            if s.count(old) != 1:
                print(i, 'EDIT matches', s.count(old), old)
                return
            open(f, 'w').write(s.replace(old, new))
        open(out + '/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
        b = sh('bash %s/demo.sh' % out, cwd=R)
        c = sh('cmake -S %s -B %s/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DENABLE_TESTING=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
               '-DCMAKE_PROJECT_mythical_INCLUDE=/opt/vp/cmake/scope.cmake && ninja -C %s/_build mythical unit_tests' % (R, R, R))
        fails = []
        if c.returncode == 0:
            for t in json.load(open('/opt/vp/BASELINE.json'))['stable']:
                if sh('%s/_build/CoarseGrainSites/src/tests/unit/unit_tests "%s"' % (R, t), cwd=d).returncode:
                    fails.append(t)
        print(i, g['PROPERTY'], 'demo %d/%d' % (a.returncode, b.returncode), 'build', c.returncode, 'failing tests', fails,
              'OK' if a.returncode == 0 and b.returncode not in (0, 3) and c.returncode == 0 and not fails else 'BAD', (a.stdout + a.stderr)[-200:] if a.returncode else '',
              b.stdout[-160:].strip(), flush=True)
        if c.returncode:
            print(c.stdout[-800:], c.stderr[-800:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


for x in sys.argv[1:]:
    one(x)
