#!/usr/bin/env python3
"""Development: small mechanical changes of the sources, tried one by one.
usage: automutate.py <file regex> <max> [seed]   (prints survivors)
A change that does not build or fails the stable tests is dropped; the checks of
the file are run until one reports it."""
import json, os, queue, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = '/repo/CoarseGrainSites/'
CH = [('coarsegrainsystem', 'C04 C01 C03 C02 C06 C10 C07 C08 C33 C05'), ('basin_explorer', 'C09 C04'), ('graph_library', 'C32 C09'), ('queue', 'C11 C33'), ('walker', 'C12 C01'),
      ('cluster_container', 'C25 C10 C03'), ('site_container', 'C24 C01'), ('rate_container', 'C26'), ('lattice', 'C27 C28 C29 C30 C33'), ('marcus', 'C31 C33'),
      ('topologyfeatures/cluster', 'C17 C18 C16 C21 C22 C23 C19 C20 C08 C06 C10 C02 C05'), ('topologyfeatures/site', 'C13 C14 C24 C08 C04'),
      ('topology_feature', 'C14 C15 C21 C18 C19 C08 C01'), ('identity', 'C13 C16 C24 C25'), ('constants', 'C31 C12 C04 C07 C33')]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def mutants(f):
    src = open(f).read().split('\n')
    depth = 0
    for n, line in enumerate(src):
        code = line.split('//')[0]
        if re.match(r'.*(getFavoredClusterId_|operator<<|getInternalRatesFromNeighbors|bool compare)\(', code):
            depth = 1  # never called, or only prints
        if depth:
            depth = line.rstrip() not in ('}', '  }')
            continue
        if not code.strip() or code.strip().startswith(('#', '*', '/*', 'using', 'namespace', 'template', 'typedef', 'LOG', 'class ', 'public', 'private', 'throw', '"')):
            continue
        if 'assert' in code or 'os <<' in code or 'LOG(' in code or 'error_msg' in code or re.search(r'"\s*(<<|;|\)|$)', code):
            continue
        for pat, rep in [(r'(?<![<>\-=!+*/])<(?![<=])(?=[^<>]*[;){]*$)', '<='), (r'(?<![<>\-=])>(?![>=])(?=\s*[\w.(])', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'\+=', '-='), (r'-=', '+='),
                         (r'(?<=\w)\s*\*\s*(?=\w)', '/'), (r'(?<=[\w)\]])/(?=\w)', '*'), (r'(?<=[\w)\]]) ?\+ ?(?=[\w(])', '-'), (r'(?<=[\w)\]]) ?- ?(?=[\w(])', '+'), (r'&&', '||'), (r'\|\|', '&&'),
                         (r'\+\+', '--'), (r'\b0\.0\b', '1.0'), (r'\b1\.0\b', '2.0'), (r'\b2\b', '3'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
                         (r'!(?=[\w(])', ''), (r'\.second\b', '.first'), (r'\.first\b', '.second')]:
            for m in re.finditer(pat, code):
                yield n, line[:m.start()] + rep + line[m.end():]
        if re.match(r'^\s+[\w\[\].>\-:*()&,+= /"{}]+;\s*$', code) and not re.match(r'^\s*(return|const|auto|int|double|bool|size_t|unordered|vector|set|list|string|std::|virtual|static|explicit|friend|void|unsigned|pair|shared_ptr|mutable|Site \w|Cluster \w|TopologyFeature \*|[\w:<>,]+ [\w]+\(.*\)( const)?( noexcept)?;)', code):
            yield n, re.match(r'^\s*', line).group(0) + ';'
        if re.match(r'^\s*(\} *)?(else *)?if *\(', code) and code.rstrip().endswith('{'):
            yield n, re.sub(r'if *\(', 'if (false && (', line, 1).rstrip()[:-1].rstrip() + ') {'


POOL = queue.Queue()
CC = dict(os.environ, CCACHE_DIR='/tmp/am-ccache', VERIF_CXX='ccache g++')


def one(m):
    f, n, new = m
    w = POOL.get()
    d = '/tmp/am-w%d' % w  # fixed names, so that ccache recognises what did not change
    os.makedirs(d, exist_ok=True)
    try:
        R = d + '/repo'
        if not os.path.isdir(R):
            sh('git clone -q /repo %s' % R)
        sh('git -C %s checkout -q -- .' % R)
        p = f.replace('/repo', R)
        s = open(p).read().split('\n')
        old = s[n]
        s[n] = new
        open(p, 'w').write('\n'.join(s))
        what = '%s:%d: %s   ==>   %s' % (f.replace(B, ''), n + 1, old.strip(), new.strip())
        c = sh('cmake -S %s -B %s/_build -G Ninja -Wno-dev -DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DCMAKE_BUILD_TYPE=Debug -DENABLE_TESTING=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
               '-DCMAKE_PROJECT_mythical_INCLUDE=/opt/vp/cmake/scope.cmake && ninja -C %s/_build -j2 mythical unit_tests' % (R, R, R), env=CC)
        if c.returncode:
            return
        for t in json.load(open('/opt/vp/BASELINE.json'))['stable']:
            if sh('timeout 60 %s/_build/CoarseGrainSites/src/tests/unit/unit_tests "%s"' % (R, t), cwd=d).returncode:
                return
        ids = next(v for k, v in CH if k in f).split()
        for i in ids:
            p = sh('python3 %s/bin/check.py %s --no-mc' % (V, i), env=dict(CC, VERIF_REPO=R, VERIF_OUT=d))
            if p.returncode == 1:
                print('     ', i, what, flush=True)
                return
            if p.returncode == 3:
                if 'cannot compile' in p.stderr:
                    return
                print('ERROR', i, what, p.stderr[-300:], flush=True)
                return
        print('####  ', what, flush=True)
    finally:
        POOL.put(w)


if __name__ == '__main__':
    files = [f for f in sh('find %sinclude %ssrc/libmythical -name "*.?pp"' % (B, B)).stdout.split() if re.search(sys.argv[1], f) and any(k in f for k, _ in CH)]
    ms = [(f, n, new) for f in sorted(files) for n, new in mutants(f)]
    random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1).shuffle(ms)
    print(len(ms), 'changes possible', flush=True)
    J = int(os.environ.get('JOBS', '3'))
    for w in range(J):
        POOL.put(w)
    with ThreadPoolExecutor(J) as ex:
        list(ex.map(one, ms[:int(sys.argv[2])]))
    for w in range(J):
        shutil.rmtree('/tmp/am-w%d' % w, ignore_errors=True)
