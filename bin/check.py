#!/usr/bin/env python3
"""Decide one property: bin/check.py <ID> [--tier quick|thorough] [--seed N]

1. model-check the specification modules of the property (TLC, exhaustive);
2. let TLC generate behaviours of the specification (-simulate), add seeded
   random scripts, and execute all of them in the real code (drivers in
   harness/, compiled from /repo's working tree);
3. let TLC decide, per recorded trace, whether it is a behaviour of the
   specification as far as this property's comparisons are concerned.

This program never judges a value itself: TLC does.
Exit 0: held.  Exit 1: "VIOLATION property=<ID> replay=<path>".  Other: error.
"""
import argparse, atexit, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import registry  # noqa: E402
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TMP = tempfile.mkdtemp(prefix='verif-')
NCPU = os.cpu_count() or 4


def cleanup():
    shutil.rmtree(TMP, ignore_errors=True)


atexit.register(cleanup)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- build
NEEDS_UGLY = re.compile(r'(coarsegrainsystem|basin_explorer|graph_library_adapter)\.cpp$')
CXX = os.environ.get('VERIF_CXX', 'g++').split()
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']


def build(driver, ugly, opt):
    R = os.path.join(REPO, 'CoarseGrainSites')
    inc = ['-I' + os.path.join(R, p) for p in ('include', 'src', 'src/libmythical', 'src/libmythical/topologyfeatures')]
    inc += ['-I' + os.path.join(VERIF, 'shim/a/b/c'), '-I' + os.path.join(VERIF, 'shim/UGLY/include'),
            '-I' + os.path.join(VERIF, 'harness')]
    flags = ['-std=c++14', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS'] + ([] if opt == 'fast' else SAN)
    d = os.path.join(TMP, 'obj-' + driver + '-' + opt)
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(R, 'src/libmythical/**/*.cpp'), recursive=True))
    if not srcs:
        raise CheckError('no sources under ' + R)

    def one(i_src):
        i, src = i_src
        o = os.path.join(d, '%d.o' % i)
        p = subprocess.run(CXX + flags + inc + ['-c', src, '-o', o], capture_output=True, text=True)
        if p.returncode:
            if not ugly and NEEDS_UGLY.search(src):
                return None
            raise CheckError('cannot compile %s:\n%s' % (src, p.stderr[-4000:]))
        return o
    items = list(enumerate([os.path.join(VERIF, 'harness', driver + '.cpp')] + srcs))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = [o for o in ex.map(one, items) if o]
    exe = os.path.join(d, driver)
    p = subprocess.run(['g++'] + flags + objs + ['-o', exe], capture_output=True, text=True)
    if p.returncode:
        raise CheckError('cannot link %s:\n%s' % (driver, p.stderr[-4000:]))
    return exe


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, args=(), env=None, timeout=800, workers='1', heap='2g'):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=TMP)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['timeout', str(timeout), 'java', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-XX:TieredStopAtLevel=4', '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-workers', workers,
           '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
    p = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


def states_of(out):
    m = None
    for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(name):
    rc, out = tlc(name + '.tla' if not isinstance(name, tuple) else name[0] + '.tla',
                  (name if not isinstance(name, tuple) else name[1]) + '.cfg', workers='4', heap='6g')
    if rc != 0 or 'Model checking completed. No error has been found.' not in out:
        raise CheckError('model checking of %s did not succeed (rc=%d)\n%s' % (name, rc, out[-3000:]))
    gen, dist = states_of(out)
    return {'module': name if isinstance(name, str) else name[1], 'generated': gen, 'distinct': dist}


def simulate(module, cfg, num, depth, seed):
    rc, out = tlc(module + '.tla', cfg + '.cfg', ['-simulate', 'num=%d' % num, '-depth', str(depth + 2), '-seed', str(seed)], heap='2g')
    if 'Error:' in out:
        raise CheckError('simulation of %s failed\n%s' % (cfg, out[-3000:]))
    behs = []
    flat = re.sub(r'\s+', ' ', out)
    for m in re.finditer(r'<<\s?"BEH", (<<.*?>>)\s?>>(?= <<\s?"BEH"| Progress| The number| Finished| Simulation|$| Generated)', flat):
        txt = m.group(1).replace('<<', '[').replace('>>', ']').replace('TRUE', '1').replace('FALSE', '0')
        behs.append(json.loads(txt))
    if not behs:
        raise CheckError('no behaviours generated by %s\n%s' % (cfg, out[-2000:]))
    return behs


# ---------------------------------------------------------------- traces
def run_driver(exe, script, path, timeout):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    with open(path, 'wb') as f:
        try:
            p = subprocess.run([exe], input=script.encode(), stdout=f, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=TMP)
            rc, err = p.returncode, p.stderr[-3000:].decode(errors='replace')
        except subprocess.TimeoutExpired:
            rc, err = 124, 'timeout'
    if rc in (8, 9):
        raise CheckError('driver %s rejected its script: %s' % (exe, err))
    data = open(path, 'rb').read()
    if rc != 0:  # the code under test crashed, aborted or did not return
        cut = data.rfind(b'\n') + 1
        data = data[:cut] + json.dumps({'op': 'Crash', 'rc': rc}).encode() + b'\n'
        open(path, 'wb').write(data)
    return rc, err, data.count(b'\n')


def validate(module, path, facet):
    rc, out = tlc(module + '.tla', module + '.cfg', env={'VERIF_TRACE': path, 'VERIF_FACET': facet}, heap='3g')
    m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
    rej = re.findall(r'<<\s?"REJECT",\s*(\d+),\s*"([^"]*)",\s*"([^"]*)"\s?>>', out)
    if not m:
        # what the code returned has no value in the specification (overflow, a
        # missing entry, ...): no behaviour of the specification matches it
        ev = re.search(r'Error: (Evaluating|Attempted|TLC threw|The exception|Overflow|In evaluation|.*evaluat)', out) and re.search(
            r'Overflow when computing|Attempted to|No enabled|not in the domain|CHOOSE|out of bounds|nonexistent field|beyond the domain|is not a function|undefined', out)
        pos = re.findall(r'/\\ l = (\d+)', out)
        if ev and pos and 'OutOfMemory' not in out and 'StackOverflow' not in out:
            return False, states_of(out), {'line': int(pos[-1]), 'facet': facet, 'comparison': 'the specification has no value for what the code returned: ' + ev.group(0)}
        raise CheckError('TLC did not finish on %s (%s)\n%s' % (module, path, out[-3000:]))
    reached, length = int(m.group(1)), int(m.group(2))
    if reached == length and rc == 0:
        return True, states_of(out), None
    rej = [r for r in rej if int(r[0]) == reached + 1]
    if not rej:
        raise CheckError('trace of %s not matched at line %d of %d, and no comparison failed: the model lacks a case\n%s' % (module, reached + 1, length, out[-3000:]))
    return False, states_of(out), {'line': reached + 1, 'facet': rej[0][1], 'comparison': rej[0][2]}


# ---------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--no-mc', action='store_true', help='development only')
    ap.add_argument('--keep', help='development only: keep scripts and traces here')
    a = ap.parse_args()
    t0 = time.time()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    spec = registry.CHECKS[a.id]
    thorough = a.tier == 'thorough'
    rng = random.Random('%s-%d-%s' % (a.id, a.seed, a.tier))
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fb = ex.submit(build, spec['driver'], spec.get('ugly', False), spec.get('opt', 'san'))
        mcs = list(spec['mc']) + (list(spec.get('mc_thorough', [])) if thorough else [])
        fm = [] if a.no_mc else [ex.submit(model_check, m) for m in mcs]
        fg = []
        for (module, cfg, num, depth) in spec.get('gen', []):
            fg.append((cfg, ex.submit(simulate, module, cfg, num * (8 if thorough else 1), depth, a.seed + 17)))
        behs = {cfg: f.result() for cfg, f in fg}
        scripts = spec['scripts'](rng, behs, thorough)
        exe = fb.result()
        tdir = os.path.join(TMP, 'traces')
        os.makedirs(tdir)

        found = threading.Event()

        def job(i):
            path = os.path.join(tdir, 'trace%03d.ndjson' % i)
            if found.is_set():  # the answer is known: leave out the rest
                open(path, 'w').close()
                return i, 0, (0, 0), None, ''
            t = time.time()
            rc, err, n = run_driver(exe, scripts[i], path, spec.get('timeout', 240))
            t1 = time.time()
            ok, st, why = validate(spec['trace'], path, a.id)
            if a.keep:
                os.makedirs(a.keep, exist_ok=True)
                open(os.path.join(a.keep, 'script%03d.txt' % i), 'w').write(scripts[i])
                shutil.copy(path, a.keep)
                print('%03d rc=%d events=%d driver=%.1fs tlc=%.1fs ok=%s %s %s' % (i, rc, n, t1 - t, time.time() - t1, ok, why, err[-300:] if rc else ''))
            again = 0
            while not ok and again < 3:  # only what repeats is reported
                again += 1
                p2 = path + '.again'
                rc2, err2, n2 = run_driver(exe, scripts[i], p2, spec.get('timeout', 240))
                ok2, st2, why2 = validate(spec['trace'], p2, a.id)
                if not ok2:
                    found.set()
                    return i, n, st, why, err
            if not ok and rc == 0:  # a complete run that is no behaviour of the specification
                found.set()
                return i, n, st, why, err
            return i, n, st, (('unrepeated', why) if not ok else None), err
        
        def guarded(i):
            try:
                return job(i)
            except CheckError as x:  # reported unless another trace gives the answer
                return i, 0, (0, 0), x, ''
        results = list(ex.map(guarded, range(len(scripts))))
        mc = [f.result() for f in fm]
    if a.no_mc and not a.keep:
        print('model checking skipped')
    bad = [r for r in results if isinstance(r[3], dict)]
    odd = [r for r in results if isinstance(r[3], tuple)]
    errs = [r[3] for r in results if isinstance(r[3], CheckError)]
    if errs and not bad:
        raise errs[0]
    if odd and not bad:
        raise CheckError('a rejection did not repeat: %r' % (odd[0],))
    ops = {}
    for i in range(len(scripts)):
        for line in open(os.path.join(tdir, 'trace%03d.ndjson' % i)):
            op = line[7:line.index('"', 7)]
            ops[op] = ops.get(op, 0) + 1
    cov['states'] = sum(m['distinct'] for m in mc) + sum(r[2][1] for r in results)
    cov['transitions'] = sum(m['generated'] for m in mc) + sum(r[2][0] for r in results)
    cov['traces_validated_against_impl'] = len(results) - len(bad)
    cov['model_checking'] = mc
    cov['behaviours_generated_from_specification'] = sum(len(b) for b in behs.values())
    cov['trace_events'] = sum(r[1] for r in results)
    cov['events_by_operation'] = ops
    samples = []
    for i in sorted(set([0, len(scripts) // 2, len(scripts) - 1])):
        ev = open(os.path.join(tdir, 'trace%03d.ndjson' % i)).read().splitlines()
        samples.append({'script_head': scripts[i].splitlines()[:12], 'trace_head': [x[:400] for x in ev[:6]]})
    cov['samples'] = samples
    ev = {'property': a.id, 'tier': a.tier, 'seed': a.seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + registry.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, 'evidence', a.id + '.json'), 'w'), indent=1)
    if bad:
        rd = os.path.join(OUT, 'replay', a.id)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        for i, n, st, why, err in bad[:3]:
            open(os.path.join(rd, 'script%03d.txt' % i), 'w').write(scripts[i])
            shutil.copy(os.path.join(tdir, 'trace%03d.ndjson' % i), rd)
            line = open(os.path.join(tdir, 'trace%03d.ndjson' % i)).read().splitlines()[why['line'] - 1]
            print('trace %d is not a behaviour of %s: line %d, comparison "%s": %s' % (i, spec['trace'], why['line'], why['comparison'], line[:600]))
            if err and 'Crash' in line:
                print(err[-1200:])
            json.dump({'spec': spec['trace'], 'driver': spec['driver'], 'script': 'script%03d.txt' % i, 'trace': 'trace%03d.ndjson' % i, 'why': why},
                      open(os.path.join(rd, 'why%03d.json' % i), 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (a.id, rd))
        return 1
    print('%s held: %d states model-checked, %d behaviours generated, %d traces (%d events) validated, %.1f s' %
          (a.id, sum(m['distinct'] for m in mc), cov['behaviours_generated_from_specification'], len(results), cov['trace_events'], time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as x:
        print('CHECK ERROR: %s' % x, file=sys.stderr)
        sys.exit(3)
