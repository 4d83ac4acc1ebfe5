#!/usr/bin/env python3
"""Development: apply a patch (or revert a commit) to a scratch copy of /repo and
run checks against the copy.
  mutants.py revert <commit> <ID>...
  mutants.py patch <file> <ID>..."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mode, what, ids = sys.argv[1], sys.argv[2], sys.argv[3:]
d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
try:
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    if mode == 'revert':
        r = subprocess.run(['git', '-C', d + '/repo', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-edit', what], capture_output=True, text=True)
    else:
        r = subprocess.run(['git', '-C', d + '/repo', 'apply', os.path.abspath(what)], capture_output=True, text=True)
    if r.returncode:
        print(what, 'DOES NOT APPLY', r.stderr[-300:])
        sys.exit(2)
    for i in ids:
        p = subprocess.run(['python3', V + '/bin/check.py', i, '--no-mc'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_OUT=d))
        first = [x for x in p.stdout.splitlines() if 'comparison' in x][:1]
        print(what[:60], i, {0: 'MISSED', 1: 'caught'}.get(p.returncode, 'ERROR ' + p.stderr[-500:]), re.sub(r'.*comparison', '', first[0])[:100] if first else '', flush=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
