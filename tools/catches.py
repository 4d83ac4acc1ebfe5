#!/usr/bin/env python3
"""Development: run the check of each planted change (and neighbours given as
ids) on it and rewrite the table at the end of DESIGN.md."""
import concurrent.futures as cf, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    p = subprocess.run([sys.executable, V + '/tools/mutants.py', 'patch', os.path.join(V, 'seeded', i, 'patch.diff'), m['property']], capture_output=True, text=True)
    o = p.stdout.strip().replace(os.path.join(V, 'seeded', i, 'patch.diff')[:60], '')
    return i, m, ('caught' if ' caught' in o else 'MISSED' if 'MISSED' in o else o), (o.split('caught')[1].strip() if ' caught' in o else '')


rows = []
only = sys.argv[1:]
with cf.ThreadPoolExecutor(3) as ex:
    for i, m, v, how in ex.map(one, only or sorted(os.listdir(V + '/seeded'))):
        print(i, m['property'], v, how, flush=True)
        how = how.split('": {')[0].strip('" ')
        rows.append('| `%s` | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], v, how))
if not only:
    s = open(V + '/DESIGN.md').read()
    k = '## Which checks catch which planted changes\n'
    s = s[:s.index(k)] + k + '\n| planted change | check | what it breaks | verdict | comparison that fails |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n'
    open(V + '/DESIGN.md', 'w').write(s)
