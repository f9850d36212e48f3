#!/usr/bin/env python3
"""try.py [-a] [ID...]: applies each planted bug to /repo in turn, runs its
property's check (-a: every check), undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir(V + '/seeded'))
claimed = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
for i in ids:
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout.strip()
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        for p in (claimed if every else [prop]):
            t = time.time()
            r = subprocess.run(['./check', p], cwd=V, capture_output=True, text=True)
            first = [l for l in r.stdout.splitlines() if not l.startswith('[')][:1]
            print(f'{i:28} {p} exit {r.returncode} {"CAUGHT" if "VIOLATION property=" + p in r.stdout else "-"} {time.time()-t:.0f}s {first[0][:150] if first else r.stderr[-200:]}', flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
