#!/usr/bin/env python3
"""seedcheck.py [ID...]: applies each planted bug to /repo, runs its property's check (or the ones after --with), undoes it."""
import json, os, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i
    pid = json.load(open(d + '/meta.json'))['property']
    if subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff']).returncode:
        print(i, 'DOES NOT APPLY'); continue
    t = time.time()
    try:
        r = subprocess.run(['python3', '/verif/check.py', pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/verif')
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print(i, 'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.0f s' % (time.time() - t), v[:1], flush=True)
    if not v: print(r.stdout[-1500:])
