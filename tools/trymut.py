#!/usr/bin/env python3
"""trymut.py FILE OLD NEW CHECK...: plant a change in /repo for the duration of the checks."""
import subprocess, sys
f, old, new = sys.argv[1:4]
p = '/repo/' + f
s = open(p).read()
if s.count(old) < 1:
    sys.exit('no such text')
n = 1
if s.count(old) > 1:
    print('note: %d places, first one changed' % s.count(old))
open(p, 'w').write(s.replace(old, new, 1))
try:
    for c in sys.argv[4:]:
        r = subprocess.run(['python3', '/verif/check.py', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(c, r.returncode, r.stdout.decode('latin-1')[-300:].strip().split('\n')[-1][:200])
finally:
    open(p, 'w').write(s)
