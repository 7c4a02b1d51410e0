#!/usr/bin/env python3
"""mkseed.py ID [--check PID...]

Confirms a planted bug in a scratch copy of /repo and keeps it as /verif/seeded/ID.
/tmp/seeds/ID holds: change.py-style edits in `edits.json`
([[file, old, new], ...]), demo.sh, meta.json and the demo's other files.
"""
import json, os, shutil, subprocess, sys
sid = sys.argv[1]
src = '/tmp/seeds/' + sid
out = '/verif/seeded/' + sid
work = '/tmp/sw'
def run(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
head = run('git -C /repo rev-parse HEAD').stdout
if not os.path.isdir(work) or run('git -C %s rev-parse HEAD' % work).stdout != head:
    shutil.rmtree(work, ignore_errors=True)
    run('cp -a /repo ' + work)
edits = json.load(open(src + '/edits.json'))
def undo():
    run('cd %s && for f in $(git diff --name-only); do git checkout -q -- $f; touch $f; done' % work)
undo()
# the libtool products refer to absolute paths; build.sh builds /repo, so the scratch copy is built with make
def build():
    r = run('make -j8 -C %s/src >/tmp/sw.log 2>&1; echo rc=$?' % work)
    return 'rc=0' in r.stdout
def demo():
    r = run('bash %s/demo.sh' % src, cwd=work, timeout=300)
    return r.returncode, r.stdout[-1500:]
if not build():
    sys.exit('unchanged copy does not build: see /tmp/sw.log')
rc, o = demo()
if rc != 0:
    sys.exit('demo fails on the unchanged tree (%d):\n%s' % (rc, o))
for f, old, new in edits:
    p = work + '/' + f
    s = open(p, encoding='latin-1', newline='').read()
    if s.count(old) != 1:
        sys.exit('%s: %d matches of %r' % (f, s.count(old), old))
    open(p, 'w', encoding='latin-1', newline='').write(s.replace(old, new))
d = run('git -C %s diff' % work).stdout
if not build():
    sys.exit('patched copy does not build: see /tmp/sw.log')
rc, o = demo()
if rc == 0:
    sys.exit('demo passes with the patch:\n' + o)
print('demo with patch: rc=%d\n%s' % (rc, o))
bad = run("sed 's#/repo#%s#g' /opt/vp/run_boost.py > /tmp/sw_boost.py; mkdir -p %s/_build; python3 /tmp/sw_boost.py /tmp/sw.res /tmp/sw.tlog; grep ^FAIL /tmp/sw.res" % (work, work)).stdout.split('\n')
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', json.load(open('/opt/vp/BASELINE.json')).get('stable', [])))
bad = [x for x in bad if x.startswith('FAIL') and x[5:] in base]
undo()
if bad:
    sys.exit('breaks the tests: %s' % bad)
if os.path.isdir(out):
    shutil.rmtree(out)
os.makedirs(out)
for f in os.listdir(src):
    if f != 'edits.json':
        shutil.copy(src + '/' + f, out)
open(out + '/patch.diff', 'w', encoding='latin-1').write(d)
print('saved', out)
