"""P35: training that is stopped, fails, or is done in stages can be resumed and gives the model of an undisturbed run."""
import json, os, shutil, signal, subprocess, tempfile, threading
import ghkmgen, treegen
import P33
from P33 import writecorpus, stubs
FILES = dict(sw='data/src.word', tw='data/trg.word', al='align/align.txt', l1='lex/src_given_trg.lex', l2='lex/trg_given_src.lex', ex='model/extract.gz',
             r1='model/rule-table.src-trg.gz', r2='model/rule-table.trg-src.gz', tm='model/rule-table.gz', ini='model/travatar.ini')
ENV = dict(P33.ENV, PERL_HASH_SEED='0', PERL_PERTURB_KEYS='0')

# every program training calls is wrapped: it notes the step, and fails or stops everything when told so
WRAP = r'''#!/bin/bash
n=$(basename "$0"); rev=0
case $n in
  tree-converter) [ "$(basename "$(readlink /proc/self/fd/0)")" = src ] && p=conv-src || p=conv-trg;;
  'GIZA++') case "$*" in *src-trg.giza*) p=giza-st;; *) p=giza-ts;; esac;;
  symmetrize.pl) p=sym;;
  align2lex.pl) p=lex;;
  forest-extractor|hiero-extractor) p=ext;;
  score-t2s.pl) case "$*" in *--cond-prefix=egf*) p=s1;; *) p=s2;; esac;;
  combine-rt.pl) p=comb;;
  reverse-rt.pl) p=s2; rev=1;;
  *) p=none;;
esac
[ $rev = 0 ] && [ $p != none ] && echo $p >> "$FLOG"
k=$FKIND
if [ "$p" = "$FPOINT" ]; then
  if [ $k = kill -a $rev = 0 ]; then kill -KILL 0; sleep 5; fi
  if [ $k = fail -a $rev = 0 ] || [ $k = revfail -a $rev = 1 ]; then
    t=$(mktemp -d "$FTMP/xXXXXXX")
    if [ $p = lex ]; then
      a=("$@"); REAL "$1" "$2" "$3" $t/a $t/b
      for z in 3:a 4:b; do o="${a[${z%:*}]}"; [ "$o" = /dev/null ] || head -c $(( $(stat -c %s $t/${z#*:}) / 2 )) $t/${z#*:} > "$o"; done
    else
      REAL "$@" > $t/out; head -c $(( $(stat -c %s $t/out) / 2 )) $t/out
    fi
    exit 1
  fi
fi
exec REAL "$@"
'''

def home(c, d):
    t = os.path.join(d, 'tv')
    for s, names in (('src/bin', ['tree-converter', 'forest-extractor', 'hiero-extractor']), ('script/train', [n for n in os.listdir(P33.T) if n.endswith('.pl')])):
        os.makedirs(os.path.join(t, s))
        for n in names:
            real = '"%s"' % c.bins[n] if s == 'src/bin' else 'perl "%s%s"' % (P33.T, n)
            open(os.path.join(t, s, n), 'w').write(WRAP.replace('REAL', real))
            os.chmod(os.path.join(t, s, n), 0o755)
    return t

def corpus(rng, c):
    sents = []
    for k in range(rng.choice([2, 3, 4])):
        g, nd = treegen.forest(rng, maxwords=4, tree=True, maxderivs=1, unary=0.2, words=treegen.PLAINW[:3])
        n = len(g['words'])
        words = [rng.choice(P33.EV[:3]) for _ in range(n)]
        y = dict(f=[w[1:] for w in g['words']], e=words, al=[[i, i] for i in range(n)], fe=list(range(1, n + 1)), ef=list(range(1, n + 1)))
        y['src'] = ' '.join(y['f']) if c['sword'] else P33.P34.pennof(g)
        y['trg'] = P33.P34.trgtree(rng, words)[0] if not c['tword'] else ' '.join(words)
        sents.append(y)
    return sents

def command(c, t, resume, last=None):
    cmd = ['perl', P33.T + 'train-travatar.pl', '-work_dir', 'work', '-travatar_dir', t, '-src_file', 'src', '-trg_file', 'trg', '-no_lm', 'true', '-threads', str(c['threads'])]
    cmd += ['-align_file', 'al'] if c['align'] else ['-bin_dir', 'gz']
    cmd += ['-method', 'hiero'] if c['sword'] else []
    cmd += ['-trg_format', 'penn'] if not c['tword'] else []
    for k, o, n in (('l1', '-lex_srctrg', 'g.l1'), ('l2', '-lex_trgsrc', 'g.l2'), ('tm', '-tm_file', 'g.tm')):
        cmd += [o, n] if c[k] else []
    return cmd + ['-resume'] * resume + (['-last_step', last] if last else [])

def given(x, d):
    writecorpus(dict(corpus=x['corpus'], o={}), d)
    if not x['c']['align']:
        b = stubs(dict(corpus=x['corpus']), d)
        os.rename(b, os.path.join(d, 'gz'))
        g = os.path.join(d, 'gz', 'GIZA++')
        os.rename(g, g + '.real')
        open(g, 'w').write(WRAP.replace('REAL', '"%s.real"' % g))
        os.chmod(g, 0o755)
    lex = [(a, b) for a in P33.EV[:3] for b in treegen.PLAINW[:3]]
    open(d + '/g.l1', 'w').write(''.join('%s %s 0.25\n' % (b[1:] if b[0] == 'w' and 0 else b, a) for a, b in lex))
    open(d + '/g.l2', 'w').write(''.join('%s %s 0.125\n' % (a, b) for a, b in lex))
    open(d + '/g.tm', 'w').write('S ( "a" ) ||| "x" ||| p=1 ||| 1 1 1 ||| 0-0\n')

def norm(p):
    try:
        ls = (P33.gz(p) if p.endswith('.gz') else open(p, encoding='utf-8').read().split('\n'))
    except (EOFError, OSError, UnicodeDecodeError, ValueError):
        return 'unreadable'
    r = []
    for l in ls:
        f = l.split(' ||| ')
        if len(f) > 3:
            f[2] = ' '.join(sorted(f[2].split(' ')))
        r.append(' ||| '.join(f))
    return sorted(r) if p.endswith('.lex') else r

def run1(cmd, d, point='', kind='', timeout=60):
    log = os.path.join(d, 'log')
    open(log, 'w').close()
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, env=dict(ENV, FLOG=log, FPOINT=point, FKIND=kind, FTMP=os.path.join(d, 'tmp')))
    try:
        err = p.communicate(timeout=timeout)[1]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise
    return p.returncode, open(log).read().split(), err.decode('utf-8', 'replace')

def run(c):
    c.build('forest-extractor', 'hiero-extractor', 'tree-converter')
    top = tempfile.mkdtemp(prefix='resume-', dir=c.work)
    t = home(c, top)
    cfg = lambda n, wrong, pr, which: 'INIT Init\nNEXT Next\nINVARIANTS TrustWhole InputsWhole EndsWhole\nCONSTANTS MaxStops = %d Wrong = %s Show = %s Which = {%s}\n' % (n, wrong, pr, ', '.join(map(str, which)))
    every = range(1, 13)
    one = c.generate('TrainResumeGen', cfg(1, 'FALSE', 'TRUE', every), 'every single stop')
    one = [g for g in one if len(g['stops']) == 1]
    two = c.generate('TrainResumeGen', cfg(2, 'FALSE', 'TRUE', every if c.thorough else [c.rng.randint(1, 4), c.rng.randint(5, 12)]), 'two stops')
    two = [g for g in two if len(g['stops']) == 2]
    c.model('TrainResumeGen', cfg(1, 'TRUE', 'FALSE', [1]), 'lexicons vouching for each other', expect_violation='TrustWhole')
    c.model('TrainResumeGen', cfg(2 if not c.thorough else 3, 'FALSE', 'FALSE', every), 'several stops')
    k = 700 if not c.thorough else 6000
    gs = one + c.rng.sample(two, min(len(two), k - len(one)))
    cases, refs, allrefs = [], {}, []
    for g in gs:
        key = json.dumps(g['c'], sort_keys=True)
        pool = refs.setdefault(key, [])
        if len(pool) < 2:
            pool.append(len(allrefs))
            allrefs.append(dict(corpus=corpus(c.rng, g['c']), c=g['c'], lock=threading.Lock()))
        n = c.rng.choice(pool)
        cases.append(dict(g, ref=n, corpus=allrefs[n]['corpus']))
    def reference(x):
        with x['lock']:
            if 'files' not in x:
                d = tempfile.mkdtemp(prefix='ref-', dir=top)
                given(x, d)
                rc, log, err = run1(command(x['c'], t, False), d)
                x['files'] = {n: os.path.join(d, 'work', f) for n, f in FILES.items()}
                x['norm'] = {n: norm(f) if os.path.exists(f) else None for n, f in x['files'].items()}
                x['ok'] = rc == 0
        return x
    def state(ref, d):
        r = {}
        for n, f in FILES.items():
            p = os.path.join(d, 'work', f)
            r[n] = 'no' if not os.path.exists(p) else 'full' if norm(p) == ref['norm'][n] else 'part'
        return r
    def one_case(g):
        ref = reference(allrefs[g['ref']])
        x = dict(c=g['c'], stops=[dict(p=s['p'], k=s['k'], v=[list(v) for v in s['v']]) for s in g['stops']])
        rec = dict(st='ok', **{'in': x})
        rec['out'] = dict(ref=ref['ok'], runs=[], again=True)
        if not ref['ok']:
            return rec
        d = tempfile.mkdtemp(prefix='run-', dir=top)
        try:
            os.mkdir(d + '/tmp')
            given(dict(ref, c=g['c']), d)
            for k in range(len(x['stops']) + 1):
                s = x['stops'][k] if k < len(x['stops']) else None
                before = state(ref, d)
                last = dict(sym='align', lex='lex')[s['p']] if s and s['k'] == 'stop' else None
                rc, log, err = run1(command(g['c'], t, k > 0, last), d, *([s['p'], s['k']] if s and not last else []))
                if s and s['k'] == 'kill' and rc:
                    for n, v in s['v']:
                        p = os.path.join(d, 'work', FILES[n])
                        if v == 'no':
                            if os.path.exists(p):
                                os.remove(p)
                        else:
                            data = open(ref['files'][n], 'rb').read()
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            open(p, 'wb').write(data[:dict(empty=0, half=len(data) // 2, full=len(data))[v]])
                after = state(ref, d)
                rec['out']['runs'].append(dict(rc=rc, log=log, before=before, after=after, err=err[-300:] if rc and not (s and s['k'] == 'kill') else ''))
                if k == 0:
                    rc2, log2, err = run1(command(g['c'], t, False), d)
                    rec['out']['again'] = rc2 != 0 and not log2 and state(ref, d) == after
                if rc == 0 and not last:
                    break
        except subprocess.TimeoutExpired:
            rec['st'] = 'hang'
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return rec
    def corrupt(r, rng):
        o = r['out']
        if not o['runs']:
            return None
        y = rng.choice(['again', 'after', 'rc', 'log', 'more'])
        z = rng.choice(o['runs'])
        if y == 'again':
            o['again'] = False
        elif y == 'after':
            o['runs'][-1]['after'][rng.choice([n for n in ('l1', 'l2', 'tm') if not r['in']['c'][n]])] = 'part'
        elif y == 'rc':
            if z['rc'] == 0 and z is not o['runs'][-1]:
                return None
            z['rc'] = 0 if z['rc'] else 1
        elif y == 'log':
            z['log'].append(rng.choice(z['log'] or ['ext']))
        else:
            o['runs'].append(z)
        return r
    c.conform('P35_cli', cases, runner=lambda cs: c.pmap(one_case, cs), corrupt=corrupt, name='resume', nontrivial=lambda x: True)
