"""P38: preprocessing: dealing lines out, working on the shards, joining them, cleaning, forests, truecasing, losses and taking it up again."""
import json, os, re, shutil, signal, stat, subprocess, sys, tempfile
S = '/repo/script/'
WORDS = ['a', 'B', 'Cc', 'É', 'Ｂ', 'dd', 'x1', 'é', 'Straße', 'ON']
REJ = ['qa', 'Qb']

# every program is wrapped: it can stop everything before, within or after its work on one shard, or lose its last line
WRAP = r'''#!/bin/bash
o=$(readlink /proc/$$/fd/1)
case $o in
  pipe:*) o=; for a in "$@"; do case $a in -i=*) o=egretfor/$(basename "$a");; */orig/*) o=tok/$(basename "$a");; esac; done;;
  *) o=$(basename "$(dirname "$o")")/$(basename "$o");;
esac
[ $(basename "$0") = clean-corpus.pl ] && o=clean/$(basename "$3")
real() { REAL "$@"; }
if [ -n "$FSTOP" ] && [ "$o" = "$FSTOP" ]; then
  touch "$FHIT"
  case $FKIND in
    before) kill -KILL 0; sleep 5;;
    after) real "$@"; kill -KILL 0; sleep 5;;
    half)
      if [ ${o%%/*} = clean ]; then
        real "$@"
        for f in "${@: -2}"; do truncate -s $(( $(stat -c %s "$f") / 2 )) "$f"; done
      else t=$(mktemp "$FTMP/xXXXX"); real "$@" > $t; head -c $(( $(stat -c %s $t) / 2 )) $t; fi
      kill -KILL 0; sleep 5;;
    drop) real "$@" | sed '$d'; exit 0;;
  esac
fi
real "$@"
'''
CKYLARK = r'''awk '{ printf "(ROOT (S"; for(i = 1; i <= NF; i++) printf " (X %s)", $i; print "))" }' '''
EGRET = r'''#!/bin/bash
for a in "$@"; do case $a in -i=*) in=${a#-i=};; esac; done
awk '{ bad = 0; for(i = 1; i <= NF; i++) if($i ~ /^[qQ][ab]$/) bad = 1; print "sentence " NR " :"; print $0;
  if(bad) { print ""; print "" } else {
    for(i = 1; i <= NF; i++) print "X[" i-1 "," i-1 "] => " $i " ||| 0"
    printf "EG[0,%d] =>", NF-1; for(i = 1; i <= NF; i++) printf " X[%d,%d]", i-1, i-1; print " ||| 0"; print "" } }' "$in"
'''
KYTEA = 'awk "{ \\$1 = \\$1; print }" "${@: -1}"'
FAST = 'package FastSleep; BEGIN { *CORE::GLOBAL::sleep = sub { select(undef, undef, undef, 0.03); 1 }; } 1;\n'

# joining files: stopped half-way
CAT = r'''#!/bin/bash
o=$(readlink /proc/$$/fd/1)
o=$(basename "$(dirname "$o")")/$(basename "$o")
if [ -n "$FSTOP" ] && [ "$o" = "$FSTOP" ]; then
  touch "$FHIT"
  t=$(mktemp "$FTMP/xXXXX"); /bin/cat "$@" > $t; head -c $(( $(stat -c %s $t) / 2 )) $t
  kill -KILL 0; sleep 5
fi
exec /bin/cat "$@"
'''

def put(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w', encoding='utf-8').write(s)
    os.chmod(p, 0o755)

def home(c, d):
    t = os.path.join(d, 'tv')
    for n in ('tokenizer', 'tree-converter', 'train-caser'):
        put('%s/src/bin/%s' % (t, n), WRAP.replace('REAL', '"%s"' % c.bins[n]))
    for n in ('train/clean-corpus.pl', 'tree/lowercase.pl', 'tree/replace-failed-parse.pl'):
        put('%s/script/%s' % (t, n), WRAP.replace('REAL', 'perl "%s%s"' % (S, n)))
    put(d + '/egret.real', EGRET)
    put(d + '/prog/ckylark/src/bin/ckylark', WRAP.replace('REAL "$@"', CKYLARK))
    put(d + '/prog/egret/egret', WRAP.replace('REAL', '"%s/egret.real"' % d))
    put(d + '/prog/kytea/src/bin/kytea', WRAP.replace('REAL "$@"', KYTEA))
    put(d + '/prog/m.grammar', '')
    put(d + '/prog/eg', '')
    put(d + '/prog/ky', '')
    put(d + '/lib/FastSleep.pm', FAST)
    put(d + '/path/cat', CAT)
    return t

def case(rng, g, stop=True, **k):
    q = g['c']
    n, keep = q['n'], set(q['keep'])
    mx = rng.choice([2, 3]) if len(keep) < n or rng.random() < 0.4 else 0
    fo = rng.random() < 0.35
    ca = rng.random() < 0.3
    two = mx > 0 or rng.random() < 0.8
    pool = rng.sample(WORDS, 4) + (REJ if fo else [])
    ln = lambda lo, hi: [rng.choice(pool) for _ in range(rng.randint(lo, hi))]
    src, trg = [], []
    for i in range(1, n + 1):
        a, b = ln(1, mx or 4), ln(1, mx or 4)
        if i not in keep:
            z = rng.choice(['a0', 'b0', 'a+', 'b+', 'ab'])
            a = [] if z == 'a0' else ln(mx + 1, mx + 2) if z in ('a+', 'ab') else a
            b = [] if z == 'b0' else ln(mx + 1, mx + 2) if z in ('b+', 'ab') else b
        src.append(a)
        trg.append(b)
    if q['inter'] and len(keep) < n and len(set(map(tuple, src))) < n:
        return case(rng, g, stop, **k)
    ws = sorted(set(sum(src + trg, [])))
    low = lambda w: ''.join(chr(ord(ch) + 0x20) if 'Ａ' <= ch <= 'Ｚ' else ch.lower() for ch in w)
    sl = rng.choice(['en', 'de', 'fr'] if not fo else ['en', 'de'])
    tl = rng.choice([l for l in ('en', 'de', 'fr', 'ja', 'zh') if l != sl])
    x = dict(src=src, trg=trg if two else [], low=[[w, low(w)] for w in ws], thr=q['t'], inter=q['inter'], max=mx, two=two, forest=fo, caser=ca, rej=REJ, sl=sl, tl=tl, stops=[], bad='',
             cr=rng.choice(['', '', '\r', '\u2028']), gap=rng.choice([' ', ' ', '  ']))
    for s in g['stops'] if stop else []:
        st, l = (s['s'].split('.') + ['s'])[:2]
        if l == 't' and not two:
            l = 's'
        if st == 'clean' and not mx:
            st = 'low'
        if fo and l == 's' and rng.random() < 0.4 and st != 'clean':
            st = rng.choice(['treefor', 'egretfor', 'for', 'forlow'])
        elif ca and l == 's' and rng.random() < 0.4 and st != 'clean':
            st = rng.choice(['high', 'true', 'treetrue'])
        elif st in ('tree', 'low') and rng.random() < 0.3:
            st = 'treelow'
        x['stops'].append(dict(st=st, l=l, j=s['j'] - 1, k=s['k']))
    x.update(k)
    return x

def given(x, d):
    for n, q in (('s', x['src']), ('t', x['trg'])):
        ls = []
        for i, ws in enumerate(q):
            # the separator must not end up as part of a line's meaning: a carriage return ends it, a line separator is dropped anywhere
            l = x['gap'].join(ws)
            ls.append(x['cr'] + l if x['cr'] == '\u2028' and i % 2 else l + x['cr'])
        open('%s/%s' % (d, n), 'w', encoding='utf-8', newline='').write(''.join(l + '\n' for l in ls))
    if x['bad'] == 'lengths':
        open(d + '/t', 'a').write('a b\n')

def command(x, d, top, t):
    p = top + '/prog/'
    cmd = ['perl', S + 'preprocess/preprocess.pl', '-travatar-dir', t, '-program-dir', top + '/prog', '-threads', str(x['thr']), '-src', x['sl'], '-ckylark-src-model', p + 'm', '-egret-src-model', p + 'eg',
           '-split-type', 'interleave' if x['inter'] else 'consecutive']
    cmd += ['-trg', x['tl'], '-ckylark-trg-model', p + 'm'] + (['-kytea-trg-model', p + 'ky'] if x['tl'] in ('ja', 'zh') else []) if x['two'] else []
    cmd += ['-clean-len', str(x['max'])] if x['max'] else []
    cmd += ['-forest-src'] if x['forest'] else []
    cmd += ['-truecase-src'] if x['caser'] else []
    if x['bad'] == 'language':
        cmd[cmd.index('-src') + 1] = 'xx'
    elif x['bad'] == 'parser':
        cmd[cmd.index('-ckylark-src-model') + 1] = p + 'none'
    elif x['bad'] == 'forest-model':
        cmd[cmd.index('-egret-src-model') + 1] = p + 'none'
    elif x['bad'] == 'split':
        cmd[cmd.index('-split-type') + 1] = 'odd'
    elif x['bad'] == 'missing':
        return cmd + ['nothing'] + (['t'] if x['two'] else []) + ['out']
    return cmd + ['s'] + (['t'] if x['two'] else []) + ['out']

def name(x, l):
    return x['sl'] if l == 's' else x['tl']

def invoke(cmd, d, top, stop=None, x=None):
    hit = d + '/tmp/hit'
    if os.path.exists(hit):
        os.remove(hit)
    w = max(1, len(str(x['thr'])))
    fs = ''
    if stop:
        fs = '%s/%s' % (stop['st'], name(x, stop['l'])) + ('.%0*d' % (w, stop['j']) if stop['k'] != 'join' else '')
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True,
                         env=dict(os.environ, PATH=top + '/path:' + os.environ['PATH'], LC_ALL='C.UTF-8', PERL5OPT='-MFastSleep', PERL5LIB=top + '/lib', FSTOP=fs, FKIND=stop['k'] if stop else '', FHIT=hit, FTMP=d + '/tmp'))
    try:
        err = p.communicate(timeout=100)[1]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise
    return p.returncode, os.path.exists(hit), err.decode('utf-8', 'replace')

def tidy(x, d):
    """Removes what had failed or was in progress, as the documentation of the program says."""
    o = d + '/out/'
    if not os.path.exists(o + 'orig.DONE'):
        shutil.rmtree(o + 'orig', ignore_errors=True)
    for s in sorted(os.listdir(o)):
        p = o + s
        if s in ('orig', 'orig.DONE') or os.path.islink(p):
            continue
        if s == 'for':
            if not os.path.exists(o + 'forlow'):
                shutil.rmtree(p)
        elif s == 'truecaser':
            if not os.path.exists(o + 'true'):
                shutil.rmtree(p)
        else:
            whole = s == 'clean' and os.path.exists(o + 'tree')
            for f in os.listdir(p):
                if not f.endswith('.DONE') and not os.path.exists('%s/%s.DONE' % (p, f)) and not (s == 'clean' and (whole and '.' not in f or f[:2] == x['tl'] and os.path.exists('%s/%s%s.DONE' % (p, x['sl'], f[2:])))):
                    os.remove('%s/%s' % (p, f))

def forests(ls):
    q, i = [], 0
    while i < len(ls):
        m = re.match(r'sentence ?\d* :$', ls[i])
        if not m or i + 2 >= len(ls):
            return ['garbled']
        ws, i, e = ls[i + 1], i + 2, []
        while i < len(ls) and ls[i]:
            e.append(ls[i])
            i += 1
        if i == len(ls) or not e:
            return ['garbled']
        i += 1
        leaves = {}
        for l in e:
            m = re.match(r'[Xx]\[(\d+),\1\] => (\S+) \|\|\| ', l)
            if m:
                leaves[int(m.group(1))] = m.group(2)
        root = e[-1].split('[')[0]
        q.append(root + ':' + ws if [leaves[k] for k in sorted(leaves)] == ws.split(' ') else 'garbled')
    return q

def lower(l):
    return ''.join(chr(ord(ch) + 0x20) if 'Ａ' <= ch <= 'Ｚ' else ch.lower() for ch in l)

def collect(x, d):
    r = {}
    for l in ('s', 't') if x['two'] else ('s',):
        for s in ('tok', 'clean', 'tree', 'treelow', 'low', 'for', 'forlow', 'high', 'true', 'treetrue', 'fortrue'):
            p = '%s/out/%s/%s' % (d, s, name(x, l))
            if not os.path.exists(p):
                continue
            ls = open(p, encoding='utf-8', errors='replace', newline='').read().split('\n')
            ls = ls[:-1] if ls[-1] == '' else ls + ['no end of line']
            if s.startswith('for'):
                ls = forests(ls)
            r[s + ('~' if s.endswith('true') else '') + '.' + l] = [lower(y) for y in ls] if s.endswith('true') else ls
    return r

def run(c):
    c.build('tokenizer', 'tree-converter', 'train-caser')
    top = tempfile.mkdtemp(prefix='prep-', dir=c.work)
    t = home(c, top)
    cfg = lambda n, m, k, short, show: 'INIT Init\nNEXT Next\nINVARIANTS JoinWhole Parallel\nCONSTANTS MaxN = %d MaxT = %d MaxStops = %d Short = %s Show = %s\n' % (n, m, k, short, show)
    gs = c.generate('PrepGen', cfg(4, 3, 1, 'FALSE', 'TRUE'), 'every single stop of every small corpus')
    c.model('PrepGen', cfg(5 if not c.thorough else 6, 3, 0, 'FALSE', 'FALSE'), 'all corpora')
    c.model('PrepGen', cfg(3, 2, 2 if not c.thorough else 3, 'FALSE', 'FALSE'), 'several stops')
    c.model('PrepGen', cfg(3, 2, 0, 'TRUE', 'FALSE'), 'joining that ends with the shortest shard', expect_violation='JoinWhole')
    gs = [json.loads(s) for s in sorted(set(json.dumps(g, sort_keys=True) for g in gs))]
    none = [g for g in gs if not g['stops']]
    one = [g for g in gs if g['stops']]
    k = 1 if not c.thorough else 8
    pick = lambda q, n: c.rng.sample(q, n) if n < len(q) else q
    def larger():
        n = c.rng.randint(5, 23)
        kp = [i for i in range(1, n + 1) if c.rng.random() < c.rng.choice([0.5, 1])]
        return dict(c=dict(n=n, t=c.rng.choice([2, 3, 4, 11]), inter=c.rng.random() < 0.5, keep=kp or [1]), stops=[])
    cases = [case(c.rng, g) for g in pick(none, 50 * k) + pick(one, 60 * k) + [larger() for _ in range(24 * k)]]
    for g in pick([g for g in none if 1 in g['c']['keep']], 14 * k):
        x = case(c.rng, g)
        x['stops'] = [dict(st=c.rng.choice(['tok', 'tree', 'treelow', 'low']), l=c.rng.choice(['s', 't'] if x['two'] else ['s']), j=0, k='drop')]
        cases.append(x)
    for g in pick([g for g in none if not g['c']['inter']], 8 * k):
        x = case(c.rng, g)
        x['stops'] = [dict(st=c.rng.choice(['tok', 'tree', 'treelow', 'low'] + (['forlow', 'egretfor'] if x['forest'] else [])), l='s', j=0, k='join')]
        cases.append(x)
    for b in ('lengths', 'language', 'parser', 'forest-model', 'split', 'missing', 'one-language') * k:
        x = case(c.rng, c.rng.choice(none), False)
        if b == 'lengths' and not x['two']:
            continue
        x.update(bad=b, forest=x['forest'] or b == 'forest-model', two=x['two'] and b != 'one-language')
        if x['forest']:
            x['sl'] = 'en' if x['tl'] != 'en' else 'de'
        if b == 'one-language':
            x.update(max=2, trg=[])
        cases.append(x)
    def one_case(x):
        rec = dict(st='ok', out=dict(runs=[], files={}), **{'in': x})
        d = tempfile.mkdtemp(prefix='run-', dir=top)
        try:
            os.mkdir(d + '/tmp')
            given(x, d)
            todo = list(x['stops'])
            while True:
                s = todo.pop(0) if todo else None
                rc, hit, err = invoke(command(x, d, top, t), d, top, s, x)
                low = os.path.exists('%s/out/low/%s' % (d, x['sl'])) and (x['bad'] != 'forest-model' or os.path.exists(d + '/out/forlow/' + x['sl']))
                after = False
                if s and s['k'] == 'drop':
                    q = ['tok', 'tree', 'treelow', 'low', 'high']
                    after = any(os.path.exists('%s/out/%s/%s' % (d, y, name(x, s['l']))) for y in q[q.index(s['st']) + 1:])
                rec['out']['runs'].append(dict(rc=rc, low=low, after=after, err=err[-400:] if rc else ''))
                if s and s['k'] == 'drop' and hit and rc:
                    # taken up again as it is: the loss must not be passed over then either
                    rc, hit, err = invoke(command(x, d, top, t), d, top, None, x)
                    rec['out']['runs'].append(dict(rc=rc, low=low, after=False, err=err[-400:] if rc else ''))
                    break
                if s and s['k'] != 'drop' and hit:
                    tidy(x, d)
                    continue
                if s and not hit:
                    x['stops'] = []
                break
            rec['out']['files'] = collect(x, d)
        except subprocess.TimeoutExpired:
            rec['st'] = 'hang'
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return rec
    def corrupt(r, rng):
        o = r['out']
        if r['in']['bad'] or (r['in']['stops'] and r['in']['stops'][0]['k'] == 'drop'):
            o['runs'][0]['rc'] = o['runs'][-1]['rc'] = 0
            o['runs'][-1]['low'] = True
            return r
        y = rng.choice(['rc', 'lose', 'twice', 'other'])
        f = [n for n in o['files'] if o['files'][n]]
        if y == 'rc':
            o['runs'][-1]['rc'] = 1
        elif not f:
            return None
        else:
            n = rng.choice(f)
            q = o['files'][n]
            if y == 'lose':
                q.pop()
            elif y == 'twice':
                q.append(q[0])
            else:
                i = rng.randrange(len(q))
                q[i] = q[i] + ' a'
        return r
    c.conform('P38_cli', cases, runner=lambda cs: c.pmap(one_case, cs, 24), corrupt=corrupt, name='preprocessing', nontrivial=lambda x: x['thr'] > 1)
