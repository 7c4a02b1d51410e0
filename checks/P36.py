"""P36: the tuning loop: what each iteration decodes and tunes with, when it ends, what it leaves behind, and taking it up again."""
import gzip, json, os, shutil, signal, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/repo/script/'
ENV = dict(os.environ, LC_ALL='C.UTF-8', PERL_HASH_SEED='0', PERL_PERTURB_KEYS='0', PYTHONDONTWRITEBYTECODE='1')
NAMES = ['lm', 'lmunk', 'word', 'egfp', 'fgep', 'unk', 'p', 'lm2', 'é']
HEAD = '#!%s -IS\nimport sys\nexec(compile(open(%r).read(), %r, "exec"))\n'

def home(d):
    t = os.path.join(d, 'tv')
    stub = os.path.join(V, 'harness', 'tune_stub.py')
    for s, names in (('src/bin', ['travatar', 'batch-tune', 'gen', 'pp']), ('moses/bin', ['extractor', 'mert']), ('script/train', ['filter-model.pl', 'filter-rule-table.py']),
                     ('script/mert', ['update-weights.pl', 'nbest-uniq.pl', 'densify-nbest.pl', 'make-init-opt.pl'])):
        os.makedirs(os.path.join(t, s))
        for n in names:
            p = os.path.join(t, s, n)
            if n == 'filter-rule-table.py':
                open(p, 'w').write('#!/bin/sh\nexec "%s" "%strain/%s" "$@"\n' % (sys.executable, S, n))
            else:
                open(p, 'w').write(HEAD % (sys.executable, stub, stub))
            os.chmod(p, 0o755)
    return t

def cand(rng, i, words, feats):
    n = rng.choice([0, 1, 2, 2, 3])
    f = rng.sample(feats, min(len(feats), rng.choice([0, 1, 2, 3])))
    return dict(id=i, w=' '.join(rng.choice(words) for _ in range(n)), f=['%s=%s' % (k, rng.choice(['1', '2', '-0.5', '1e-05'])) for k in f], s=rng.choice(['0', '-1.5', '3']))

def line(rng, y, f=None):
    f = list(y['f'])
    rng.shuffle(f)
    return '%d ||| %s ||| %s ||| %s' % (y['id'], y['w'], y['s'], ' '.join(f))

def case(rng, g):
    c = dict(g['c'])
    m = c['max']
    feats = rng.sample(NAMES, rng.choice([1, 2, 4]))
    moses = c['nb'] and rng.random() < 0.25
    w = []
    for i in range(m + 1):
        prev = w[-1] if w else None
        if prev and i in c['still']:
            y = [[k, v + rng.choice([0, 3, -2, 1])] for k, v in prev[:2]] + prev[2:]
            if y == prev:
                y[0][1] += 4
        else:
            while not moses:
                ks = [k for k in feats if rng.random() < 0.85] or feats[:1]
                if prev and rng.random() < 0.3:
                    # only new or dropped features
                    y = [list(a) for a in prev]
                    more = [k for k in NAMES if k not in [a[0] for a in y]]
                    if rng.random() < 0.6 and more:
                        y.append([rng.choice(more), rng.choice([-1, 1]) * rng.randint(20, 9000)])
                    elif len(y) > 1:
                        y.pop(rng.randrange(len(y)))
                    else:
                        continue
                else:
                    y = [[k, rng.choice([-1, 1]) * rng.randint(1, 15000)] for k in ks]
                d = {k: v for k, v in y}
                p = {k: v for k, v in prev or []}
                if not prev or sum(abs(d.get(k, 0) - p.get(k, 0)) for k in set(d) | set(p)) > 11:
                    break
            else:
                y = [[k, rng.choice([-1, 1]) * rng.randint(40, 15000)] for k in feats]
        w.append(y)
    if len(set(json.dumps(sorted(y)) for y in w)) < len(w):
        return case(rng, g)
    words = rng.sample(['a', 'b', 'c', 'é', 'dd'], 3)
    ns = rng.choice([1, 2, 3, 4])
    nb, raw, pool = [], [], []
    for i in range(m):
        q, r = [], []
        for s in range(ns):
            if rng.random() < 0.1:
                continue
            for _ in range(rng.choice([1, 2, 4])):
                old = [y for y in pool if y['id'] == s]
                y = dict(rng.choice(old), s=rng.choice(['1', '2'])) if old and rng.random() < 0.5 else cand(rng, s, words, feats if moses else NAMES)
                pool.append(y)
                l = line(rng, y)
                r.append(l)
                z = dict(y, w=y['w'].upper() if c['pp'] else y['w'], f=sorted(y['f']))
                f = l.split(' ||| ')
                z['l'] = ' ||| '.join([f[0], f[1].upper() if c['pp'] else f[1]] + f[2:])
                z['fv'] = [v.split('=') for v in z['f']]
                z.pop('s')
                q.append(z)
        nb.append(q)
        raw.append(r)
    src = [[rng.choice(['a', 'b', 'c', 'd', 'e']) for _ in range(rng.choice([1, 2, 3]))] for _ in range(ns)]
    fmt = rng.choice(['', 'word', 'penn'])
    if fmt == 'word' and rng.random() < 0.5:
        src[0].insert(0, '(')
    text = [' '.join(s) if fmt != 'penn' else '(S %s)' % ' '.join('(X %s)' % x for x in s) for s in src]
    lost = c['filter'] and not g['stops'] and rng.random() < 0.15
    tabs = []
    for k in range(rng.choice([1, 1, 2])):
        t = []
        for _ in range(rng.choice([1, 3, 6])):
            x = rng.choice(['a', 'b', 'c', 'd', 'e', 'f', 'g'])
            t.append(dict(ws=[x], l='S ( "%s" ) ||| "%s%d" @ S ||| p=%d' % (x, x, k, rng.randint(1, 9))))
        tabs.append(t)
    rest = rng.choice([[], ['[search]', 'cp'], ['[lm_file]', 'a.lm', '[trg_factors]', '2']])
    place = [0, 1, 2]
    rng.shuffle(place)
    o = dict(n=str(rng.choice([1, 10, 200])), thr=str(rng.choice([1, 2])), fmt=fmt, fac=str(rng.choice([1, 2])), trace=rng.random() < 0.3, gen=c['nb'] and not moses and rng.random() < 0.3, moses=moses,
             eval=rng.choice(['bleu', 'bleu:smooth=1', 'ribes', 'ter', 'interp:0.5|bleu|0.5|ribes']), dopt=rng.choice([[], [], ['pop_limit=10'], ['nbest_uniq=true', 'search=cp']]), topt=rng.choice([[], [], ['algorithm=onebest', 'l1=0.5']]))
    still = sorted(i for i in range(1, m + 1) if i in c['still'])
    return dict(c=dict(c, still=still), stops=g['stops'], o=o, w=[sorted(y) for y in w], order=w, nb=nb, raw=raw, src=text, srcw=src, ref=['r%d' % i for i in range(ns)], tabs=tabs,
                place=place, rest=sum([[['[tm_file]'], rest, ['[weight_vals]']][i] for i in place], []), gz=rng.random() < 0.4, same=rng.random() < 0.5, rows=rng.random() < 0.6, lost=lost)

def given(x, d, t):
    open(d + '/src', 'w', encoding='utf-8').write(''.join(l + '\n' for l in x['src']))
    open(d + '/ref', 'w').write(''.join(l + '\n' for l in x['ref']))
    tm = []
    for k, tb in enumerate(x['tabs']):
        p = '%s/m%d/rule-table%s%s' % (d, k, '' if x['same'] else str(k), '.gz' if x['gz'] else '')
        os.makedirs(os.path.dirname(p))
        f = gzip.open(p, 'wt', encoding='utf-8') if x['gz'] else open(p, 'w', encoding='utf-8')
        f.write(''.join(y['l'] + '\n' for y in tb))
        f.close()
        if x['lost'] and k == len(x['tabs']) - 1:
            os.remove(p)
        tm.append(p)
    ws = ['[weight_vals]'] + ['%s=%.4f' % (k, v / 10000) for k, v in x['order'][0]] + ['']
    mid = [l for l in x['rest'] if l not in ('[tm_file]', '[weight_vals]')]
    rest = []
    for l in mid:
        if l.startswith('[') and rest:
            rest.append('')
        rest.append(l)
    parts = [['[tm_file]'] + tm + [''], rest + [''] if rest else [], ws]
    parts = [parts[i] for i in x['place']]
    open(d + '/model.ini', 'w', encoding='utf-8').write('\n'.join(sum(parts, [])) + '\n')
    real = {n: ['perl', S + 'mert/' + n] for n in ('update-weights.pl', 'nbest-uniq.pl', 'densify-nbest.pl', 'make-init-opt.pl')}
    real['filter-model.pl'] = ['perl', S + 'train/filter-model.pl']
    json.dump(dict(w=x['order'], raw=x['raw'], rows=x['rows'], real=real), open(d + '/plan', 'w'))

def command(x, t, d, resume):
    o = x['o']
    cmd = ['perl', S + 'mert/mert-travatar.pl', '-travatar-dir', t, '-working-dir', 'tune', '-src', 'src', '-ref', 'ref', '-travatar-config', 'model.ini', '-max-iters', str(x['c']['max']),
           '-cand-type', 'nbest' if x['c']['nb'] else 'forest', '-nbest', o['n'], '-threads', o['thr'], '-trg-factors', o['fac'], '-eval', o['eval']]
    cmd += ['-in-format', o['fmt']] if o['fmt'] else []
    cmd += ['-mert-solver', 'moses', '-moses-dir', t + '/moses'] if o['moses'] else []
    cmd += ['-trace'] if o['trace'] else []
    cmd += ['-no-filter-rt'] if not x['c']['filter'] else []
    cmd += ['-stat-generator', t + '/src/bin/gen'] if o['gen'] else []
    cmd += ['-post-processing', t + '/src/bin/pp'] if x['c']['pp'] else []
    dash = lambda q: ' '.join('-%s %s' % tuple(y.split('=')) for y in q)
    cmd += ['-decoder-options= ' + dash(o['dopt'])] if o['dopt'] else []
    cmd += ['-tune-options= ' + dash(o['topt'])] if o['topt'] else []
    return cmd + ['-resume'] * resume

def invoke(cmd, d, stop=None):
    open(d + '/tmp/log', 'w').close()
    if os.path.exists(d + '/tmp/it'):
        os.remove(d + '/tmp/it')
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True,
                         env=dict(ENV, FPLAN=d + '/plan', FTMP=d + '/tmp', FSTOP=json.dumps(stop) if stop else ''))
    try:
        err = p.communicate(timeout=60)[1]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise
    return p.returncode, [json.loads(l) for l in open(d + '/tmp/log')], err.decode('utf-8', 'replace')

def final(d):
    f = d + '/tune/travatar.ini'
    if not os.path.exists(f):
        return dict(there=False)
    ns = {}
    # the reader of configurations of the stand-in programs
    src = open(os.path.join(V, 'harness', 'tune_stub.py')).read().split('def iteration')[0]
    src = src.replace("plan = json.load(open(os.environ['FPLAN']))", '').replace("stop = json.loads(os.environ.get('FSTOP') or 'null')", '').replace("T = os.environ['FTMP']", '')
    exec(src, ns)
    c = ns['config'](f)
    lw = ns['config'](d + '/tune/last.ini')['w'] if os.path.exists(d + '/tune/last.ini') else []
    out = open(d + '/tune/last.out').read().strip() if os.path.exists(d + '/tune/last.out') else ''
    return dict(there=True, w=c['w'], tm=c['tm'], rest=c['rest'], out=out, lw=lw)

def run(c):
    top = tempfile.mkdtemp(prefix='tune-', dir=c.work)
    t = home(top)
    cfg = lambda n, at, sh, mi=3: 'INIT Init\nNEXT Next\nINVARIANTS DecodesWhole EndsWhole\nCONSTANTS MaxStops = %d Atomic = %s Show = %s MaxIt = %d\n' % (n, at, sh, mi)
    one = c.generate('TuneLoopGen', cfg(1, 'TRUE', 'TRUE'), 'every single stop of up to three iterations')
    two = c.generate('TuneLoopGen', cfg(2, 'TRUE', 'TRUE', 2), 'every two stops of up to two iterations')
    c.model('TuneLoopGen', cfg(2, 'TRUE', 'FALSE', 2) if not c.thorough else cfg(3, 'TRUE', 'FALSE'), 'several stops')
    c.model('TuneLoopGen', cfg(1, 'FALSE', 'FALSE', 2), 'configurations that are written in place', expect_violation='DecodesWhole')
    uniq = lambda gs: [json.loads(s) for s in sorted(set(json.dumps(g, sort_keys=True) for g in gs))]
    one, two = uniq(one), [g for g in uniq(two) if len(g['stops']) == 2]
    none = [g for g in one if not g['stops']]
    one = [g for g in one if g['stops']]
    k = 1 if not c.thorough else 8
    pick = lambda q, n: c.rng.sample(q, n) if n < len(q) else q
    # many iterations, undisturbed or stopped somewhere
    def long():
        m = c.rng.choice([4, 5, 6])
        nb = c.rng.random() < 0.7
        g = dict(max=m, still=c.rng.choice([[], [], [m - 1]]), nb=nb, pp=nb and c.rng.random() < 0.3, filter=c.rng.random() < 0.2)
        st = c.rng.choice(['dec', 'tun', 'upd'] + (['uniq', 'sta'] if nb else []))
        return dict(c=g, stops=[dict(it=c.rng.randint(2, m - 1), p=st, k=c.rng.choice(['before', 'half', 'fail', 'after']))] * c.rng.choice([0, 0, 1]))
    cases = [case(c.rng, g) for g in none * (2 * k) + pick(one, 150 * k) + pick(two, 110 * k) + [long() for _ in range(30 * k)]]
    def one_case(x):
        rec = dict(st='ok', out=dict(runs=[], again=True), **{'in': x})
        d = tempfile.mkdtemp(prefix='run-', dir=top)
        try:
            os.mkdir(d + '/tmp')
            given(x, d, t)
            for k in range(len(x['stops']) + 1):
                rc, log, err = invoke(command(x, t, d, k > 0), d, x['stops'][k] if k < len(x['stops']) else None)
                rec['out']['runs'].append(dict(rc=rc, log=log, fin=final(d), err=err[-400:] if rc else ''))
                if k == 0:
                    f = final(d)
                    rc2, log2, err = invoke(command(x, t, d, False), d)
                    rec['out']['again'] = rc2 != 0 and not log2 and final(d) == f
                if rc == 0:
                    break
        except subprocess.TimeoutExpired:
            rec['st'] = 'hang'
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return rec
    def corrupt(r, rng):
        o = r['out']
        z = rng.choice(o['runs'])
        y = rng.choice(['again', 'rc', 'log', 'w', 'nb', 'fin'])
        if y == 'again':
            o['again'] = False
        elif y == 'rc':
            z['rc'] = 0 if z['rc'] else 1
        elif y == 'log':
            if not z['log']:
                return None
            z['log'].append(rng.choice(z['log']))
        elif y == 'w':
            if not z['log']:
                return None
            l = rng.choice(z['log'])
            if 'w' not in l:
                return None
            l['w'][0][1] += 1
        elif y == 'nb':
            l = [l for l in z['log'] if l['p'] == 'sta' and l['nb']]
            if not l:
                return None
            rng.choice(l)['nb'].pop()
        else:
            f = o['runs'][-1]['fin']
            if not f['there']:
                return None
            f['w'][0][1] += 1
        return r
    c.conform('P36_cli', cases, runner=lambda cs: c.pmap(one_case, cs), corrupt=corrupt, name='tuning', nontrivial=lambda x: x['c']['max'] > 1 or bool(x['stops']))
