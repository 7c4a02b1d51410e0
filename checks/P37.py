"""P37: the tuning program on candidate files and forests."""
import gzip, json, os, re, subprocess, tempfile
import evalgen

INF = 100000
EVALS = {'wer': 'wer', 'werrev': 'wer:reverse=true', 'zeroone': 'zeroone', 'interp': 'interp:0.5|wer:reverse=true|0.5|zeroone', 'ter': 'ter', 'ribes': 'ribes',
         'nist': 'nist', 'ainterp': 'ainterp:A|zeroone|B|wer:reverse=true|A*B', 'bleusent': 'bleu:order=2,smooth=1,scope=sentence'}
KINDS = ['wer', 'werrev', 'werrev', 'zeroone', 'zeroone', 'bleu', 'bleu', 'interp', 'ter', 'ribes', 'nist', 'ainterp', 'bleusent']

def vec(rng, nf, vals, p=0.7):
    return [[k, rng.choice(vals)] for k in range(nf) if rng.random() < p]

def case(rng):
    forest = 1 if rng.random() < 0.3 else 0
    greedy = 1 if not forest and rng.random() < 0.3 else 0
    kind = rng.choice(KINDS)
    if forest and kind == 'ainterp':
        kind = 'zeroone'
    if greedy:
        kind = rng.choice(['zeroone', 'zeroone', 'bleu'])
    nf = rng.choice([1, 2, 3])
    V = rng.choice([2, 3, 4])
    ns = rng.choice([1, 2, 3, 4])
    refs = [evalgen.sent(rng, V, lo=1, hi=5) for _ in range(ns)]
    tie = 1 if rng.random() < 0.4 else 0
    free = [[rng.sample(range(-12, 13), 25) for _ in range(nf)] for _ in range(ns)]
    exact = kind in ('wer', 'werrev', 'zeroone')
    def hyp(i):
        w = list(refs[i]) if rng.random() < 0.2 else evalgen.near(rng, refs[i], V, hi=6)
        if forest and not w:
            w = list(refs[i])
        if not tie:
            # no two candidates of a sentence on a line
            return dict(id=i, w=w, f=[[k, v] for k, v in ((k, free[i][k].pop()) for k in range(nf)) if v])
        return dict(id=i, w=w, f=vec(rng, nf, [-2, -1, 1, 2], 0.6))
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = []
        for i in range(ns):
            for _ in range(rng.choice([1, 2, 3] if forest else [0, 1, 2, 3, 4])):
                f.append(hyp(i))
        if not forest and rng.random() < 0.3:
            rng.shuffle(f)
        files.append(f)
    if not any(files):
        files[0] = [hyp(0)]
    if tie and not any(h['f'] for f in files for h in f):
        files[-1].append(dict(id=ns - 1, w=list(refs[ns - 1]), f=[[0, 1]]))
        files[-1].append(dict(id=ns - 1, w=list(refs[ns - 1]) + [0], f=[[0, -1]]))
        if forest:
            files[-1].sort(key=lambda h: h['id'])
    if not tie and sum(map(len, files)) < 2:
        files[0] += [hyp(ns - 1), hyp(ns - 1)]
    w = vec(rng, nf, [-2, -1, 1, 2, 3])
    rs = []
    if greedy and rng.random() < 0.7:
        for k in ([-1] if rng.random() < 0.4 else []) + [k for k in range(nf) if rng.random() < 0.6]:
            rs.append(dict(k=k, lo=rng.choice([-INF, -6, -3, -1, 0]), hi=rng.choice([INF, 6, 3, 1])))
        def lim(k, v):
            for x in [x for x in rs if x['k'] == k] or [x for x in rs if x['k'] == -1]:
                return max(x['lo'], min(v, x['hi']))
            return v
        w = [[k, lim(k, v)] for k, v in w]
    rnd = exact and not greedy and rng.random() < 0.15
    return dict(op='tune', refs=refs, files=files, w=[x for x in w if x[1]], greedy=greedy, forest=forest, kind=kind, order=rng.choice([1, 2, 4]), rs=rs, tie=tie,
                threads=rng.choice([1, 1, 2, 4]) if not rnd else 1, restarts=rng.choice([0, 0, 1, 3]), gz=1 if not forest and rng.random() < 0.2 else 0,
                dirs='coord rand=2' if rnd else '', seed=rng.randint(1, 99))

ERRS = ['columns', 'shortstat', 'longstat', 'algorithm', 'both', 'neither', 'range', 'weights', 'nbest', 'ref', 'statcount', 'foreststat', 'noref', 'statfile', 'negative', 'eval', 'noforestref', 'rangeval']

def bad(rng):
    c = case(rng)
    while c['forest'] or c['gz'] or c['greedy'] or not all(c['files']) or c['kind'] in ('ainterp', 'nist'):
        c = case(rng)
    return dict(c, op='err', err=rng.choice(ERRS))

def words(w):
    return ' '.join('w%d' % t for t in w)

def forest_lines(fs, ns):
    out = []
    for i in range(ns):
        hs = [h for h in fs if h['id'] == i]
        nodes = [dict(id=0, sym='S', span=[0, 1], edges=list(range(len(hs))))]
        edges = []
        deep = len(hs) % 2 == 0 and len(hs) > 0
        for k, h in enumerate(hs):
            e = dict(id=k, head=0, features={'f%d' % a: b for a, b in h['f']}, trg=[dict(words=['w%d' % t for t in h['w']])], score=0.0)
            if deep and h['w']:
                # the first word comes from a node of its own, with half of the features
                n = len(nodes)
                nodes.append(dict(id=n, sym='X', span=[0, 1], edges=[len(hs) + n - 1]))
                e.update(tails=[n], trg=[dict(words=[-1] + ['w%d' % t for t in h['w'][1:]])], features={'f%d' % a: b for a, b in h['f'][1:]})
                edges.append((len(hs) + n - 1, dict(id=len(hs) + n - 1, head=n, features={'f%d' % a: b for a, b in h['f'][:1]}, trg=[dict(words=['w%d' % h['w'][0]])], score=0.0)))
            edges.append((k, e))
        edges = [e for _, e in sorted(edges, key=lambda x: x[0])]
        for n in nodes:
            n['edges'] = [e['id'] for e in edges if e['head'] == n['id']]
        out.append(json.dumps(dict(nodes=nodes, edges=edges, words=['x'])))
    return out

def half(v):
    return '' if abs(v) >= INF else '%g' % (v / 2)

def runner_for(c, d):
    exe = c.build('batch-tune')['batch-tune']
    def one(ix):
        i, x = ix
        w = os.path.join(d, str(i)); os.makedirs(w, exist_ok=True)
        P = lambda n: os.path.join(w, n)
        open(P('ref'), 'w').write(''.join(words(s) + '\n' for s in x['refs']))
        open(P('wt'), 'w').write(''.join('f%d=%g\n' % (k, v / 2) for k, v in x['w']))
        def put(name, hs):
            if x['forest']:
                t = '\n'.join(forest_lines(hs, len(x['refs']))) + '\n'
            else:
                t = ''.join('%d ||| %s ||| 0 ||| %s\n' % (h['id'], words(h['w']), ' '.join('f%d=%d' % (k, v) for k, v in h['f'])) for h in hs)
            if x['gz'] and name != 'all':
                name += '.gz'
                gzip.open(P(name), 'wt').write(t)
            else:
                open(P(name), 'w').write(t)
            return name
        names = [put('sys%d' % n, f) for n, f in enumerate(x['files'])]
        ev = EVALS.get(x['kind'], 'bleu:order=%d' % x['order'])
        def go(files, threads=x['threads'], more=(), ref='ref'):
            cmd = [exe, '-eval', ev, '-weight_in', 'wt', '-rand_seed', str(x['seed']), '-restarts', str(x['restarts']), '-threads', str(threads), '-debug', '1']
            if files:
                cmd += ['-forest' if x['forest'] else '-nbest', ','.join(files)]
            if x['greedy']:
                cmd += ['-algorithm', 'greedy-mert']
            if x['dirs']:
                cmd += ['-mert_directions', x['dirs']]
            if x['rs']:
                r = ' '.join('%s|%s%s' % (half(y['lo']), half(y['hi']), '' if y['k'] < 0 else '|f%d' % y['k']) for y in x['rs'])
                # a value cannot begin with a minus sign
                cmd += ['-weight_ranges', ('0|1|other ' if r[0] == '-' else '') + r]
            try:
                p = subprocess.run(cmd + list(more) + [ref], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
            except subprocess.TimeoutExpired:
                return -99, '', ''
            return p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1')
        def stat(name, out):
            return subprocess.run([exe, '-eval', ev, '-nbest', name, '-stat_out', out, 'ref'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).returncode
        def nums(f):
            return [[int(t) if re.fullmatch(r'-?\d{1,9}', t) else -7 for t in l.split()] for l in open(f).read().split('\n')[:-1]] if os.path.exists(f) else []
        if x['op'] == 'err':
            k = x['err']
            more, fs, ref = [], names, 'ref'
            if k == 'columns':
                open(P(names[-1]), 'a').write('0 ||| w0 ||| f0=1\n')
            elif k in ('shortstat', 'longstat', 'statcount', 'statfile'):
                st = []
                for n, f in enumerate(names):
                    stat(f, 'st%d' % n); st.append('st%d' % n)
                if k == 'shortstat':
                    t = open(P(st[-1])).read().split('\n')
                    open(P(st[-1]), 'w').write('\n'.join(t[:-2] + ['']) if len(t) > 2 else '')
                elif k == 'longstat':
                    t = open(P(st[0])).read()
                    open(P(st[0]), 'w').write(t + t.split('\n')[0] + '\n')
                elif k == 'statcount':
                    st = st + st[:1]
                else:
                    st[-1] = 'absent'
                more = ['-stat_in', ','.join(st)]
            elif k == 'algorithm':
                more = ['-algorithm', 'mirt']
            elif k == 'both':
                open(P('for'), 'w').write('\n'.join(forest_lines(x['files'][0], len(x['refs']))) + '\n')
                more = ['-forest', 'for']
            elif k == 'neither':
                fs = []
            elif k == 'range':
                more = ['-algorithm', 'greedy-mert', '-weight_ranges', '1']
            elif k == 'rangeval':
                more = ['-algorithm', 'greedy-mert', '-weight_ranges', 'x|1']
            elif k == 'weights':
                more = ['-weight_in', 'absent']
            elif k == 'nbest':
                fs = names + ['absent']
            elif k == 'ref':
                ref = 'absent'
            elif k == 'foreststat':
                open(P('for'), 'w').write('\n'.join(forest_lines(x['files'][0], len(x['refs']))) + '\n')
                fs = []
                more = ['-forest', 'for', '-stat_in', 'wt']
            elif k == 'noforestref':
                open(P('for'), 'w').write('\n'.join(forest_lines([dict(id=z, w=[0], f=[[0, 1]]) for z in range(len(x['refs']) + 1)], len(x['refs']) + 1)) + '\n')
                fs = []
                more = ['-forest', 'for']
            elif k == 'noref':
                open(P(names[-1]), 'a').write('%d ||| w0 ||| 0 ||| f0=1\n' % len(x['refs']))
            elif k == 'negative':
                open(P(names[-1]), 'a').write('-1 ||| w0 ||| 0 ||| f0=1\n')
            elif k == 'eval':
                more = ['-eval', 'blau']
            rc, o, e = go(fs, more=more, ref=ref)
            return dict(**{'in': x}, st='ok' if rc in (0, 1, -6) else 'crash', out=dict(rc=rc, a=o, said='terminate called' in e or 'rror' in e))
        rc, o, e = go(names)
        best = [l[6:] for l in e.split('\n') if l.startswith('Best: ')]
        # of several best runs, rounding decides which is printed
        def mark(o, e):
            return '%d#' % o.count('\n') + '#'.join(re.sub('.* => ', '', l) for l in e.split('\n') if l.startswith('Best: '))
        a = mark(o, e)
        wts = dict((int(t.split('=')[0][1:]), float(t.split('=')[1])) for t in o.split() if re.fullmatch(r'f\d=[-+.e\d]+', t))
        runs = []
        for l in e.split('\n'):
            m = re.fullmatch(r'(Init|Zero|Rand \d+): (.*) => (\S+)', l)
            if m:
                runs.append(dict(t=m.group(2) + ' => ' + m.group(3), s=sc(m.group(3))))
        bm = re.fullmatch(r'(.*) => (\S+)', best[0]) if best else None
        stats, b, cc, dd = [], a, a, a
        crash = rc not in (0, 1, -6)
        if x['forest'] == 0:
            src = names
            if x['gz']:
                # statistics are written for plain files
                src = []
                for n, f in enumerate(x['files']):
                    open(P('plain%d' % n), 'w').write(gzip.open(P(names[n]), 'rt').read()); src.append('plain%d' % n)
            rcs = [stat(f, 'st%d' % n) for n, f in enumerate(src)]
            if x['kind'] in ('wer', 'werrev', 'zeroone', 'bleu', 'interp'):
                stats = [nums(P('st%d' % n)) for n in range(len(src))]
            rb, ob, eb = go(names, more=['-stat_in', ','.join('st%d' % n for n in range(len(src)))])
            b = mark(ob, eb)
            rc2, oc, ec = go([put('all', [h for f in x['files'] for h in f])])
            cc = mark(oc, ec)
            if any(rcs):
                b = 'no statistics'
        if x['tie']:
            b = cc = a      # which candidate of a line counts is open
        elif not x['greedy'] and not x['dirs']:
            rd, od, ed = go(names, threads=1 if x['threads'] > 1 else 3)
            dd = mark(od, ed)
        if x['greedy'] and x['threads'] > 1:
            b = cc = a      # which of several features with the same gain is moved depends on time
        m = [[round(100000 * sum(wts.get(k, 0) * v for k, v in h['f'])) for f in x['files'] for h in f if h['id'] == s] for s in range(len(x['refs']))]
        o5 = sorted([k, round(v * 100000)] for k, v in wts.items())
        bw = sorted([int(t.split('=')[0][1:]), round(float(t.split('=')[1]) * 100000)] for t in bm.group(1).split() if '=' in t) if bm else [[-1, 0]]
        return dict(**{'in': x}, st='crash' if crash else 'ok', out=dict(rc=rc, a=a, b=b, c=cc, d=dd, stats=stats, runs=runs, best=best[0] if best else '', score=sc(bm.group(2)) if bm else -99, w=o5, bw=bw, m=m))
    return lambda cs: c.pmap(one, list(enumerate(cs)))

def sc(t):
    try:
        v = round(float(t) * 1000000)
    except (ValueError, OverflowError):
        return -999999999
    return max(-999999999, min(999999999, v))

def corrupt(r, rng):
    if r['in']['op'] != 'tune':
        return None
    o = r['out']
    k = rng.choice(['route', 'stat', 'score', 'one', 'run'])
    if k == 'route':
        o['b'] += 'f9=1'
    elif k == 'one':
        o['c'] = 'f0=0.25' + o['c']
    elif k == 'run':
        if r['in']['threads'] > 1:
            return None
        o['runs'] = o['runs'][:-1]
    elif k == 'stat':
        if not any(o['stats']):
            return None
        next(s for s in o['stats'] if s)[0][0] += 1
    else:
        if r['in']['kind'] not in ('wer', 'werrev', 'zeroone'):
            return None
        o['score'] += 300000
    return r

def run(c):
    d = tempfile.mkdtemp(prefix='bt-', dir=c.work)
    n = 500 if not c.thorough else 5000
    c.conform('P37_cli', [case(c.rng) for _ in range(n)] + [bad(c.rng) for _ in range(n // 5)], runner=runner_for(c, d), corrupt=corrupt,
              nontrivial=lambda x: x['op'] == 'err' or len(x['files']) > 1)
