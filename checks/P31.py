"""P31: the scripts between training steps."""
import os, subprocess, tempfile
T = '/repo/script/train/'
WS = ['a', 'b', 'c', 'dd', 'e"', '"', '@', '|', 'x1', '\xe9', '(', '-RRB-']

def run_cmd(cmd, d, inp=None):
    p = subprocess.run(cmd, cwd=d, input=None if inp is None else inp.encode('utf-8'), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60,
                       env=dict(os.environ, LC_ALL='C.UTF-8', PYTHONIOENCODING='utf-8'))
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def lines(t):
    t = t.split('\n')
    return t[:-1] if t[-1] == '' else t

# ---- filtering
def src_tree(rng, toks):
    """a tree over the tokens, as travatar writes sources"""
    lab = lambda: rng.choice(['NP', 'S', 'X', 'VP-T', 'xx'])
    k = [0]
    def leaf(t):
        if t[0] == 1:
            k[0] += 1
            return 'x%d:%s' % (k[0] - 1, lab())
        w = '"%s"' % t[1]
        return '%s ( %s )' % (lab(), w) if rng.random() < 0.5 else w
    def build(ts, top):
        if len(ts) == 1:
            return leaf(ts[0]) if not top else '%s ( %s )' % (lab(), leaf(ts[0]))
        n = rng.choice([2, 2, 3, len(ts)])
        cut = sorted(rng.sample(range(1, len(ts)), min(n, len(ts)) - 1))
        b = [0] + cut + [len(ts)]
        return '%s ( %s )' % (lab(), ' '.join(build(ts[b[i]:b[i + 1]], False) for i in range(len(b) - 1)))
    return build(toks, True)

def src_flat(rng, toks):
    k = 0; r = []
    for t in toks:
        if t[0] == 1:
            r.append('x%d:%s' % (k, rng.choice(['X', 'NP', 'S'])) if rng.random() < 0.9 else 'x%d:X' % k); k += 1
        else:
            r.append('"%s"' % t[1])
    return ' '.join(r) + ' @ X'

def filtercase(rng):
    V = rng.sample(WS, rng.choice([2, 3, 4, 6]))
    fmt = rng.choice(['word', 'word', 'penn', 'penn', 'egret'])
    if fmt == 'penn':
        V = [w for w in V if w != '('] or ['a']
    sents = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        n = rng.choice([1, 2, 3, 4, 5, 7, 7, 15])
        sents.append([rng.choice(V) for _ in range(n)])
    brk = fmt == 'word' and sents[0][0].startswith('(')
    exact = rng.random() < 0.6
    rules, prev = [], None
    for _ in range(rng.choice([3, 8, 15])):
        if prev and rng.random() < 0.3:
            rules.append(prev); continue
        s = rng.choice(sents)
        i = rng.randrange(len(s)); j = rng.randint(i + 1, len(s))
        toks = [[0, w] for w in s[i:j]]
        for _ in range(rng.choice([0, 1, 1, 2])):
            if len(toks) > 1 or (toks and rng.random() < 0.3):
                a = rng.randrange(len(toks)); b = rng.randint(a + 1, len(toks))
                toks[a:b] = [[1, '']] if rng.random() < 0.9 else [[1, ''], [1, '']]
        k = rng.random()
        if k < 0.2:
            p = rng.randrange(len(toks)); toks[p] = [0, rng.choice(WS)]
        elif k < 0.35:
            toks.insert(rng.randint(0, len(toks)), [1, ''] if rng.random() < 0.6 else [0, rng.choice(V)])
        prev = toks
        rules.append(toks)
    o = dict(len=rng.choice([1, 2, 3, 1000, 1000, 1000]), ntlen=rng.choice([1, 2, 1000, 1000, 1000]), maxrun=rng.choice([1, 2, 3, 1000, 1000, 1000]))
    text = []
    for t in rules:
        s = (src_flat if rng.random() < 0.5 else src_tree)(rng, t)
        text.append(s + ' ||| ' + rng.choice(['"t" @ X', '"u" x0:X @ X', '"a" "b" @ S']) + ' ||| ' + rng.choice(['', 'p=1', 'p=1 egfp=-0.5 ||| 1 2 3 ||| 0-0']))
    def dump(w):
        if fmt == 'word' or not w:
            return ' '.join(w)
        def t(ws):
            if len(ws) == 1:
                return '(%s %s)' % (rng.choice(['A', 'NN']), ws[0])
            c = rng.randrange(1, len(ws))
            return '(%s %s %s)' % (rng.choice(['S', 'NP']), t(ws[:c]), t(ws[c:]))
        return t(w)
    if fmt in ('word', 'penn') and rng.random() < 0.25:
        # a line without words
        sents.insert(rng.choice([0, 0, len(sents)]), [])
    if fmt == 'egret':
        src = ''.join('sentence %d :\n%s\nNP[0,%d] => x y : -1.5\nx => %s : 0\n\n' % (i + 1, ' '.join(s), len(s), s[0]) for i, s in enumerate(sents))
    else:
        src = ''.join(dump(s) + '\n' for s in sents)
    return dict(kind='filter', exact=exact, fmt=fmt, guess=rng.random() < 0.5 and not brk, sents=sents, rules=rules, o=o, text=text, src=src)

def filterrun(x, d):
    open(os.path.join(d, 'src'), 'w', encoding='utf-8').write(x['src'])
    inp = ''.join(t + '\n' for t in x['text'])
    if x['exact']:
        cmd = ['python3', T + 'filter-rule-table.py'] + ([] if x['guess'] else ['-f', x['fmt']]) + ['src']
    else:
        cmd = ['perl', T + 'filter-rt.pl', '-src', 'src', '-src-format', x['fmt']]
        for k, n in (('len', 'len'), ('ntlen', 'ntlen'), ('maxrun', 'max-rule-len')):
            if x['o'][k] < 1000:
                cmd += ['-' + n, str(x['o'][k])]
    rc, out = run_cmd(cmd, d, inp)
    if rc:
        return 'crash', 'rc %d' % rc
    kept, same, i = [], True, 0
    for l in lines(out):
        while i < len(x['text']) and x['text'][i] != l:
            i += 1
        if i == len(x['text']):
            same = False
            break
        i += 1
        kept.append(i)
    # equal lines in a row are all kept or none: recover which
    return 'ok', dict(kept=kept, same=same)

def distinct(x):
    """number the rules, so that a line identifies its rule"""
    for i, t in enumerate(x['text']):
        c = t.split(' ||| ')
        c[2] = ('n%d=1 ' % i + c[2]).rstrip() if len(c) == 3 or c[2] else c[2]
        x['text'][i] = ' ||| '.join(c)
    return x

# ---- turning around
def revcase(rng):
    rows = []
    for _ in range(rng.choice([1, 3, 6])):
        n = rng.choice([3, 4, 4, 5, 5])
        cols = [rng.choice(['"a" @ X', 'NP ( "b" x0:NN )', 'x0:X "c\xe9" @ X', '"||" @ X']), rng.choice(['"t" @ X', 'x0:X @ S', '"u" "v" @ NP']), rng.choice(['0.5', 'p=1 q=-2', '1', ''])]
        if n == 5:
            cols.append('1 2')
        links = [[rng.randrange(12), rng.randrange(12)] for _ in range(rng.choice([0, 1, 2, 3]))] if n > 3 else []
        rows.append(dict(cols=cols, links=links, al=n > 3))
    return dict(kind='reverse', rows=rows)

def revrun(x, d):
    t = ''.join(' ||| '.join(r['cols'] + ([' '.join('%d-%d' % tuple(l) for l in r['links'])] if r['al'] else [])) + '\n' for r in x['rows'])
    def parse(o):
        res = []
        for k, l in enumerate(lines(o)):
            c = l.split(' ||| ')
            al = k < len(x['rows']) and x['rows'][k]['al']
            links = []
            if al:
                try:
                    links = [[int(z) for z in p.split('-')] for p in c.pop().split()]
                except ValueError:
                    links = [[-1, -1]]
            res.append(dict(cols=c, links=links))
        return res
    rc, a = run_cmd(['perl', T + 'reverse-rt.pl'], d, t)
    rc2, b = run_cmd(['perl', T + 'reverse-rt.pl'], d, a)
    if rc or rc2:
        return 'crash', 'rc'
    return 'ok', dict(once=parse(a), twice=parse(b))

# ---- combining
def combcase(rng):
    rows = []
    for g in range(rng.choice([1, 2, 3, 4])):
        src = rng.choice(['"a"', '"b"', 'x0:X "c"', 'NP ( "d%d" )' % g])
        for lab in ([' @ X'] if rng.random() < 0.7 else [' @ S', ' @ X']):
            if src.startswith('NP'):
                lab = ''
            for k in range(rng.choice([1, 2, 3, 5])):
                fs = lambda names: [[n, rng.choice([0, 1, 2, 3, -4])] for n in names if rng.random() < 0.7] or [[names[0], 1]]
                rows.append(dict(src=src + lab, group=src, trg='"t%d" @ X' % k, f1=fs(['egfp', 'egfl', 'p']), f2=fs(['fgep', 'fgel', 'p']), c=rng.choice([1, 1, 2, 3, 5, 10, 20]), s=rng.randint(5, 9),
                                 t=rng.randint(5, 9), al=rng.choice(['', '0-0', '0-0 1-1'])))
            if not lab:
                break
    # the same source may come again only next to itself
    seen, out, last = set(), [], None
    for r in rows:
        if r['group'] != last and r['group'] in seen:
            continue
        seen.add(r['group']); last = r['group']; out.append(r)
    bad = rng.random() < 0.15
    return dict(kind='combine', rows=out, top=rng.choice([0, 0, 1, 2, 3]), bad=bad, how=rng.choice(['short', 'rule', 'count', 'trg']), gz=rng.random() < 0.3)

def combrun(x, d):
    import gzip
    f = lambda v: ' '.join('%s=%d' % tuple(p) for p in v)
    l1 = ['%s ||| %s ||| %s ||| %d %d ||| %s\n' % (r['src'], r['trg'], f(r['f1']), r['c'], r['s'], r['al']) for r in x['rows']]
    l2 = ['%s ||| %s ||| %s ||| %d %d ||| %s\n' % (r['src'], r['trg'], f(r['f2']), r['c'], r['t'], r['al']) for r in x['rows']]
    if x['bad']:
        k = len(l2) // 2
        if x['how'] == 'short':
            l2.pop()
        elif x['how'] == 'rule':
            l2[k] = '"zz" @ X' + l2[k][l2[k].index(' |||'):]
        elif x['how'] == 'trg':
            l2[k] = l2[k].replace('"t', '"u')
        else:
            r = x['rows'][k]
            l2[k] = l2[k].replace('||| %d %d |||' % (r['c'], r['t']), '||| %d %d |||' % (r['c'] + 1, r['t']))
    for n, l in (('1', l1), ('2', l2)):
        p = os.path.join(d, 't' + n)
        for q in (p, p + '.gz'):
            if os.path.exists(q):
                os.remove(q)
        if x['gz']:
            with gzip.open(p + '.gz', 'wt', encoding='utf-8') as g:
                g.write(''.join(l))
        else:
            open(p, 'w', encoding='utf-8').write(''.join(l))
    s = '.gz' if x['gz'] else ''
    rc, out = run_cmd(['perl', T + 'combine-rt.pl'] + (['-top-n', str(x['top'])] if x['top'] else []) + ['t1' + s, 't2' + s], d)
    rows = []
    for l in lines(out):
        c = l.split(' ||| ')
        try:
            rows.append(dict(src=c[0], trg=c[1], feats=[[p.rsplit('=', 1)[0], int(p.rsplit('=', 1)[1])] for p in c[2].split()], counts=[int(z) for z in c[3].split()], al=c[4]))
        except Exception:
            rows.append(dict(src=l, trg='', feats=[], counts=[], al=''))
    return 'ok', dict(rc=rc, rows=rows)

# ---- symmetrizing
def symcase(rng):
    pairs = []
    for _ in range(rng.choice([1, 5, 12])):
        n, m = rng.randint(1, 6), rng.randint(1, 6)
        base = [[rng.randint(1, n), rng.randint(1, m)] for _ in range(rng.randint(0, n + m))]
        fe, ef = [0] * m, [0] * n
        for i, j in base:
            if rng.random() < 0.6:
                fe[j - 1] = i
            if rng.random() < 0.6:
                ef[i - 1] = j
        if rng.random() < 0.3:
            # mostly diagonal, one direction ending early
            k = rng.randint(0, min(n, m)); q = rng.choice([0, 1, k])
            for i in range(min(n, m)):
                if rng.random() < 0.8:
                    ef[i] = i + 1
                if rng.random() < 0.8:
                    fe[i] = i + 1 if i < k else 0
            if rng.random() < 0.5:
                fe[k:] = [0] * (m - k)
            else:
                ef[k:] = [0] * (n - k); fe[k:] = [min(n, j + 1) for j in range(k, m)]
        pairs.append(dict(fe=fe, ef=ef))
    return dict(kind='sym', pairs=pairs, o=dict(sym=rng.choice(['grow', 'grow', 'grow', 'grow', 'intersect', 'union']), diag=rng.random() < 0.7, final=rng.random() < 0.7, **{'and': rng.random() < 0.6}))

def symrun(x, d):
    def giza(al, n):
        # al[j]: the word that position j + 1 is linked to
        return 'NULL ({ %s}) ' % ''.join('%d ' % (j + 1) for j, i in enumerate(al) if not i) + \
               ' '.join('w%d ({ %s})' % (k, ''.join('%d ' % (j + 1) for j, i in enumerate(al) if i == k)) for k in range(1, n + 1)) + ' '
    for name, f in (('fe', lambda p: giza(p['fe'], len(p['ef']))), ('ef', lambda p: giza(p['ef'], len(p['fe'])))):
        open(os.path.join(d, name), 'w').write(''.join('# Sentence pair (%d) source length 3\nsome words\n%s\n' % (k + 1, f(p)) for k, p in enumerate(x['pairs'])))
    o = x['o']
    b = lambda v: 'true' if v else 'false'
    rc, out = run_cmd(['perl', T + 'symmetrize.pl', '-sym', o['sym'], '-diag', b(o['diag']), '-final', b(o['final']), '-and', b(o['and']), 'fe', 'ef'], d)
    if rc:
        return 'crash', 'rc %d' % rc
    return 'ok', [[[int(z) for z in p.split('-')] for p in l.split()] for l in lines(out)]

RUN = dict(filter=filterrun, reverse=revrun, combine=combrun, sym=symrun)

def corrupt(r, rng):
    k, o = r['in']['kind'], r['out']
    if k == 'filter':
        if o['kept'] and rng.random() < 0.6:
            o['kept'].pop(rng.randrange(len(o['kept'])))
            return r
        m = [i for i in range(1, len(r['in']['rules']) + 1) if i not in o['kept']]
        if not m:
            return None
        o['kept'] = sorted(o['kept'] + [rng.choice(m)])
    elif k == 'reverse':
        q = rng.choice([o['once'], o['twice']])
        x = rng.choice(q)
        if x['links'] and rng.random() < 0.5:
            x['links'][0][0] += 1
        else:
            x['cols'][0] += ' '
    elif k == 'combine':
        if r['in']['bad']:
            o['rc'] = 0
        else:
            x = rng.choice(o['rows'])
            y = rng.choice(['f', 'c', 'd'])
            if y == 'f':
                x['feats'].pop()
            elif y == 'c':
                x['counts'][0] += 1
            else:
                o['rows'].remove(x)
    else:
        i = rng.randrange(len(o))
        if o[i]:
            o[i].pop()
        else:
            o[i].append([0, 0])
    return r

def run(c):
    for v, rl, sl in (('{"a", "b"}', 3, 4),) + ((('{"a", "b"}', 4, 5), ('{"a", "b", "c"}', 3, 5)) if c.thorough else ()):
        c.model('FilterModel', 'INIT Init\nNEXT Next\nCONSTANTS\nV = %s\nRuleLen = %d\nSentLen = %d\nGapless = FALSE\nINVARIANTS SameMatch Weaker\n' % (v, rl, sl), 'all rules of up to %d tokens' % rl)
    c.model('FilterModel', 'INIT Init\nNEXT Next\nCONSTANTS\nV = {"a"}\nRuleLen = 2\nSentLen = 2\nGapless = TRUE\nINVARIANTS SameMatch\n', 'not with empty variables', expect_violation='SameMatch')
    for n, m in ((2, 3), (3, 3)) + (((4, 3), (3, 4)) if c.thorough else ()):
        c.model('SymmetrizeModel', 'INIT Init\nNEXT Next\nCONSTANTS\nN = %d\nM = %d\nSloppy = FALSE\nINVARIANTS Between Grown Complete\n' % (n, m), 'all directional alignments of %d and %d words' % (n, m))
    c.model('SymmetrizeModel', 'INIT Init\nNEXT Next\nCONSTANTS\nN = 2\nM = 2\nSloppy = TRUE\nINVARIANTS Grown\n', 'not when anything grows', expect_violation='Grown')
    d = tempfile.mkdtemp(prefix='scr-', dir=c.work)
    def runner(cs):
        def one(ix):
            i, x = ix
            w = os.path.join(d, str(i)); os.makedirs(w, exist_ok=True)
            try:
                st, out = RUN[x['kind']](x, w)
            except subprocess.TimeoutExpired:
                st, out = 'hang', ''
            return dict(st=st, out=out, **{'in': x})
        return c.pmap(one, list(enumerate(cs)))
    k = 1 if not c.thorough else 12
    c.conform('P31_cli', [distinct(filtercase(c.rng)) for _ in range(500 * k)], runner=runner, diag='DiagFilter', corrupt=corrupt, nontrivial=lambda x: len(x['rules']) > 3, name='filtering')
    c.conform('P31_cli', [revcase(c.rng) for _ in range(80 * k)], runner=runner, diag='DiagReverse', corrupt=corrupt, name='turning-around')
    c.conform('P31_cli', [combcase(c.rng) for _ in range(250 * k)], runner=runner, diag='DiagCombine', corrupt=corrupt, nontrivial=lambda x: len(x['rows']) > 2, name='combining')
    c.conform('P31_sym', [symcase(c.rng) for _ in range(250 * k)], runner=runner, corrupt=corrupt, name='symmetrizing')
