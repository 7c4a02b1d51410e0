"""P33: rule estimation: lexical tables, scores, discounting, and the training script as a whole."""
import gzip, math, os, re, subprocess, tempfile
import ghkmgen, treegen
import P34
T = '/repo/script/train/'
ENV = dict(os.environ, LC_ALL='C.UTF-8')

def sh(cmd, d, inp=None, timeout=60):
    p = subprocess.run(cmd, cwd=d, input=None if inp is None else inp.encode('utf-8'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')

def micro(v):
    try:
        return max(-2 ** 30, min(2 ** 30, round(float(v) * 1e6)))
    except ValueError:
        return -2 ** 30

def readlex(p):
    r = []
    for l in open(p, encoding='utf-8'):
        f = l.split()
        r.append([f[0], f[1], micro(f[2])] if len(f) == 3 else [l, '', 0])
    return r

quoted = lambda s: re.findall(r'"([^ ]+)"', s)
FV = ['a', 'b', 'c', 'd', 'é', 'NN']
EV = ['x', 'y', 'z', 'w', 'a']

# ---- words
def lexcase(rng):
    corpus = []
    F, E = FV[:rng.choice([1, 2, 4, 6])], EV[:rng.choice([1, 2, 3, 5])]
    for _ in range(rng.choice([1, 2, 4, 8])):
        f = [rng.choice(F) for _ in range(rng.choice([0, 1, 2, 3, 4]))]; e = [rng.choice(E) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        corpus.append(dict(f=f, e=e, al=ghkmgen.align(rng, len(f), len(e)) if f and e else []))
    bad = rng.random() < 0.1
    how = rng.choice(['f', 'e', 'al', 'range'])
    if bad and how == 'range':
        s = rng.choice(corpus); s['al'] = s['al'] + [rng.choice([[len(s['f']), 0], [0, len(s['e'])]])]
    return dict(kind='lex', corpus=corpus, bad=bad, how=how)

def lexrun(c, x, d):
    for n, g in (('f', lambda s: ' '.join(s['f'])), ('e', lambda s: ' '.join(s['e'])), ('al', lambda s: ' '.join('%d-%d' % tuple(a) for a in s['al']))):
        q = [g(s) for s in x['corpus']]
        if x['bad'] and x['how'] == n:
            q.append('')
        open(os.path.join(d, n), 'w', encoding='utf-8').write(''.join(l + '\n' for l in q))
    rc, o, e = sh(['perl', T + 'align2lex.pl', 'f', 'e', 'al', 'fe', 'ef'], d)
    return 'ok', dict(rc=rc, fe=readlex(d + '/fe') if not rc else [], ef=readlex(d + '/ef') if not rc else [])

# ---- scores
def rows_of(rng, labels=False, whole=False):
    rows = []
    srcs = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice(['tree', 'flat', 'var'])
        n = rng.choice([1, 1, 2, 3]) if k != 'var' else 0
        ws = [rng.choice(FV) for _ in range(n)]
        srcs.append(('NP ( %s x0:NN )' % ' '.join('"%s"' % w for w in ws)) if k == 'tree' else 'x0:X @ S' if k == 'var' else ' '.join('"%s"' % w for w in ws) + ' @ X')
    for s in sorted(set(srcs)):
        sw = quoted(s)
        for _ in range(rng.choice([1, 2, 3])):
            tw = [rng.choice(EV) for _ in range(rng.choice([0, 1, 2, 3]))]
            t = ' '.join(['x0'] + ['"%s"' % w for w in tw]) if rng.random() < 0.5 or not tw else ' '.join('"%s"' % w for w in tw)
            if labels:
                t += ' @ ' + rng.choice(['A', 'VP'])
            als = [ghkmgen.align(rng, len(sw), len(tw)) if sw and tw else [] for _ in range(2)]
            for _ in range(rng.choice([1, 1, 2, 5])):
                c = rng.choice([1, 1, 2]) if whole else rng.choice([1, 0.5, 0.25, 0.33333, 0.2, 2, 1.5])
                rows.append(dict(s=s, t=t, c=c, al=rng.choice(als), sw=sw, tw=tw, slab=s.split(' ')[0], tlab=t.split('@ ')[-1] if '@ ' in t else ''))
    return rows

def line(r):
    return '%s ||| %s ||| %s ||| %s' % (r['s'], r['t'], ('%g' % r['c']), ' '.join('%d-%d' % tuple(a) for a in r['al']))

def scorecase(rng):
    whole = rng.random() < 0.4
    o = dict(cooc=rng.choice([0, 0, 100000, 200000] if whole else [0, 0, 98765, 143215, 171717]), smin=rng.choice([0, 0, 0, 2, 3]) * 100000, lex=rng.random() < 0.8, aligned=rng.random() < 0.5, joint=rng.random() < 0.5, prefix=rng.choice(['', '', 'q_']),
             cond=rng.choice(['egf', 'fge']), sl=False, tl=False, stl=False, fof=rng.random() < 0.5)
    lab = rng.random() < 0.3
    if lab:
        o['sl'], o['tl'], o['stl'] = [rng.random() < 0.5 for _ in range(3)]
    rows = rows_of(rng, lab, whole)
    lex = {}
    for e in EV:
        for f in FV + ['NULL']:
            if rng.random() < 0.6:
                lex[(e, f)] = rng.choice([0.5, 0.25, 1, 0.125, 0.01, 0.3])
    return dict(kind='score', rows=rows, o=o, lex=[[e, f, v] for (e, f), v in lex.items()])

def parserow(l, cols, unit=1e5):
    f = l.split(' ||| ')
    if len(f) != 5:
        return dict(s=l, t='', feats=[], c=-1, ss=-1, st=-1, al=[[-1, -1]])
    cnt = [round(float(v) * unit) for v in f[3].split()]
    try:
        al = [[int(v) for v in p.split('-')] for p in f[4].split()]
    except ValueError:
        al = [[-1, -1]]
    return dict(s=f[0], t=f[1], feats=[[p.rsplit('=', 1)[0], micro(p.rsplit('=', 1)[-1])] for p in f[2].split()], c=cnt[0], ss=cnt[1] if len(cnt) > 1 else -1, st=cnt[2] if cols == 3 and len(cnt) == 3 else -1, al=al)

def scorerun(c, x, d):
    o = x['o']
    ls = sorted((line(r) for r in x['rows']), key=lambda s: s.encode('utf-8'))
    cmd = ['perl', T + 'score-t2s.pl']
    if o['lex']:
        open(d + '/lex', 'w', encoding='utf-8').write(''.join('%s %s %g\n' % tuple(v) for v in x['lex']))
        cmd += ['--lex-prob-file=lex']
    if o['aligned']:
        cmd += ['--lex-type=aligned']
    if o['cooc']:
        cmd += ['--cooc-min-freq=%g' % (o['cooc'] / 1e5)]
    if o['smin']:
        cmd += ['--src-min-freq=%d' % (o['smin'] / 1e5)]
    if o['prefix']:
        cmd += ['--prefix=' + o['prefix']]
    if o['cond'] != 'egf':
        cmd += ['--cond-prefix=' + o['cond']]
    cmd += ['--joint'] * o['joint'] + ['--src-label'] * o['sl'] + ['--trg-label'] * o['tl'] + ['--src-trg-label'] * o['stl'] + ['--fof-file=fof'] * o['fof']
    rc, out, err = sh(cmd, d, ''.join(l + '\n' for l in ls))
    fof = []
    if o['fof'] and not rc:
        fof = [int(l or 0) for l in open(d + '/fof').read().split('\n')[:-1]]
    r = dict(rc=rc, rows=[parserow(l, 2) for l in out.split('\n')[:-1]], fof=fof)
    x['rows'] = [dict(v, c=round(v['c'] * 1e5)) for v in x['rows']]
    x['lex'] = [[e, f, round(v * 1e6)] for e, f, v in x['lex']]
    return 'ok', r

def kncase(rng):
    rows = []
    for k in range(rng.choice([2, 4, 8])):
        c = rng.choice([1, 2, 3, 4, 7, 1.5, 2.25, 0.5, 0.75, 3.5, 2.9])
        rows.append(dict(s='"a%d" @ X' % (k // 2), t='"t%d" @ X' % k, c=c, ss=c + rng.choice([0, 1, 5, 2.5]), st=c + rng.choice([0, 3, 1.5])))
    n1 = rng.randint(3, 400)
    return dict(kind='kn', rows=rows, fof=[0, n1, rng.randint(1, n1), rng.randint(1, 100), rng.randint(1, 60), rng.randint(0, 20)])

def knrun(c, x, d):
    for k, n in (('1', 'ss'), ('2', 'st')):
        open(d + '/t' + k, 'w').write(''.join('%s ||| %s ||| %s ||| %g %g ||| 0-0\n' % (r['s'], r['t'], 'egfp=-1 egfl=-2 p=1' if k == '1' else 'fgep=-1 fgel=-3', r['c'], r[n]) for r in x['rows']))
    open(d + '/fof', 'w').write('\n'.join(str(v) if v else '' for v in x['fof']) + '\n')
    rc, out, err = sh(['perl', T + 'combine-rt.pl', '--smooth=kn', '--fof-file=fof', 't1', 't2'], d)
    r = dict(rc=rc, rows=[parserow(l, 3) for l in out.split('\n')[:-1]])
    x['rows'] = [dict(v, **{k: round(v[k] * 1e5) for k in ('c', 'ss', 'st')}) for v in x['rows']]
    return 'ok', r

# ---- everything
def traincase(rng):
    hiero = rng.random() < 0.25
    W = treegen.PLAINW[:rng.choice([2, 4, 6])]
    tf = not hiero and rng.random() < 0.25
    sents = []
    for _ in range(rng.choice([2, 3, 5])):
        g, nd = treegen.forest(rng, maxwords=4, tree=True, maxderivs=1, unary=0.2, words=W)
        n = len(g['words'])
        words = [rng.choice(EV[:3]) for _ in range(max(1, n + rng.choice([-1, 0, 0, 1])))]
        y = dict(g=g, f=[w[1:] for w in g['words']], e=words, al=ghkmgen.align(rng, n, len(words)))
        y['src'] = ' '.join(y['f']) if hiero else P34.pennof(g)
        y['trg'] = P34.trgtree(rng, words)[0] if tf else ' '.join(words)
        sents.append(y)
    o = dict(cooc=rng.choice([0, 0, 0, 90005, 140005]), aligned=rng.random() < 0.4, nbest=rng.choice([1, 2, 3, 20, 20]), norm=rng.random() < 0.4, binarize=rng.choice(['right', 'left', 'none']), compose=rng.choice([1, 2, 3, 4]),
             lex=rng.choice([-1, -1, 0, 2]), attach=rng.choice(['top', 'top', 'exhaustive', 'none']), att=rng.choice([0, 1, 2]), nt=rng.choice([1, 2, 3]), term=rng.choice([1, 2, 3, 10]), phrase=rng.choice([2, 3, 10]), rule=rng.choice([1, 2, 5]),
             threads=rng.choice([1, 2]), giza=rng.random() < 0.4, words=rng.random() < 0.25, egret=not hiero and rng.random() < 0.2, lm=rng.random() < 0.2, config=rng.random() < 0.2, sym=rng.choice(['grow', 'intersect', 'union']))
    for k, y in enumerate(sents):
        if o['egret']:
            y['src'] = P34.egretof(y['g'], k + 1)
        y.pop('g')
        if o['words']:
            # the words to align are others than those of the trees
            y['f'], y['e'] = ([w[:1].lower() for w in q] for q in (y['f'], y['e']))
    if o['giza']:
        for y in sents:
            n, m = len(y['f']), len(y['e'])
            y['al'], y['fe'], y['ef'] = [], [0] * m, [0] * n
            for i in range(n):
                j = rng.randrange(m)
                if rng.random() < 0.7:
                    y['ef'][i] = j + 1
                if rng.random() < 0.7:
                    y['fe'][j] = i + 1
    return dict(kind='train', hiero=hiero, tf=tf, corpus=sents, o=o)

def home(c, d):
    """a travatar directory with what was built"""
    t = os.path.join(d, 'tv')
    if not os.path.isdir(t):
        os.makedirs(os.path.join(t, 'src', 'bin'))
        os.symlink('/repo/script', os.path.join(t, 'script'))
        for n in ('tree-converter', 'forest-extractor', 'hiero-extractor', 'travatar'):
            os.symlink(c.bins[n], os.path.join(t, 'src', 'bin', n))
    return t

def giza(words, al):
    # al[j]: the word that position j + 1 is linked to
    g = lambda k: ''.join('%d ' % (j + 1) for j, i in enumerate(al) if i == k)
    return '# Sentence pair\n%s\nNULL ({ %s}) ' % (' '.join('w' for _ in al), g(0)) + ''.join('%s ({ %s}) ' % (w, g(k + 1)) for k, w in enumerate(words)) + '\n'

STUBS = {'GIZA++': 'o= ; while [ $# -gt 0 ]; do [ "$1" = -o ] && o="$2"; shift; done; b=$(basename $o); cp "$(dirname $0)/$b" $o.A3.final\n',
         'snt2cooc.out': 'echo 1 1\n', 'mkcls': 'for a in "$@"; do case $a in -V*) echo c > ${a#-V};; esac; done\n'}
def stubs(x, d):
    b = os.path.join(d, 'giza')
    os.mkdir(b)
    for n, t in STUBS.items():
        open(os.path.join(b, n), 'w').write('#!/bin/sh\n' + t)
        os.chmod(os.path.join(b, n), 0o755)
    open(os.path.join(b, 'src-trg.giza'), 'w').write(''.join(giza(y['f'], y['fe']) for y in x['corpus']))
    open(os.path.join(b, 'trg-src.giza'), 'w').write(''.join(giza(y['e'], y['ef']) for y in x['corpus']))
    return b

def ints(p):
    return [[int(v) for v in l.split()] for l in open(p)]

def vcb(p):
    return [[int(f[0]), f[1], int(f[2])] for f in (l.rstrip('\n').split('\t') for l in open(p, encoding='utf-8'))]

def command(x, t, work):
    o = x['o']
    cmd = ['perl', T + 'train-travatar.pl', '-work_dir', work, '-travatar_dir', t, '-src_file', 'src', '-trg_file', 'trg', '-nbest_rules', str(o['nbest']), '-threads', str(o['threads'])]
    cmd += ['-lm_file', 'lm'] if o['lm'] else ['-no_lm', 'true']
    cmd += ['-src_words', 'sw', '-trg_words', 'tw'] * o['words'] + ['-src_format', 'egret'] * o['egret'] + ['-config_file', 'my.ini'] * o['config']
    cmd += ['-bin_dir', 'giza', '-symmetrize', o['sym']] if o['giza'] else ['-align_file', 'al']
    if x['hiero']:
        cmd += ['-method', 'hiero', '-initial_phrase', str(o['phrase']), '-hiero_rule_len', str(o['rule'])]
    else:
        cmd += ['-normalize', str(o['norm']).lower(), '-binarize', o['binarize'], '-compose', str(o['compose']), '-attach', o['attach'], '-attach_len', str(o['att']), '-nonterm_len', str(o['nt']), '-term_len', str(o['term'])]
        if o['lex'] >= 0:
            cmd += ['-src_lex_len', str(o['lex'])]
        if x['tf']:
            cmd += ['-trg_format', 'penn']
    so = (['--cooc-min-freq=%g' % (o['cooc'] / 1e5)] if o['cooc'] else []) + (['--lex-type=aligned'] if o['aligned'] else [])
    if so:
        cmd += ['-score_options=' + ' '.join(so)]
    return cmd

def writecorpus(x, d):
    for n, f in (('src', lambda y: y['src']), ('trg', lambda y: y['trg']), ('sw', lambda y: ' '.join(y['f'])), ('tw', lambda y: ' '.join(y['e'])), ('al', lambda y: ' '.join('%d-%d' % tuple(a) for a in y['al']))):
        open(os.path.join(d, n), 'w').write(''.join(f(y) + ('\n' if n != 'src' or not x['o'].get('egret') else '') for y in x['corpus']))

def readini(p):
    r, cur = {}, None
    for l in open(p):
        l = l.rstrip('\n')
        if re.match(r'\[\w+\]$', l):
            cur = l[1:-1]; r[cur] = []
        elif l:
            r.setdefault(cur, []).append(l)
    return r

def gz(p):
    return gzip.open(p, 'rt', encoding='utf-8').read().split('\n')[:-1]

def trainrun(c, x, d):
    t = home(c, c.tv)
    writecorpus(x, d)
    open(d + '/lm', 'w').write('\\data\\\nngram 1=4\nngram 2=1\n\n\\1-grams:\n-1\t<unk>\t0\n-1\t<s>\t0\n-1\t</s>\n-0.5\tx\t0\n\n\\2-grams:\n-0.5\t<s> x\n\n\\end\\\n')
    if x['o']['giza']:
        stubs(x, d)
    rc, out, err = sh(command(x, t, 'work'), d)
    x['n'] = len(x['corpus'])
    o = x['o']
    tm = ['work/model/rule-table.gz'] + (['work/model/glue-rules'] if x['hiero'] else [])
    ini = dict(tm_file=tm, binarize=['right' if x['hiero'] else o['binarize']])
    if x['hiero']:
        ini.update(in_format=['word'], tm_storage=['fsm'], hiero_span_limit=['20', '1000'])
    if o['lm']:
        ini['lm_file'] = ['lm']
    x['ini'] = sorted([k, v] for k, v in ini.items())
    r = dict(rc=rc, align=[], giza=[], fe=[], ef=[], extract=[], lines=[], direct=[], rows=[], ini=[], decoded=-1)
    if rc:
        r['err'] = err[-500:]
        return 'ok', r
    r['fe'], r['ef'] = readlex(d + '/work/lex/src_given_trg.lex'), readlex(d + '/work/lex/trg_given_src.lex')
    al = 'al'
    if o['giza']:
        al = 'work/align/align.txt'
        r['align'] = [[[int(v) for v in p.split('-')] for p in l.split()] for l in open(os.path.join(d, al))]
        r['giza'] = dict(s=vcb(d + '/work/align/src.vcb'), t=vcb(d + '/work/align/trg.vcb'), st=ints(d + '/work/align/src-trg.snt'), ts=ints(d + '/work/align/trg-src.snt'))
    r['lines'] = gz(d + '/work/model/extract.gz')
    for l in r['lines']:
        f = l.split(' ||| ')
        r['extract'].append(dict(s=f[0], t=f[1], c=round(float(f[2]) * 1e7), al=[[int(v) for v in p.split('-')] for p in f[3].split()], sw=quoted(f[0]), tw=quoted(f[1]), base=re.sub(' @ [^ ]+$', '', f[0])))
    b = c.bins
    if x['hiero']:
        cmd = [b['hiero-extractor'], '-max_initial_phrase', str(o['phrase']), '-max_terminals', str(o['rule'])]
    else:
        cmd = [b['forest-extractor'], '-normalize_probs', str(o['norm']).lower(), '-binarize', o['binarize'], '-compose', str(o['compose']), '-attach', o['attach'], '-attach_len', str(o['att']), '-nonterm_len', str(o['nt']), '-term_len', str(o['term'])]
        if o['lex'] >= 0:
            cmd += ['-src_lex_len', str(o['lex'])]
        if x['tf']:
            cmd += ['-output_format', 'penn']
        cmd += ['-input_format', 'egret'] * o['egret']
    r['direct'] = sh(cmd + ['src', 'trg', al], d)[1].split('\n')[:-1]
    r['rows'] = [parserow(l, 3, 1e7) for l in gz(d + '/work/model/rule-table.gz')]
    inip = 'my.ini' if o['config'] else 'work/model/travatar.ini'
    if not os.path.exists(os.path.join(d, inip)):
        return 'ok', r
    i = readini(os.path.join(d, inip))
    r['ini'] = sorted([k, v] for k, v in i.items() if k != 'weight_vals')
    rc, out, err = sh([b['travatar'], '-config_file', inip] + ['-in_format', 'egret'] * o['egret'], d, open(d + '/src').read())
    r['derr'] = err[-300:] if rc else ''
    r['decoded'] = len(out.split('\n')) - 1 if rc == 0 else -1
    return 'ok', r

RUN = dict(lex=lexrun, score=scorerun, kn=knrun, train=trainrun)

def corrupt(r, rng):
    k, o = r['in']['kind'], r['out']
    if k == 'lex':
        if r['in']['bad']:
            o['rc'] = 0
            return r
        q = rng.choice([o['fe'], o['ef']])
        if not q:
            return None
        if rng.random() < 0.5:
            q.pop(rng.randrange(len(q)))
        else:
            q[rng.randrange(len(q))][2] += 5
        return r
    if o['rc'] or not o['rows']:
        return None
    z = rng.choice(o['rows'])
    y = rng.choice(['drop', 'feat', 'count'] + (['al'] if k != 'kn' else []))
    if y == 'drop':
        o['rows'].remove(z)
    elif y == 'feat':
        i = rng.randrange(len(z['feats']))
        if k == 'kn' and (z['feats'][i][0] not in ('lfreq', 'egfp', 'fgep') or z['c'] < 100000):
            return None
        z['feats'][i][1] += 10000
    elif y == 'count':
        z['c'] += 70
    else:
        z['al'].append([9, 9])
    return r

def run(c):
    c.build('forest-extractor', 'hiero-extractor', 'tree-converter', 'travatar')
    d = tempfile.mkdtemp(prefix='est-', dir=c.work)
    c.tv = tempfile.mkdtemp(prefix='home-', dir=c.work)
    home(c, c.tv)
    def runner(cs):
        def one(ix):
            i, x = ix
            w = tempfile.mkdtemp(dir=d)
            x = dict(x)
            try:
                st, out = RUN[x['kind']](c, x, w)
            except subprocess.TimeoutExpired:
                st, out = 'hang', ''
            if x['kind'] == 'train':
                x['corpus'] = [{k: v for k, v in y.items() if k in ('f', 'e', 'al', 'fe', 'ef')} for y in x['corpus']]
            return dict(st=st, out=out, **{'in': x})
        return c.pmap(one, list(enumerate(cs)))
    k = 1 if not c.thorough else 10
    c.conform('P33_cli', [lexcase(c.rng) for _ in range(250 * k)], runner=runner, diag='DiagLex', corrupt=corrupt, nontrivial=lambda x: len(x['corpus']) > 1, name='words')
    c.conform('P33_cli', [scorecase(c.rng) for _ in range(400 * k)], runner=runner, diag='DiagScore', corrupt=corrupt, nontrivial=lambda x: len(x['rows']) > 2, name='scores')
    c.conform('P33_cli', [kncase(c.rng) for _ in range(120 * k)], runner=runner, diag='DiagKn', corrupt=corrupt, name='discounts')
    c.conform('P33_cli', [traincase(c.rng) for _ in range(120 * k)], runner=runner, diag='DiagTrain', corrupt=corrupt, nontrivial=lambda x: len(x['corpus']) > 2, name='training')
