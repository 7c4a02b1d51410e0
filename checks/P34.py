"""P34: the rule extraction programs."""
import json, math, os, subprocess, tempfile
import ghkmgen, treegen

def trgtree(rng, words):
    """a tree over the words: its text and its nodes (b, e, label), from the top"""
    nodes = []
    lab = lambda: rng.choice(['A', 'B', 'NP', 'VP'])
    def go(b, e):
        l = lab()
        nodes.append([b, e, l])
        if e - b == 1:
            if rng.random() < 0.2:
                l2 = lab(); nodes.append([b, e, l2])
                nodes.append([b, e, words[b]])
                return '(%s (%s %s))' % (l, l2, words[b])
            nodes.append([b, e, words[b]])
            return '(%s %s)' % (l, words[b])
        k = min(e - b, rng.choice([2, 2, 3]))
        p = [b] + sorted(rng.sample(range(b + 1, e), k - 1)) + [e]
        return '(%s %s)' % (l, ' '.join(go(p[i], p[i + 1]) for i in range(k)))
    return go(0, len(words)), nodes

def prune(g):
    out = {}
    for e in g['edges']:
        out.setdefault(e['h'], []).append(e)
    reach, todo = {0}, [0]
    while todo:
        for e in out.get(todo.pop(), []):
            for t in e['t']:
                if t not in reach:
                    reach.add(t); todo.append(t)
    keep = [i for i in range(len(g['nodes'])) if i in reach]
    num = {v: k for k, v in enumerate(keep)}
    g['nodes'] = [g['nodes'][i] for i in keep]
    g['edges'] = [dict(e, h=num[e['h']], t=[num[t] for t in e['t']]) for e in g['edges'] if e['h'] in num]
    return g

def pennof(g):
    out = {e['h']: e['t'] for e in g['edges']}
    def go(v):
        n = g['nodes'][v]['sym'][1:]
        return n if v not in out else '(%s %s)' % (n, ' '.join(go(t) for t in out[v]))
    return go(0)

def egretof(g, k):
    """children first; the words' occurrences are known by their parents"""
    name = lambda v: g['nodes'][v]['sym'][1:]
    inner = {e['h'] for e in g['edges']}
    sym = lambda v: '%s[%d,%d]' % (name(v), g['nodes'][v]['b'], g['nodes'][v]['e'] - 1) if v in inner else name(v)
    r = 'sentence %d :\n%s\n' % (k, ' '.join(w[1:] for w in g['words']))
    return r + ''.join('%s => %s ||| %.8f\n' % (sym(e['h']), ' '.join(map(sym, e['t'])), -1.5) for e in reversed(g['edges'])) + '\n'

def jsonof(g):
    return json.dumps(dict(nodes=[dict(id=i, sym=n['sym'][1:], span=[n['b'], n['e']]) for i, n in enumerate(g['nodes'])],
                           edges=[dict(id=i, head=e['h'], tails=e['t'], score=e['s'] * math.log(2)) for i, e in enumerate(g['edges'])], words=[w[1:] for w in g['words']]))

def ghkm(rng):
    attach = rng.choice(['top', 'top', 'exhaustive', 'none'])
    o = dict(compose=rng.choice([1, 1, 2, 3, 4, 5]), lex=rng.choice([-1, -1, 0, 0, 1, 2]), attach={'exhaustive': 'exh'}.get(attach, attach), att=rng.choice([0, 1, 1, 2]), nt=rng.choice([0, 1, 2, 2, 3, 5]),
             term=rng.choice([0, 1, 2, 3, 10, 10]), norm=rng.random() < 0.4, thresh=0, count=rng.random() < 0.15, binarize=rng.choice(['none', 'right', 'left']))
    fmt = rng.choice(['json', 'penn', 'penn', 'egret'])
    forest = fmt != 'penn' and rng.random() < 0.7
    if fmt == 'egret':
        o['norm'] = o['norm'] and not forest
    if fmt != 'penn':
        o['binarize'] = 'none'
    if o['norm'] and rng.random() < 0.5:
        o['thresh'] = rng.choice([3, 101, 373, 611])
    tf = rng.random() < 0.3
    sents = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        while True:
            g, nd = treegen.forest(rng, maxwords=4 if forest or o['attach'] == 'exh' else 5, tree=not forest, maxderivs=8 if forest else 1, unary=rng.choice([0.1, 0.3]))
            if len(g['edges']) <= 16:
                break
        n = len(g['words'])
        m = rng.choice([n, n, max(1, n - 1), n + 1, rng.randint(0, 5)])
        if tf:
            m = max(m, 1)
        for e in g['edges']:
            e['s'] = rng.choice([0, 0, 0, 1]) if fmt == 'json' else 0
        if fmt == 'egret':
            # every rule of a node the same, one, two or four of them
            cnt = {}
            for e in g['edges']:
                cnt[e['h']] = cnt.get(e['h'], 0) + 1
            if any(v == 3 for v in cnt.values()):
                g['edges'] = [e for i, e in enumerate(g['edges']) if cnt[e['h']] != 3 or e['h'] not in {f['h'] for f in g['edges'][:i]}]
                g = prune(g)
                cnt = {}
                for e in g['edges']:
                    cnt[e['h']] = cnt.get(e['h'], 0) + 1
            for e in g['edges']:
                e['s'] = -{1: 0, 2: 1, 4: 2}[cnt[e['h']]]
        words = [treegen.u8(rng.choice(treegen.PLAINW + ['x', 'é'])) for _ in range(m)]
        y = dict(g=g, names=[v['sym'][1:] for v in g['nodes']], align=ghkmgen.align(rng, n, m), words=words, tnodes=[])
        y['parsed'] = rng.random() > 0.04
        if y['parsed']:
            y['src'] = pennof(g) if fmt == 'penn' else jsonof(g) if fmt == 'json' else egretof(g, len(sents) + 1)
        else:
            y['src'] = rng.choice(['', '()']) if fmt == 'penn' else '' if fmt == 'json' else 'sentence 7 :\n%s\n\n\n' % ' '.join(w[1:] for w in g['words'])
        if tf:
            y['trg'], y['tnodes'] = trgtree(rng, words)
        else:
            y['trg'] = ' '.join(words)
        sents.append(y)
    return dict(kind='ghkm', o=o, fmt=fmt, tf=tf, attach=attach, sents=sents, bad=rng.random() < 0.05, longer=rng.choice([[0], [1], [2], [0, 1], [0, 2], [1, 2]]))

def write(d, x):
    for k, (n, f) in enumerate((('src', lambda y: y['src']), ('trg', lambda y: y['trg']), ('al', lambda y: ' '.join('%d-%d' % tuple(a) for a in y['align'])))):
        q = [f(y) for y in x['sents']]
        if x['bad'] and k in x['longer']:
            q.append(q[-1])
        with open(os.path.join(d, n), 'wb') as g:
            g.write(''.join(l if x.get('fmt') == 'egret' and k == 0 else l + '\n' for l in q).encode('latin-1'))

def ghkmrun(c, x, d):
    write(d, x)
    o = x['o']
    cmd = [c.bins['forest-extractor'], '-input_format', x['fmt'], '-binarize', o['binarize'], '-compose', str(o['compose']), '-attach', x['attach'], '-attach_len', str(o['att']),
           '-nonterm_len', str(o['nt']), '-term_len', str(o['term']), '-normalize_probs', str(o['norm']).lower()]
    if o['lex'] >= 0:
        cmd += ['-src_lex_len', str(o['lex'])]
    if o['thresh']:
        cmd += ['-partial_count_thresh', '%g' % (o['thresh'] / 1000)]
    if o['count']:
        cmd += ['-count_rules', 'true']
    if x['tf']:
        cmd += ['-output_format', 'penn']
    p = subprocess.run(cmd + ['src', 'trg', 'al'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    err = p.stderr.decode('latin-1')
    if p.returncode and 'ERROR' not in err and 'what()' not in err:
        return 'crash', 'rc %d: %s' % (p.returncode, err[-300:])
    lines, counts = [], []
    for l in p.stdout.decode('latin-1').split('\n')[:-1]:
        if o['count']:
            counts.append(int(l) if l.isdigit() else -1)
            continue
        f = l.split(' ||| ')
        if len(f) == 4:
            lines.append(dict(text=' ||| '.join([f[0], f[1], f[3]]), p=min(2 ** 30, round(float(f[2]) * 10000))))
        else:
            lines.append(dict(text=l, p=-1))
    return 'ok', dict(rc=p.returncode, lines=lines, counts=counts)

def hiero(rng):
    import P15
    sents = []
    x = P15.case(rng)
    o = dict(maxphrase=x['maxphrase'], maxterm=x['maxterm'])
    for k in range(rng.choice([1, 2, 3])):
        y = P15.case(rng)
        sents.append(dict(s=y['src'], t=y['trg'], align=y['align'], src=' '.join(y['src']), trg=' '.join(y['trg'])))
    return dict(kind='hiero', o=o, sents=sents, default=rng.random() < 0.1, bad=rng.random() < 0.05, longer=rng.choice([[0], [1], [2], [0, 1], [0, 2], [1, 2]]))

def hierorun(c, x, d):
    write(d, x)
    cmd = [c.bins['hiero-extractor']]
    if not x['default']:
        cmd += ['-max_initial_phrase', str(x['o']['maxphrase']), '-max_terminals', str(x['o']['maxterm'])]
    p = subprocess.run(cmd + ['src', 'trg', 'al'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    err = p.stderr.decode('latin-1')
    if p.returncode and 'ERROR' not in err and 'what()' not in err:
        return 'crash', 'rc %d: %s' % (p.returncode, err[-300:])
    lines = []
    for l in p.stdout.decode('latin-1').split('\n')[:-1]:
        f = l.split(' ||| ')
        if len(f) == 4:
            lines.append(dict(text=f[0] + ' ||| ' + f[1], links=[[int(v) for v in a.split('-')] for a in f[3].split()], p=round(float(f[2]) * 100000)))
        else:
            lines.append(dict(text=l, links=[], p=-1))
    return 'ok', dict(rc=p.returncode, lines=lines)

def corrupt(r, rng):
    o = r['out']
    if r['in']['bad']:
        o['rc'] = 0
        return r
    if r['in']['o'].get('count'):
        o['counts'][0] += 1
        return r
    if not o['lines']:
        return None
    i = rng.randrange(len(o['lines']))
    k = rng.choice(['drop', 'dup', 'p', 'text'])
    if k == 'drop':
        o['lines'].pop(i)
    elif k == 'dup':
        o['lines'].append(o['lines'][i])
    elif k == 'p':
        o['lines'][i]['p'] += 50
    else:
        o['lines'][i]['text'] += '1'
    return r

RUN = dict(ghkm=ghkmrun, hiero=hierorun)

def run(c):
    c.build('forest-extractor', 'hiero-extractor')
    d = tempfile.mkdtemp(prefix='ext-', dir=c.work)
    def runner(cs):
        def one(ix):
            i, x = ix
            w = os.path.join(d, str(i)); os.makedirs(w, exist_ok=True)
            try:
                st, out = RUN[x['kind']](c, x, w)
            except subprocess.TimeoutExpired:
                st, out = 'hang', ''
            x = dict(x, sents=[{k: v for k, v in y.items() if k not in ('src', 'trg')} for y in x['sents']])
            return dict(st=st, out=out, **{'in': x})
        return c.pmap(one, list(enumerate(cs)))
    k = 1 if not c.thorough else 8
    c.conform('P34_ghkm', [ghkm(c.rng) for _ in range(2000 * k)], runner=runner, diag='DiagFile', corrupt=corrupt, nontrivial=lambda x: len(x['sents'][0]['align']) > 1, name='forest-extractor')
    c.conform('P34_hiero', [hiero(c.rng) for _ in range(1500 * k)], runner=runner, diag='DiagFile', corrupt=corrupt, nontrivial=lambda x: len(x['sents'][0]['align']) > 1, name='hiero-extractor')
