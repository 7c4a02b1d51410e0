"""P18: tree transformations and the tree converter."""
import os, random, subprocess, tempfile
import treegen as T

LOWW = ['the', 'The', 'THE', 'dog', 'uS', 'US', 'été', 'Été', 'ÉTÉ', 'a', 'B', 'x', 'naïve', 'Öl']
CASEW = LOWW + ['.', ':', '!', '?', '(', '[', '"', "'", '`', '``', '.', '"', ',', '7', '日本']
SPLITW = ['a-b', 'a', 'a--b', '-', '--', '-a', 'a-', 'a/b-c', 'a-/b', 'x', 'b/c', 'a-b-c', '日-本', 'a-b']
COMPW = ['abcdef', 'abcsdef', 'abcesdef', 'abc', 'def', 'abcdefghi', 'xyzabc', 'abcabc', 'ab', 'abcd', 'defabcsdef', 'ghidef', 'abdef']
SUBW = ['abc', 'def', 'abcd', 'ef', 'ghi', 'abcdef', 'ab', 'cdef', 'sdef', 'esdef', 'xyz', 'abcdefghi', 'defghi', 'abcs', 'defabc']
PUNCTS = set(c for c in CASEW if not c.isalnum())

def cp(s):
    return [ord(c) for c in s]
def dec(sym):
    return cp(sym[1:].encode('latin-1').decode('utf8'))
def cg(g):
    g = dict(g)
    g['nodes'] = [dict(n, sym=dec(n['sym'])) for n in g['nodes']]
    g['words'] = [dec(w) for w in g['words']]
    return g

def regex(rng):
    seps = rng.choice([['-'], ['-'], ['/', '-'], ['/']])
    run = rng.random() < 0.5
    body = seps[0] if len(seps) == 1 else '[/-]' if rng.random() < 0.5 else '(-|/)'
    return dict(seps=[ord(x) for x in seps], run=run, re=body + ('+' if run else ''))

def case(rng, how):
    words = dict(split=SPLITW, compound=COMPW).get(how, CASEW)
    labs = T.PLAINL + ['NP-x', 'É']
    if how == 'flatten' or rng.random() < 0.5:
        t = T.tree(rng, nmax=7, labs=labs, words=words, pre=True if how in ('split', 'compound') else rng.random() < 0.7, unary=0.6 if how == 'flatten' else 0.3)
        g = T.graph(t, rng, scores=True)
    else:
        g, _ = T.forest(rng, labs=rng.sample(labs, 5), words=words, maxderivs=12, unary=0 if how in ('split', 'compound') else 0.3)
    x = dict(op='tree_transform', how=how, g=g)
    if how == 'split':
        x.update(regex(rng))
    elif how == 'compound':
        fillers = rng.choice([[''], ['s', ''], ['es', 's', ''], ['s', 'es', '']])
        us = {w: -rng.randint(2, 24) for w in rng.sample(SUBW, rng.randint(3, len(SUBW)))}
        thr = rng.choice([0.1, 0.01, 0.001])
        lm = ['\\data\\', 'ngram 1=%d' % (len(us) + 3), 'ngram 2=1', '', '\\1-grams:', '-9\t<unk>\t0', '-99\t<s>\t0', '-1.5\t</s>']
        lm += ['%g\t%s\t0' % (v / 4.0, k) for k, v in us.items()]
        lm += ['', '\\2-grams:', '-0.5\t<s> ' + next(iter(us)), '', '\\end\\', '']
        x.update(lm='\n'.join(lm), minchar=rng.choice([1, 2, 3, 3, 4]), threshold=thr, thr=dict([(0.1, -4), (0.01, -8), (0.001, -12)])[thr],
                 filler=':'.join(f for f in fillers if f), fillers=[cp(f) for f in fillers], unigrams=[[cp(k), v] for k, v in us.items()])
    else:
        x['model'] = [T.u8(w) for w in rng.sample(LOWW, rng.randint(0, 6))] if how == 'true' else []
    return x

def post(r):
    if r['st'] != 'ok':
        return r
    g = cg(r['in']['g'])
    g['edges'] = [dict(e, s=e['s'] * 1000 // g['den'], f=[[k, v * 1000 // g['den']] for k, v in e['f']]) for e in g['edges']]
    i = dict(r['in'], g=g)
    i.pop('lm', None)
    if 'model' in i:
        i['model'] = [dec("'" + m) for m in i['model']]
    return dict(r, out=dict(g=cg(r['out']['g'])), **{'in': i})

def corrupt(r, rng):
    g = r['out']['g']
    reach, todo = set(), [0]
    while todo:
        n = todo.pop()
        if n not in reach:
            reach.add(n)
            todo += [t for e in g['edges'] if e['h'] == n for t in e['t']]
    k = rng.choice(['sym', 'span', 'word', 'score'])
    n = g['nodes'][rng.choice(sorted(reach))]
    if k == 'sym':
        n['sym'] = n['sym'] + [120]
    elif k == 'span':
        n['e'] += 1
    elif k == 'word':
        g['words'][rng.randrange(len(g['words']))] = [65, 66]
    else:
        if r['in']['how'] == 'flatten':
            return None
        rng.choice([e for e in g['edges'] if e['h'] in reach])['s'] += 1
    return r

# ------------------------------------------------------------------ tree-converter
def clicase(rng):
    fmt = rng.choice(['penn', 'penn', 'rule', 'word'])
    ofmt = rng.choice(['penn', 'penn', 'rule', 'word'])
    opts = dict(split=rng.random() < 0.5, seps=[45], run=False, bin=rng.choice(['none', 'left', 'right', 'leftrp', 'rightrp']), flatten=rng.random() < 0.5,
                case=rng.choice(['none', 'low', 'title', 'true']), model=[])
    if opts['split']:
        x = regex(rng)
        opts.update(seps=x['seps'], run=x['run'], re=x['re'].replace('-', '[-]') if x['re'][0] == '-' else x['re'])
    words = ['a-b', 'The', 'dog', 'US', '.', ',', 'a', 'x/y', 'B-', 'the', 'Dog', '"']
    labs = ['S', 'NP', 'VP', '.', ',', 'NN', '$,']
    ts = [T.tree(rng, nmax=8, labs=labs, words=words, pre=True, arity=7) for _ in range(rng.randint(0, 3))]
    if opts['case'] == 'true':
        opts['modelw'] = rng.sample(['The', 'the', 'dog', 'Dog', 'us', 'A'], 3)
        opts['model'] = [cp(w) for w in opts['modelw']]
    if fmt == 'penn':
        text = ''.join((T.penn(t, rng) if rng.random() > 0.1 or ofmt != 'penn' or opts['split'] or opts['bin'] != 'none' else '()') + '\n' for t in ts)
    elif fmt == 'rule':
        text = ''.join(T.rule(t) + '\n' for t in ts)
    else:
        text = ''.join(' '.join(T.leaves(t)) + '\n' for t in ts)
    return dict(fmt=fmt, ofmt=ofmt, opts=opts, text=text, cs=cp(text), file=rng.random() < 0.5)

def clirunner(c, d):
    exe = c.build('tree-converter')['tree-converter']
    def one(ix):
        i, x = ix
        w = tempfile.mkdtemp(dir=d)
        o = x['opts']
        args = ['-input_format', x['fmt'], '-output_format', x['ofmt'], '-binarize', o['bin'], '-flatten', str(o['flatten']).lower()]
        if o['split']:
            args += ['-split', o['re']]
        if o['case'] == 'true':
            open(w + '/tc', 'w').write(''.join('%s (3/4)\n' % m for m in o['modelw']))
            args += ['-case', 'true:model=' + w + '/tc']
        else:
            args += ['-case', o['case']]
        if x['file']:
            open(w + '/in', 'w').write(x['text'])
            args.append(w + '/in')
        try:
            p = subprocess.run([exe] + args, input=b'' if x['file'] else x['text'].encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            out = dict(ok=p.returncode == 0, cs=list(p.stdout))
            st = 'ok'
        except subprocess.TimeoutExpired:
            out, st = dict(ok=False, cs=[]), 'hang'
        return dict(st=st, out=out, **{'in': dict(fmt=x['fmt'], ofmt=x['ofmt'], cs=x['cs'], opts={k: v for k, v in o.items() if k not in ('re', 'modelw')})})
    return lambda cs: c.pmap(one, list(enumerate(cs)))

def clicorrupt(r, rng):
    cs = r['out']['cs']
    ix = [i for i, ch in enumerate(cs) if chr(ch).isalpha()]
    if not ix:
        return None
    cs[rng.choice(ix)] += 1
    return r

def run(c):
    n = 400 if not c.thorough else 5000
    runner = lambda cs: [post(r) for r in c.drive(cs)]
    c.conform('P18_trace', [case(c.rng, h) for h in ('split', 'compound', 'flatten', 'low', 'title', 'true') for _ in range(n)], runner=runner, corrupt=corrupt,
              nontrivial=lambda x: len(x['g']['words']) > 1)
    d = tempfile.mkdtemp(prefix='tc-', dir=c.work)
    c.conform('P18_cli', [clicase(c.rng) for _ in range(n)], runner=clirunner(c, d), corrupt=clicorrupt, nontrivial=lambda x: len(x['cs']) > 10, name='tree-converter')
