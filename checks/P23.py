"""P23: evaluation statistics: algebra, writing and reading, combination; mt-evaluator."""
import math, os, re, subprocess, tempfile, shutil
import evalgen

INT = ('clone', 'rw', 'plus', 'pluseq', 'times', 'timeseq', 'plustimes', 'sent')

def bleu(rng, scope=None):
    o = dict(m='bleu', order=rng.choice([1, 2, 3, 4]), scope=scope or rng.choice(['corpus', 'corpus', 'sentence']), smooth=rng.choice([0, 4]), prec=10,
             mean='geom', inverse=False, brev=True, inv=False)
    s = 'bleu:order=%d,scope=%s,smooth=%g' % (o['order'], o['scope'], o['smooth'] / 4)
    return o, s

def single(rng):
    k = rng.choice(['bleu', 'bleu', 'wer', 'zeroone', 'ribes', 'ter'])
    if k == 'bleu':
        return bleu(rng)
    inv = k in ('wer', 'ter') and rng.random() < 0.5
    return dict(m=k, inv=inv), k + ((':reverse=true' if k == 'wer' else ':inverse=true') if inv else '')

EXACT = lambda m: m['m'] in ('wer', 'zeroone') or (m['m'] == 'bleu' and m['scope'] == 'corpus')

def case(rng, kind):
    comb = dict(k='one')
    if kind == 'one':
        m, s = single(rng)
        ms, subs, ev = [m], [], s
    elif kind == 'interp':
        x = [single(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        ms, subs = [m for m, _ in x], [s for _, s in x]
        w = [rng.choice([1, 1, 2, 3]) for _ in ms]
        comb = dict(k='interp', w=w)
        ev = 'interp:' + '|'.join('%s|%s' % (rng.choice(['%g', '%.1f']) % a, b) for a, b in zip(w, subs))
    else:
        x = [single(rng) for _ in range(2)]
        ms, subs = [m for m, _ in x], [s for _, s in x]
        v = rng.sample('ABCXZ', 2)
        k, f = rng.choice([('mean', '(%s+%s)/2'), ('diff', '%s-%s'), ('prod', '%s*%s'), ('ratio', '%s/(%s+1)'), ('swap', '')])
        q = f % tuple(v) if f else '3*%s-2*%s' % (v[1], v[0])
        comb = dict(k=k)
        ev = 'ainterp:' + '|'.join('%s|%s' % (a, b) for a, b in zip(v, subs)) + '|' + q
    exact = all(EXACT(m) for m in ms)
    n = rng.choice([1, 2, 3])
    pairs = []
    for _ in range(n):
        V = rng.choice([1, 2, 3])
        r = evalgen.sent(rng, V, lo=1 if not exact else 0)
        pairs.append(dict(r=r, s=evalgen.near(rng, r, V)))
    nr = rng.choice([2, 3, 4])
    halves = [None] * nr          # how often the register was halved; None: empty
    pos = [True] * nr             # a sum of sentences with weights that are not negative
    size = [0] * nr
    ops = []
    for i in range(rng.choice([3, 6, 10, 14])):
        a = rng.randrange(nr)
        full = [j for j in range(nr) if halves[j] is not None]
        k = rng.choice(INT) if full else 'sent'
        if rng.random() < 0.35 and full:
            k = rng.choice(['eq', 'iszero', 'score'])
        if k == 'sent':
            ops.append(['sent', a, rng.randrange(n)]); halves[a], pos[a], size[a] = 0, True, 10
            continue
        b, c = rng.choice(full), rng.choice(full)
        # multipliers are given in halves; those that leave the common denominator do not
        mult = rng.choice([2, 2, 4, 6, 1, 3, 0, -2, 200] + ([200000] if exact else []))
        if k in ('times', 'timeseq', 'plustimes'):
            src = {'times': b, 'timeseq': a, 'plustimes': b}[k]
            if k in ('timeseq', 'plustimes') and halves[a] is None:
                continue
            if mult % 2 and halves[src] >= 5:
                continue
            ns = size[src] * abs(mult) / 2 + (size[a] if k == 'plustimes' else 0)
            if ns * (64 if exact else 100000) > (1.5e9 if exact else 5e8):
                continue
            h = halves[src] + mult % 2
            if k == 'plustimes':
                halves[a] = max(halves[a], h); pos[a] = pos[a] and pos[b] and mult >= 0
                ops.append([k, a, b, mult])
            else:
                halves[a] = h; pos[a] = pos[src] and mult >= 0
                ops.append([k, a, b, mult] if k == 'times' else [k, a, mult])
            size[a] = ns
        elif k in ('clone', 'rw'):
            ops.append([k, a, b]); halves[a], pos[a], size[a] = halves[b], pos[b], size[b]
        elif k == 'plus':
            ns = size[b] + size[c]
            if ns * (64 if exact else 100000) > (1.5e9 if exact else 5e8):
                continue
            ops.append([k, a, b, c]); halves[a], pos[a], size[a] = max(halves[b], halves[c]), pos[b] and pos[c], ns
        elif k == 'pluseq':
            if halves[a] is None:
                continue
            ns = size[a] + size[b]
            if ns * (64 if exact else 100000) > (1.5e9 if exact else 5e8):
                continue
            ops.append([k, a, b]); halves[a], pos[a], size[a] = max(halves[a], halves[b]), pos[a] and pos[b], ns
        elif k == 'eq':
            ops.append([k, b, c])
        elif k == 'iszero':
            ops.append([k, b])
        elif k == 'score' and pos[b] and size[b] > 0:
            ops.append([k, b])
    return dict(op='evalhist', eval=ev, ms=ms, subs=subs, comb=comb, pairs=pairs, nr=nr, ops=ops, scale=64 if exact else 100000)

def corrupt(r, rng):
    o = r['out']
    i = rng.randrange(len(o))
    k = r['in']['ops'][i][0]
    if k in ('eq', 'iszero'):
        o[i] = 1 - o[i]
        return r if r['in']['scale'] == 64 else None
    if k == 'score':
        if r['in']['subs']:
            o[i]['sc'] += 5000
            return r
        return None
    x = [v for v in o[i] if v]
    if k == 'sent' and r['in']['scale'] != 64:
        return None
    rng.choice(x)[0] += 1000
    return r

# ---------------------------------------------------------------------- mt-evaluator
def clicase(rng):
    n = rng.choice([1, 2, 3, 5])
    V = rng.choice([1, 2, 4])
    refs = [evalgen.sent(rng, V, lo=1) for _ in range(n)]
    boot = n >= 2 and rng.random() < 0.4
    files, names = [], []
    for f in range(rng.choice([1, 1, 2, 3])):
        if files and rng.random() < 0.2:
            x = list(rng.choice(files))
        else:
            x = [evalgen.near(rng, r, V) for r in refs]
        if rng.random() < 0.2:
            x = x[:rng.randrange(len(x) + 1)]
        elif rng.random() < 0.08:
            x = x + [[0]]
        files.append(x); names.append('out%d' % f)
    ms = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['bleu', 'bleu', 'wer', 'zeroone'])
        if k == 'bleu':
            m, s = bleu(rng, 'corpus')
            m.update(id='BLEU', eval=s)
        else:
            inv = k == 'wer' and rng.random() < 0.5
            m = dict(m=k, inv=inv, id=dict(wer='WER', zeroone='ZEROONE')[k], eval=k + (':reverse=true' if inv else ''))
        ms.append(m)
    return dict(refs=refs, files=files, names=names, ms=ms, sent=rng.random() < 0.3, boot=boot)

NUM = re.compile(r'^(\S+) = ([-+.\w]+)')
def score(s):
    m = NUM.match(s)
    if not m:
        return dict(id='?' + s[:40], v=0, ln=0)
    v = float(m.group(2))
    return dict(id=m.group(1), v=round(max(-1000, min(1000, v)) * 1e6), ln=round(math.log(v) * 1e6) if v > 0 else -2000000000)

def clirun(c, d):
    exe = c.build('mt-evaluator')['mt-evaluator']
    def one(ic):
        i, x = ic
        w = os.path.join(d, str(i)); os.makedirs(w, exist_ok=True)
        wr = lambda name, ss: open(os.path.join(w, name), 'w').write(''.join(' '.join('w%d' % t for t in s) + '\n' for s in ss))
        wr('ref', x['refs'])
        for n, f in zip(x['names'], x['files']):
            wr(n, f)
        cmd = [exe, '-ref', 'ref', '-eval', ' '.join(m['eval'] for m in x['ms'])] + (['-sent', 'true'] if x['sent'] else []) + (['-bootstrap', '20'] if x['boot'] else []) + x['names']
        p = subprocess.run(cmd, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        lines = p.stdout.decode('latin-1').split('\n')
        rows, sents, boots = [], [], []
        a = b = ''
        it = iter(lines[:-1] if lines and lines[-1] == '' else lines)
        inboot = False
        for l in it:
            if l == 'Bootstrap Resampling Significance:':
                inboot = True
                if rows and rows[-1]['raw'] == '':
                    rows.pop()
                continue
            if inboot:
                if l.startswith('  '):
                    e, t = l[2:].split('\t')
                    boots.append(dict(a=a, b=b, eval=e, wtl=[round(float(z) * 1000) for z in t.split(' ')]))
                elif l.startswith(' '):
                    b = l[1:]
                else:
                    a = l
                continue
            m = re.match(r'^(?:(\S+) )?Sent (\d+): (.*)$', l)
            if m:
                sents.append(dict(name=m.group(1) or '', i=int(m.group(2)), x=score(m.group(3))))
                continue
            cols = l.split('\t')
            name = ''
            if len(x['names']) > 1:
                name = cols.pop(0)
            rows.append(dict(name=name, failed=bool(cols) and cols[0].startswith('FAILED'), xs=[score(t) for t in cols], raw=l))
        return dict(**{'in': x}, st='ok', out=dict(rc=1 if p.returncode == 1 else 0 if p.returncode == 0 else 9, rows=rows, sents=sents, boots=boots))
    return c.pmap(one, list(enumerate(x for x in clirun.cases)))

def clicorrupt(r, rng):
    o = r['out']
    if not o['rows']:
        return None
    row = rng.choice(o['rows'])
    if row['failed']:
        row['failed'] = False
    else:
        x = rng.choice(row['xs'])
        x['v'] += 1000
        x['ln'] += 1000
        if x['ln'] < -1900000000:
            return None
    return r

def run(c):
    n = 3000 if not c.thorough else 40000
    c.conform('P23_trace', [case(c.rng, k) for k in ('one', 'interp', 'ainterp') for _ in range(n // 3)], corrupt=corrupt,
              nontrivial=lambda x: len(x['ops']) > 2)
    d = tempfile.mkdtemp(prefix='ev-', dir=c.work)
    def runner(cs):
        clirun.cases = cs
        return clirun(c, d)
    c.conform('P23_cli', [clicase(c.rng) for _ in range(300 if not c.thorough else 4000)], runner=runner, corrupt=clicorrupt, name='mt-evaluator')
