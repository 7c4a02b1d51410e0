"""P28: the rescorer on n-best lists."""
import os, subprocess, tempfile
import evalgen

def case(rng):
    mbr = rng.random() < 0.5
    hasW = rng.random() < 0.5
    ids, i = [], 0
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        ids.append(i); i += rng.choice([1, 1, 1, 2, 7])
    if rng.random() < 0.3:
        ids = [x + rng.choice([0, 1, 5]) for x in ids[:1]] + [x + 6 for x in ids[1:]]
    cnt = rng.choice([0, 0, 0, 1, 2, 3]) if mbr else 0
    scale = rng.choice([0, 1, 1, 2]) if mbr else 0
    unit = 4 if mbr else 1               # whole scores
    lines = []
    for i in ids:
        V = rng.choice([1, 2, 3])
        n = rng.choice([1, 1, 2, 3, 4, 6, 8])
        base = evalgen.sent(rng, V, lo=1, hi=6)
        span = {0: 9, 1: 7, 2: 3}[scale]
        off = rng.choice([0, 0, -9, -3, 5, -4000, 3000]) if mbr else rng.choice([0, -9, -3, 5])
        for k in range(n):
            if lines and lines[-1]['id'] == i and rng.random() < 0.2:
                w = rng.choice([l['w'] for l in lines if l['id'] == i])
            else:
                w = evalgen.near(rng, base, V, hi=7)
            if rng.random() < 0.05:
                w = []
            s = 4 * (off + rng.randint(0, span)) if mbr else rng.choice([4, 1]) * rng.randint(-9, 9)
            if hasW:
                # the score is a weighted sum: a whole number within the range for minimum Bayes risk
                if mbr:
                    f = [[0, 4 * (off + rng.randint(0, span))]]
                    if rng.random() < 0.5:
                        f.append([3, rng.randint(-8, 8) or 1])      # no weight
                else:
                    f = [[j, rng.choice([1, 2, 4, 4, -3, -4, 8, 12])] for j in range(4) if rng.random() < 0.5]
            else:
                f = [[j, rng.choice([1, 2, 4, -4, 6])] for j in range(3) if rng.random() < 0.4]
            if cnt:
                f.append([10 + k, 4])
            f = [x for x in f if x[1]]
            rng.shuffle(f)
            if lines and lines[-1]['id'] == i and rng.random() < 0.1 and not cnt:
                o = rng.choice([l for l in lines if l['id'] == i])
                w, s, f = o['w'], o['s'], o['f']
            lines.append(dict(id=i, w=w, s=s, f=f))
    weights = ([[0, 4]] + ([[5, 4]] if rng.random() < 0.3 else []) if mbr else [[j, rng.choice([-8, -4, -1, 1, 2, 4, 4])] for j in range(3) if rng.random() < 0.8]) if hasW else []
    m = dict(m='zeroone', inv=False); s = 'zeroone'
    if mbr:
        k = rng.choice(['wer', 'wer', 'zeroone', 'bleu'])
        if k == 'wer':
            inv = rng.random() < 0.7
            m = dict(m='wer', inv=inv); s = 'wer:reverse=true' if inv else 'wer'
        elif k == 'bleu':
            o = rng.choice([1, 2, 4]); sm = rng.choice([0, 4, 4])
            m = dict(m='bleu', order=o, scope='sentence', smooth=sm, prec=10, mean='geom', inverse=False, brev=True, inv=False)
            s = 'bleu:order=%d,scope=sentence,smooth=%g' % (o, sm / 4)
    return dict(lines=lines, hasW=hasW, weights=weights, mbr=mbr, cnt=cnt, scale=scale, m=m, eval=s, nbout=rng.random() < 0.85, stdin=rng.random() < 0.3)

def words(w):
    return ' '.join('w%d' % t for t in w)

def parsew(s):
    return [int(t[1:]) if t[:1] == 'w' and t[1:].isdigit() else -1 for t in s.split(' ') if t] if s else []

def runner_for(c, d):
    exe = c.build('rescorer')['rescorer']
    def one(ix):
        i, x = ix
        w = os.path.join(d, str(i)); os.makedirs(w, exist_ok=True)
        with open(os.path.join(w, 'nb'), 'w') as f:
            for l in x['lines']:
                f.write('%d ||| %s ||| %g ||| %s\n' % (l['id'], words(l['w']), l['s'] / 4, ' '.join('f%d=%g' % (k, v / 4) for k, v in l['f'])))
        if os.path.exists(os.path.join(w, 'out')):
            os.remove(os.path.join(w, 'out'))
        cmd = [exe]
        if not x['stdin']:
            cmd += ['-nbest', 'nb']
        if x['nbout']:
            cmd += ['-nbest_out', 'out']
        if x['hasW']:
            with open(os.path.join(w, 'wt'), 'w') as f:
                f.write(''.join('f%d=%g\n' % (k, v / 4) for k, v in x['weights']))
            cmd += ['-weight_in', 'wt']
        if x['mbr']:
            cmd += ['-mbr_eval', x['eval'], '-mbr_scale', '%.15g' % (x['scale'] * 0.6931471805599453)]
            if x['cnt']:
                cmd += ['-mbr_hyp_cnt', str(x['cnt'])]
        with open(os.path.join(w, 'nb')) as inp:
            p = subprocess.run(cmd, cwd=w, stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        t = p.stdout.decode('latin-1').split('\n')
        top = [parsew(l) for l in t[:-1]]
        nb = []
        if x['nbout'] and os.path.exists(os.path.join(w, 'out')):
            for l in open(os.path.join(w, 'out'), encoding='latin-1').read().split('\n')[:-1]:
                q = l.split(' ||| ')
                try:
                    fs = [[int(a[1:]), round(float(b) * 4)] for a, b in (z.split('=') for z in q[3].split(' ') if z)]
                    nb.append(dict(id=int(q[0]), w=parsew(q[1]), s=round(float(q[2]) * 1e6), f=fs))
                except Exception:
                    nb.append(dict(id=-1, w=[], s=0, f=[]))
        return dict(**{'in': x}, st='ok' if p.returncode >= 0 else 'crash', out=dict(rc=p.returncode, top=top, nbest=nb))
    return lambda cs: c.pmap(one, list(enumerate(cs)))

def corrupt(r, rng):
    o = r['out']
    k = rng.choice(['drop', 'dup', 'score', 'swap', 'top'])
    if k == 'top':
        if not o['top']:
            return None
        o['top'].pop(rng.randrange(len(o['top'])))
        return r
    if not r['in']['nbout'] or not o['nbest']:
        return None
    i = rng.randrange(len(o['nbest']))
    if k == 'drop':
        o['nbest'].pop(i)
    elif k == 'dup':
        o['nbest'].insert(i, o['nbest'][i])
    elif k == 'score':
        o['nbest'][i]['s'] += 100
    elif i + 1 < len(o['nbest']):
        a, b = o['nbest'][i], o['nbest'][i + 1]
        if a['s'] == b['s'] and a['id'] == b['id']:
            return None
        o['nbest'][i], o['nbest'][i + 1] = b, a
    return r

def run(c):
    c.model('RescoringRun', 'SPECIFICATION Spec\nCONSTANTS\nMaxLines = %d\nIds = {0, 1, 4}\nINVARIANTS Kept AsGroups\nPROPERTY Ends\n' % (7 if c.thorough else 5),
            'the file is taken apart into its lists, nothing lost', extra=('-deadlock',))
    d = tempfile.mkdtemp(prefix='nb-', dir=c.work)
    c.conform('P28_cli', [case(c.rng) for _ in range(900 if not c.thorough else 8000)], runner=runner_for(c, d), corrupt=corrupt,
              nontrivial=lambda x: len(x['lines']) > 1)
