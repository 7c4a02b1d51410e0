"""P27: mt-segmenter splits a corpus for the highest score."""
import os, resource, subprocess, tempfile
import evalgen

def case(rng):
    V = rng.choice([2, 3, 4, 6])
    nr = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])
    refs = [evalgen.sent(rng, V, hi=5) for _ in range(nr)]
    words = []
    k = rng.random()
    if k < 0.75:
        for r in refs:
            words += evalgen.near(rng, r, V, hi=6)
    else:
        words = evalgen.sent(rng, V) + evalgen.sent(rng, V)
    if not refs:
        words = []
    words = words[:12]
    m = rng.choice(['wer', 'wer', 'bleu'])
    o = dict(order=rng.choice([1, 2, 4]), smooth=rng.choice([0, 4, 4]), prec=10, mean='geom', inverse=False, brev=True)
    x = dict(m=m, rev=rng.random() < 0.8, o=o, slack=rng.choice([2, 4, 5, 6, 8, 8, 12]), refs=refs, words=words)
    x['cuts'] = sorted(rng.randint(0, len(words)) for _ in range(rng.choice([0, 0, 1, 3])))
    x['default'] = rng.random() < 0.3
    if x['default']:
        if m == 'bleu':
            o.update(order=4, smooth=4)
        x['slack'] = 8
    return x

def text(w):
    return ' '.join('w%d' % t for t in w)

def runner_for(c, d):
    exe = c.build('mt-segmenter')['mt-segmenter']
    def one(ix):
        i, x = ix
        w = os.path.join(d, str(i)); os.makedirs(w, exist_ok=True)
        with open(os.path.join(w, 'ref'), 'w') as f:
            f.write(''.join(text(r) + '\n' for r in x['refs']))
        with open(os.path.join(w, 'sys'), 'w') as f:
            b = [0] + x['cuts'] + [len(x['words'])]
            if x['words'] or x['cuts']:
                f.write(''.join(text(x['words'][b[k]:b[k + 1]]) + '\n' for k in range(len(b) - 1)))
        cmd = [exe, '-ref', 'ref']
        if not x['default']:
            cmd += ['-slack', '%g' % (x['slack'] / 4)]
        if x['m'] == 'wer':
            cmd += ['-eval', 'wer:reverse=true' if x['rev'] else 'wer']
        elif not x['default']:
            cmd += ['-eval', 'bleu:order=%d,smooth=%g' % (x['o']['order'], x['o']['smooth'] / 4)]
        try:
            p = subprocess.run(cmd + ['sys'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (1 << 31, 1 << 31)))
        except subprocess.TimeoutExpired:
            return dict(st='hang', out='', **{'in': x})
        err = p.stderr.decode('latin-1')
        if p.returncode and 'ERROR' not in err and 'what()' not in err:
            return dict(st='crash', out='rc %d: %s' % (p.returncode, err[-300:]), **{'in': x})
        if p.returncode:
            return dict(st='ok', out=dict(error=True, segs=[]), **{'in': x})
        lines = p.stdout.decode('latin-1').split('\n')
        if lines[-1] == '':
            lines.pop()
        segs = [[int(t[1:]) if t[:1] == 'w' and t[1:].isdigit() else -1 for t in l.split(' ')] if l else [] for l in lines]
        return dict(st='ok', out=dict(error=False, segs=segs), **{'in': x})
    return lambda cs: c.pmap(one, list(enumerate(cs)))

def corrupt(r, rng):
    o = r['out']
    if o['error']:
        o['error'] = False
        return r
    k = [i for i in range(len(o['segs']) - 1) if o['segs'][i]]
    if r['in']['m'] != 'wer' or not k or rng.random() < 0.3:
        if not o['segs']:
            return None
        o['segs'][0].append(1)
        return r
    if rng.random() < 0.5:
        o['error'] = True
        return r
    o['segs'].pop()
    return r

def run(c):
    for v, nr, rl, nw, s, rev in ((2, 2, 2, 4, 8, 'TRUE'), (2, 2, 2, 3, 4, 'FALSE')) + (((2, 2, 2, 5, 6, 'TRUE'), (2, 3, 2, 4, 8, 'TRUE'), (2, 3, 1, 5, 8, 'FALSE'), (3, 2, 2, 4, 8, 'TRUE')) if c.thorough else ()):
        c.model('SegmentModel', 'INIT Init\nNEXT Next\nCONSTANTS\nV = %d\nNRef = %d\nRefLen = %d\nNWord = %d\nSlack = %d\nRev = %s\nGreedy = FALSE\nINVARIANT Optimal\n' % (v, nr, rl, nw, s, rev),
                'all corpora of up to %d words, %d references: the plan is the best split' % (nw, nr))
    c.model('SegmentModel', 'INIT Init\nNEXT Next\nCONSTANTS\nV = 2\nNRef = 2\nRefLen = 2\nNWord = 3\nSlack = 8\nRev = TRUE\nGreedy = TRUE\nINVARIANT Optimal\n',
            'taking the best segment from the left is not', expect_violation='Optimal')
    n = 1500 if not c.thorough else 8000
    d = tempfile.mkdtemp(prefix='seg-', dir=c.work)
    c.conform('P27_cli', [case(c.rng) for _ in range(n)], runner=runner_for(c, d), corrupt=corrupt,
              nontrivial=lambda x: len(x['refs']) > 1 and len(x['words']) > 2, name='mt-segmenter')
