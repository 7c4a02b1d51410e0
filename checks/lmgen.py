"""Random n-gram models (structure and ARPA text) and translation forests over strings."""
import rulegen
TRG = ['u', 'v', 'w', 'x']

def lm(rng, vocab=TRG, order=None, density=0.35, unk=True):
    order = order or rng.choice([2, 3, 3, 4])
    uni = ['<s>', '</s>'] + list(vocab)
    grams = {1: [(w,) for w in uni]}
    for n in range(2, order + 1):
        g = set()
        for h in grams[n - 1]:
            if h[-1] == '</s>':
                continue
            for w in uni:
                if w != '<s>' and rng.random() < density and (n == 2 or h[1:] + (w,) in grams[n - 1]):
                    g.add(h + (w,))
        grams[n] = sorted(g)
    while not grams[order]:
        order -= 1
    if order < 2:
        return lm(rng, vocab, None, 0.6, unk)
    g = []
    for n in range(1, order + 1):
        if n == 1 and unk:
            g.append(dict(w=["'<unk>"], p=-rng.randint(4, 20), b=0))
        for x in grams[n]:
            p = -396 if x == ('<s>',) else -rng.randint(1, 12)
            b = -rng.randint(0, 6) if n < order and x[-1] != '</s>' else 0
            if b and rng.random() < 0.1:
                b = -b
            g.append(dict(w=["'" + y for y in x], p=p, b=b))
    return dict(n=order, g=g)

def arpa(m):
    o = ['\\data\\']
    for n in range(1, m['n'] + 1):
        o.append('ngram %d=%d' % (n, sum(1 for x in m['g'] if len(x['w']) == n)))
    for n in range(1, m['n'] + 1):
        o += ['', '\\%d-grams:' % n]
        for x in m['g']:
            if len(x['w']) == n:
                l = '%.2f\t%s' % (x['p'] / 4, ' '.join(y[1:] for y in x['w']))
                if n < m['n'] and x['w'][-1] not in ("'</s>", "'<unk>"):
                    l += '\t%.2f' % (x['b'] / 4)
                o.append(l)
    return '\n'.join(o + ['', '\\end\\', ''])

def tforest(rng, maxnodes=5, maxtails=3, maxderivs=40, nf=1, oov=0.1, vocab=TRG, names=('f1', 'f2')):
    """translation forest with unique source strings on the edges"""
    while True:
        n = rng.randint(1, maxnodes)
        edges = []
        for h in range(n):
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                av = list(range(h + 1, n))
                k = min(len(av), rng.choice([0, 1, 1, 2, 2, 3, 3]), maxtails)
                t = sorted(rng.sample(av, k))
                if rng.random() < 0.2:
                    rng.shuffle(t)
                if k == 2 and rng.random() < 0.1:
                    t[1] = t[0]
                trg = []
                for _f in range(nf):
                    w = ['x%d' % i for i in range(k)]
                    rng.shuffle(w)
                    for _w in range(rng.choice([0, 0, 1, 1, 2]) if k else rng.choice([0, 1, 1, 2, 3])):
                        w.insert(rng.randint(0, len(w)), "'" + (rng.choice(['zz', '"', 'y']) if rng.random() < oov else rng.choice(vocab)))
                    trg.append(dict(w=w, l='-', y=[]))
                edges.append(dict(h=h, t=t, s=rng.randint(-12, 6), trg=trg, src='e%d' % len(edges),
                                  f=sorted([x, rng.choice([-3, -2, -1, 1, 2])] for x in names if rng.random() < 0.5)))
        cnt = {}
        for h in range(n - 1, -1, -1):
            c = 0
            for e in edges:
                if e['h'] == h:
                    p = 1
                    for t in e['t']:
                        p *= cnt[t]
                    c += p
            cnt[h] = c
        if max(cnt.values()) <= 2 * maxderivs and cnt[0] <= maxderivs:
            break
    return dict(nodes=[dict(sym="'N%d" % (i % 3), b=rng.randint(0, 2), e=rng.randint(3, 5)) for i in range(n)], edges=edges, den=4,
                words=["'a"] * 5), cnt[0]
