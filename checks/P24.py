"""P24: n-best line search and tuning."""
INF = 100000

def corrupt(r, rng):
    o = r['out']
    op = r['in']['op']
    if op == 'gradrange':
        o[0] = o[0] + 30 if abs(o[0]) < 1e9 else 0
    elif op == 'merttune':
        o['score'] += rng.choice([-200, 200])
    else:
        k = rng.randrange(4)
        if k == 0:
            o['gain'] += 50
        elif k == 1:
            o['after'][0] -= 1
        elif k == 2 and o['hulls'] and o['hulls'][0]:
            o['hulls'][0].pop()
        else:
            o['before'][0] += 50
    return r

def hyp(rng, nf):
    fs = sorted(rng.sample(range(nf), rng.randint(0, nf)))
    d = rng.choice([1, 1, 2, 3])
    return dict(f=[[k, rng.choice([-2, -1, 1, 2])] for k in fs], v=rng.randint(0, d), d=d)

def lists(rng, nf, maxn=5):
    ls = [[hyp(rng, nf) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5, 6][:maxn + 3]))] for _ in range(rng.choice([1, 2, 2, 3]))]
    if not any(ls):
        ls[0].append(hyp(rng, nf))
    if rng.random() < 0.5:
        for l in ls:
            for h in l:
                h['d'] = 1; h['v'] = min(h['v'], 1)
    return ls

def vec(rng, nf, vals, p=0.7):
    return [[k, rng.choice(vals)] for k in range(nf) if rng.random() < p]

def rng_(rng):
    a = rng.choice([-INF, -INF, -9, -4, -2, -1, 0, 1, 3])
    b = rng.choice([INF, INF, 9, 4, 2, 1, 0, -1])
    return (a, b) if a <= b else (b, a)

def search(rng):
    nf = rng.choice([1, 2, 3])
    ls = lists(rng, nf)
    w = vec(rng, nf, [-3, -2, -1, 1, 2, 3])
    if rng.random() < 0.5:
        k = rng.randrange(nf); g = [[k, rng.choice([1, 1, -1, 2, 3])]]
    else:
        g = vec(rng, nf, [-1, 1])
    gd = dict(g); wd = dict(w)
    # hypotheses on the same line have the same statistics
    for l in ls:
        seen = {}
        for h in l:
            key = (sum(gd.get(k, 0) * v for k, v in h['f']), sum(wd.get(k, 0) * v for k, v in h['f']))
            h['v'], h['d'] = seen.setdefault(key, (h['v'], h['d']))
    lo, hi = rng_(rng)
    return dict(op='linesearch', lists=ls, w=w, g=g, lo=lo, hi=hi, norange=1 if rng.random() < 0.3 else 0)

def grange(rng):
    nf = rng.choice([1, 2, 3])
    a, b = rng_(rng)
    return dict(op='gradrange', w=vec(rng, nf, [-3, -2, -1, 1, 2, 3]), g=vec(rng, nf, [-2, -1, 0, 1, 2]), lo=a, hi=b)

def tune(rng):
    nf = rng.choice([1, 2, 3])
    ls = lists(rng, nf, 3)
    greedy = rng.random() < 0.4
    if greedy:
        for l in ls:
            for h in l:
                h['d'] = 1; h['v'] = min(h['v'], 1)
    if not any(h['f'] for l in ls for h in l):
        ls.append([dict(f=[[0, 1]], v=1, d=1), dict(f=[], v=0, d=1)])
    w = vec(rng, nf, [-2, -1, 1, 2])
    if rng.random() < 0.3:
        w = []
    rs = []
    if greedy and rng.random() < 0.6:
        for k in ([-1] if rng.random() < 0.4 else []) + [k for k in range(nf) if rng.random() < 0.5]:
            rs.append(dict(k=k, lo=rng.choice([-INF, -6, -4, -4]), hi=rng.choice([INF, 6, 4, 4])))
        if rng.random() < 0.3:
            k = rng.randrange(nf)
            rs = [x for x in rs if x['k'] != k] + [dict(k=k, lo=2 * dict(w).get(k, 0), hi=2 * dict(w).get(k, 0))]
    return dict(op='merttune', sl=2, tol=1, lists=ls, w=w, greedy=1 if greedy else 0, threads=rng.choice([0, 1, 2, 4]), rs=rs,
                dirs=rng.choice(['coord', 'coord', 'coord rand=2']))

def run(c):
    n = 3000 if not c.thorough else 30000
    c.conform('P24_trace', [search(c.rng) for _ in range(n)] + [grange(c.rng) for _ in range(n // 3)] + [tune(c.rng) for _ in range(n // 2)], corrupt=corrupt,
              nontrivial=lambda x: 'lists' in x and any(len(l) > 1 for l in x['lists']))
