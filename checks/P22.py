"""P22: WER, TER, zero-one, RIBES."""
import evalgen

def corrupt(r, rng):
    o = r['out']
    k = rng.randrange(3)
    p = rng.choice(o['per'])
    m = r['in']['o']['m']
    if k == 0:
        if m == 'ribes':
            p['ln'] += 100 if p['ln'] > -500000000 else 1500000000
        elif m == 'ter':
            return None
        else:
            p['v'][0] += 1000
    elif k == 1:
        p['sc'] += 1000
    else:
        o['tot']['v'][1] += 1000
    return r

def cfg(rng, o):
    s = []
    if o['m'] in ('wer', 'ter') and (o['inv'] or rng.random() < 0.3):
        s.append(('reverse=' if o['m'] == 'wer' else 'inverse=') + str(o['inv']).lower())
    if o['m'] == 'ribes':
        if o['alpha'] != 25 or rng.random() < 0.3:
            s.append('alpha=%g' % (o['alpha'] / 100))
        if o['beta'] != 10 or rng.random() < 0.3:
            s.append('beta=%g' % (o['beta'] / 100))
    if o['factor']:
        s.append('factor=%d' % o['factor'])
    rng.shuffle(s)
    return o['m'] + (':' + ','.join(s) if s else rng.choice(['', ':']))

def block(rng, s, n=1):
    s = list(s)
    for _ in range(n):
        if len(s) > 1:
            i = rng.randrange(len(s)); j = rng.randint(i + 1, len(s))
            b = s[i:j]; del s[i:j]
            p = rng.randint(0, len(s))
            s[p:p] = b
    return s

def case(rng, m):
    o = dict(m=m, inv=m in ('wer', 'ter') and rng.random() < 0.3, alpha=rng.choice([25, 25, 100, 0, 50]), beta=rng.choice([10, 10, 0, 30, 100]),
             factor=rng.choice([0, 0, 0, 1]) if m != 'zeroone' else 0)
    nf = o['factor'] + 1 + rng.choice([0, 0, 1])
    big = m != 'ribes' and rng.random() < 0.15
    ps = []
    for i in range(1 if big else rng.choice([1, 2, 3, 5])):
        V = rng.choice([1, 2, 3, 4, 6]) if not big else rng.choice([3, 6, 12])
        p = dict(r=[], s=[])
        for f in range(nf):
            if f != o['factor']:
                p['r'].append(evalgen.sent(rng, V)); p['s'].append(evalgen.sent(rng, V))
                continue
            if big:
                r = [rng.randrange(V) for _ in range(rng.randint(15, 45))]
                s = evalgen.near(rng, block(rng, r, rng.choice([0, 1, 2])), V, hi=50)
                if rng.random() < 0.2:
                    s = [rng.randrange(V) for _ in range(rng.randint(1, 45))]
            else:
                r = evalgen.sent(rng, V)
                if m == 'ter' and rng.random() < 0.4:
                    r = list(range(rng.randint(2, 9))); rng.shuffle(r)
                s = block(rng, r, rng.choice([1, 1, 2])) if rng.random() < (0.4 if m == 'ter' else 0.15) else evalgen.near(rng, r, V)
            p['r'].append(r); p['s'].append(s)
        if ps and rng.random() < 0.25:
            q = rng.choice(ps)
            p = dict(r=q['r'], s=q['s'])
        ps.append(p)
    rng.shuffle(ps)
    return dict(op='evalstat', eval=cfg(rng, o), o=o, pairs=ps, way=rng.choice([0, 1, 2, 4]), factor=o['factor'], scale=1000)

def run(c):
    n = 3000 if not c.thorough else 40000
    c.conform('P22_trace', [case(c.rng, m) for m in ('wer', 'zeroone', 'ribes', 'ribes', 'ter', 'ter') for _ in range(n // 6)], corrupt=corrupt,
              nontrivial=lambda x: any(p['s'][x['factor']] and p['r'][x['factor']] for p in x['pairs']))
