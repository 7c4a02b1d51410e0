"""P32: NIST."""
import evalgen

def corrupt(r, rng):
    o = r['out']
    p = rng.choice(o['per'] + [o['tot']])
    k = rng.randrange(3)
    if k == 0 and r['in']['o']['scope'] == 'corpus':
        p['c'][1] += 1000
    elif k == 1 and r['in']['o']['scope'] == 'corpus':
        p['v'][0] += 20
    else:
        p['ln'] += 3000 if p['ln'] > -500000000 else 2000000000
        p['sc'] += 400
    return r

def case(rng):
    o = dict(order=rng.choice([1, 2, 3, 4, 5, 5]), beta=rng.choice([42, 42, 10, 20, 0]), scope=rng.choice(['corpus', 'corpus', 'sentence']))
    s = []
    if o['order'] != 5 or rng.random() < 0.5:
        s.append('order=%d' % o['order'])
    s.append('beta=%g' % (o['beta'] / 10))
    if o['scope'] != 'corpus' or rng.random() < 0.5:
        s.append('scope=' + o['scope'])
    rng.shuffle(s)
    V = rng.choice([1, 2, 3, 5])
    ps = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        r = evalgen.sent(rng, V)
        ps.append(dict(r=[r], s=[evalgen.near(rng, r, V)]))
    inits = [[p['r'][0]] for p in ps] + [[evalgen.sent(rng, V)] for _ in range(rng.choice([0, 0, 1, 3]))]
    rng.shuffle(inits)
    ev = 'nist:' + ','.join(s)
    wrap = rng.random() < 0.2
    if wrap:
        ev = rng.choice(['interp:1|%s', 'ainterp:N|%s|N']) % ev
    return dict(op='evalstat', eval=ev, o=o, pairs=ps, inits=inits, way=rng.choice([0, 1, 2, 4] if not wrap else [0, 1, 2]), factor=0, scale=1000, nats=True)

def run(c):
    n = 2500 if not c.thorough else 30000
    c.conform('P32_trace', [case(c.rng) for _ in range(n)], corrupt=corrupt, nontrivial=lambda x: any(p['s'][0] and p['r'][0] for p in x['pairs']))
