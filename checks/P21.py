"""P21: BLEU."""
import evalgen

def corrupt(r, rng):
    o = r['out']
    k = rng.randrange(3)
    if k == 0:
        p = rng.choice(o['per'])
        p['v'][0] += 1000
    elif k == 1:
        p = rng.choice(o['per'] + [o['tot']])
        p['ln'] += 20000 if p['ln'] > -500000000 else 1000000000
        if r['in']['o']['scope'] == 'sentence' and p is o['tot']:
            return None
    else:
        o['tot']['v'][1] += 1000
    return r

def cfg(o):
    s = ['order=%d' % o['order']]
    if o['smooth'] or o['x'] % 2:
        s.append('smooth=%g' % (o['smooth'] / 4))
    if o['prec'] != 10 or o['x'] % 3 == 0:
        s.append('prec=%g' % (o['prec'] / 10))
    if o['mean'] != 'geom' or o['x'] % 5 == 0:
        s.append('mean=' + o['mean'])
    if o['inverse'] or o['x'] % 7 == 0:
        s.append('inverse=' + str(o['inverse']).lower())
    if not o['brev'] or o['x'] % 2:
        s.append('brev=' + str(o['brev']).lower())
    if o['scope'] != 'corpus' or o['x'] % 3:
        s.append('scope=' + o['scope'])
    if o['factor']:
        s.append('factor=%d' % o['factor'])
    if o['x'] % 4 == 0:
        s.reverse()
    return 'bleu:' + ','.join(s) if o['x'] % 11 or len(s) > 1 or o['order'] != 4 else 'bleu'

def case(rng):
    o = dict(order=rng.choice([1, 2, 3, 4, 4, 4, 5]), smooth=rng.choice([0, 0, 4, 4, 2, 8, 1]), prec=rng.choice([10, 10, 10, 5, 0, 3, 8, 1, 9]),
             mean=rng.choice(['geom', 'geom', 'arith']), inverse=rng.random() < 0.2, brev=rng.random() < 0.8,
             scope=rng.choice(['corpus', 'corpus', 'sentence']), factor=rng.choice([0, 0, 0, 1]), x=rng.randrange(1000), wrap=rng.random() < 0.15)
    if o['mean'] == 'arith':
        o['order'] = min(o['order'], 3 if o['prec'] == 10 else 2)
    nf = o['factor'] + 1 + rng.choice([0, 0, 1])
    ps = []
    seen = []
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        V = rng.choice([1, 2, 3, 4])
        p = dict(r=[evalgen.sent(rng, V) for _ in range(nf)])
        p['s'] = [evalgen.near(rng, x, V) for x in p['r']]
        if seen and rng.random() < 0.3:
            p['r'] = rng.choice(seen)['r']
        if seen and rng.random() < 0.2:
            p['s'] = rng.choice(seen)['s']
        seen.append(p)
        ps.append(p)
    way = rng.choice([0, 1, 2, 3, 4] if not o['wrap'] else [1, 2] + ([0] if not o['factor'] else []))
    if way in (1, 2, 3, 4):
        # equal sentences may share a cache entry; numbers may change meaning once the cache is cleared
        ids = {}
        for p in ps:
            if ids and rng.random() < 0.15:
                p['clear'] = 1
                ids = {}
            for k, f in (('rid', 'r'), ('sid', 's')):
                if rng.random() < 0.85:
                    key = str(p[f][o['factor']])
                    if key not in ids:
                        ids[key] = rng.choice([x for x in range(20) if x not in ids.values()])
                    p[k] = ids[key]
    ev = cfg(o)
    if o['wrap']:            # inside a combined measure
        ev = 'interp:2|%s' % ev if o['x'] % 2 else 'ainterp:B|%s|B' % ev
    return dict(op='evalstat', eval=ev, o=o, pairs=ps, way=way, factor=o['factor'], scale=1000)

def run(c):
    n = 3000 if not c.thorough else 40000
    c.conform('P21_trace', [case(c.rng) for _ in range(n)], corrupt=corrupt, nontrivial=lambda x: any(p['s'][x['factor']] for p in x['pairs']))
