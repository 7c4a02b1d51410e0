"""P06: pruning to the n best."""
import gen

def corrupt(r, rng):
    g = r['out']['g']
    k = rng.choice(['s', 'f', 'node', 'root', 'nb'])
    if k == 's':
        rng.choice(g['edges'])['s'] += 1
    elif k == 'f':
        rng.choice(g['edges'])['f'].append([7, 1])
    elif k == 'node':
        g['nodes'].append(dict(g['nodes'][-1], id=len(g['nodes']), ed=[]))
    elif k == 'root':
        rng.choice(g['nodes'])['b'] += 1
    else:
        r['out']['nb'].pop()
    return r

def run(c):
    rng = c.rng
    cs = []
    for i in range(1000 if not c.thorough else 10000):
        g, nd = gen.forest(rng, maxnodes=rng.choice([3, 5, 7]), scores=rng.choice([(-4, 4), (-30, 30)]), den=rng.choice([1, 2, 10]),
                           deep=rng.random() < 0.5, maxderivs=120, nf=rng.choice([1, 2]))
        for k, e in enumerate(g['edges']):
            e['src'] = 'e%d' % k
        for k, n in enumerate(g['nodes']):
            n['b'] = rng.randint(0, 3)
            n['e'] = n['b'] + rng.randint(0, 3)
        g['words'] = [rng.randrange(5) for _ in range(rng.randint(0, 4))]
        cs.append(dict(op='trim', g=g, n=rng.choice([1, 1, 2, 3, 5, nd, nd + 1])))
    c.conform('P06_trace', cs, corrupt=corrupt, nontrivial=lambda x: len(x['g']['edges']) > 2)
