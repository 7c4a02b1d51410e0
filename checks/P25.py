"""P25: forest envelopes."""
import gen

def corrupt(r, rng):
    o = r['out']
    k = rng.randrange(3)
    if k == 0 and len(o['lines']) > 1:
        o['lines'].pop(rng.randrange(len(o['lines'])))
    elif k == 1:
        o['lines'][0]['b'] -= 1
    else:
        o['hull'][0][2][0] += 7
    return r

def case(rng):
    nfeat = rng.choice([1, 2, 2, 3])
    nf = rng.choice([1, 1, 1, 2])
    gs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        while True:
            g, n = gen.forest(rng, maxnodes=rng.choice([1, 2, 3, 4, 5, 6]), maxedges=rng.choice([1, 2, 3]), maxtails=rng.choice([1, 2, 2, 3]), nfeat=nfeat, nf=nf, nw=2, deep=rng.random() < 0.5, maxderivs=40)
            if n:
                break
        gs.append(g)
    w = [[k, rng.choice([-2, -1, 1, 2])] for k in range(nfeat) if rng.random() < 0.8]
    g = [[k, rng.choice([-1, 1])] for k in range(nfeat) if rng.random() < 0.6]
    if rng.random() < 0.1:
        g = [[nfeat + 1, 1]]
    ref = [rng.randrange(2) for _ in range(rng.choice([1, 2, 3]))]
    return dict(op='foresthull', gs=gs, w=w, g=g, nf=nf, refs=[ref], eval=rng.choice(['wer', 'wer', 'zeroone']), active=rng.random() < 0.4, twice=rng.random() < 0.3)

def run(c):
    n = 2500 if not c.thorough else 30000
    c.conform('P25_trace', [case(c.rng) for _ in range(n)], corrupt=corrupt, nontrivial=lambda x: len(x['gs'][0]['edges']) > 2)
