"""P04: evaluation of derivations (score, features, translation)."""
import gen

def corrupt(r, rng):
    nb = r['out']['nb']
    k = rng.choice(['s', 'f', 'trg', 'es'])
    x = rng.choice(nb)
    if k == 's':
        x['s'] += 1
    elif k == 'f':
        if not x['f']:
            x['f'] = [[0, 1]]
        else:
            x['f'][0][1] += 1 if x['f'][0][1] != -1 else 2
    elif k == 'trg':
        t = rng.choice(x['trg'])
        if t:
            t.pop()
        else:
            t.append(0)
    else:
        i = rng.randrange(len(r['out']['es']))
        r['out']['es'][i] += 1
    return r

def run(c):
    rng = c.rng
    cs = []
    for i in range(1500 if not c.thorough else 15000):
        nf = rng.choice([1, 1, 2, 3])
        g, nd = gen.forest(rng, maxnodes=rng.choice([3, 5, 8]), maxtails=3, scores=(0, 0), nf=nf, nw=rng.choice([2, 5]), nfeat=4,
                           deep=rng.random() < 0.7, trgvars=rng.choice(['all', 'some']), maxderivs=400)
        if rng.random() < 0.3:   # rules with fewer target factors than are asked for
            for e in g['edges']:
                if rng.random() < 0.3:
                    e['trg'] = e['trg'][:rng.randint(0, nf)]
        w = [[k, rng.randint(-4, 4)] for k in range(4) if rng.random() < 0.8]
        cs.append(dict(op='nbest', g=g, n=rng.choice([1, 3, 10]), uniq=rng.choice([0, 0, 0, 1]), nf=nf, w=w))
    c.conform('P04_trace', cs, corrupt=corrupt, nontrivial=lambda x: len(x['g']['edges']) > 2)
