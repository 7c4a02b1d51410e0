"""P05: inside-outside posteriors."""
import gen

def total(g, leaf):
    n = len(g['nodes'])
    tab = {}
    for h in range(n - 1, -1, -1):
        es = [e for e in g['edges'] if e['h'] == h]
        if leaf and not es:
            tab[h] = 1
            continue
        s = 0
        for e in es:
            p = e['w']
            for t in e['t']:
                p *= tab[t]
            s += p
        tab[h] = s
    return tab[0]

def corrupt(r, rng):
    p = r['out']['post']
    i = rng.randrange(len(p))
    p[i] = p[i] + 10 if p[i] < 9000 else p[i] - 10
    return r

def run(c):
    rng = c.rng
    cs = []
    while len(cs) < (1000 if not c.thorough else 10000):
        dom = rng.random() < 0.35
        leaf = rng.random() < 0.5
        g, nd = gen.span_forest(rng, maxwords=rng.choice([2, 3, 4, 5]), leaf=leaf, scores=(-6, 1), wmax=rng.choice([1, 2, 4]),
                                maxderivs=200, junk=True, density=rng.choice([0.5, 1]))
        if dom:
            k = rng.choice([1000, 300000])
            for e in g['edges']:
                e['s'] *= k
        elif total(g, leaf) > 20000:
            continue
        cs.append(dict(op='insideout', g=g, dom=int(dom), leaf=int(leaf)))
    c.conform('P05_trace', cs, corrupt=corrupt, nontrivial=lambda x: len(x['g']['edges']) > 2)
