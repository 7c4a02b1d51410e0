"""P17: binarization."""
import treegen as T

def forest(rng, mode):
    labs = ['S', 'A', 'B', '.', ',', '$,', 'C', 'B_1']
    k = rng.random()
    if k < 0.3:
        t = T.tree(rng, nmax=rng.choice([4, 8, 9]), labs=labs, words=['a', 'b', '.', ','], pre=rng.random() < 0.7, arity=9, unary=0.15, depth=3)
        g = T.graph(t, rng, scores=True)
    else:
        g, _ = T.forest(rng, maxwords=rng.choice([3, 4, 5]), labs=rng.sample(labs, 5), words=['a', 'b', '.'], maxderivs=60, arity=5)
    if rng.random() < 0.4:
        # another order of the edges
        rng.shuffle(g['edges'])
    # nodes with a key of their own, words never equal to labels
    seen = {}
    heads = set(e['h'] for e in g['edges'])
    for i, n in enumerate(g['nodes']):
        if i not in heads:
            n['sym'] = "'w" + n['sym'][1:]
        while (n['sym'], n['b'], n['e']) in seen:
            n['sym'] += 'x'
        seen[n['sym'], n['b'], n['e']] = 1
    return g

def corrupt(r, rng):
    g = r['out']['g']
    k = rng.choice(['s', 'f', 'span', 'drop', 'swap', 'sym'])
    if k == 's':
        rng.choice(g['edges'])['s'] += 250
    elif k == 'f':
        rng.choice(g['edges'])['f'].append(['h', 1])
    elif k == 'span':
        rng.choice(g['nodes'])['e'] += 1
    elif k == 'drop':
        g['words'] = g['words'][1:]
    elif k == 'sym':
        n = rng.choice(g['nodes'])
        n['sym'] += 'q'
    else:
        es = [e for e in g['edges'] if len(e['t']) == 2]
        if not es:
            return None
        e = rng.choice(es)
        e['t'] = e['t'][::-1]
    return r

def known(r, clauses):
    # pinned by a unit test: the exhaustive binarizer creates nodes in the order of the first edge
    if r['in']['mode'] == 'cky' and set(clauses) == {'root-first'} and (r['in']['g']['edges'][0]['h'] != 0 or len(r['in']['g']['edges'][0]['t']) > 2):
        return 'cky-root-not-first'
    return None

def run(c):
    n = 400 if not c.thorough else 4000
    cs = []
    for mode in ('left', 'right', 'leftrp', 'rightrp', 'cky'):
        for _ in range(n):
            cs.append(dict(op='tree_transform', how='bin:' + mode, mode=mode, g=forest(c.rng, mode)))
    c.conform('P17_trace', cs, corrupt=corrupt, known=known, nontrivial=lambda x: any(len(e['t']) > 2 for e in x['g']['edges']))
