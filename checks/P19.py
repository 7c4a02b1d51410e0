"""P19: sparse vectors as functions, over histories of operations."""

def corrupt(r, rng):
    idx = [i for i, o in enumerate(r['out']) if isinstance(o, int) or o]
    if not idx:
        return None
    i = rng.choice(idx)
    if isinstance(r['out'][i], int):
        r['out'][i] += 1
    else:
        p = rng.choice(r['out'][i])
        p[1] += 3 if r['in']['ops'][i][0] != 'mnorm' else 3000
    return r

def history(rng):
    den = rng.choice([1, 1, 4, 1000])
    nf = 6
    lim = 20 if den < 1000 else 400
    ops = []
    mag = lambda: rng.choice([-2, -1, -1, 0, 1, 1, 2, 3, rng.randint(-lim, lim)])
    R = lambda: rng.randrange(3)
    nops = rng.randint(3, 14)
    if rng.random() < 0.6:
        # start with every register filled, densely or sparsely
        pv = rng.choice([0.3, 0.6, 0.9])
        for r in range(3):
            ops.append(['new', r, [[f, mag()] for f in range(nf) if rng.random() < pv]])
        for r in range(3):
            ops.append(['tomap', r, rng.randrange(3)])
        nops += 6
    grow = 0
    while len(ops) < nops:
        k = rng.choice(['new', 'new', 'add', 'add', 'pluseq', 'minuseq', 'plus', 'minus', 'scale', 'dot', 'eq', 'eq', 'text', 'tomap', 'mpluseqv',
                        'mminuseqv', 'mplusv', 'mminusv', 'mpluseq', 'mminuseq', 'mplus', 'mminus', 'mscale', 'mdot', 'mdotv', 'meq', 'mtext', 'mnorm'])
        if k == 'new':
            n = rng.choice([0, 1, 2, 3, 4, 5, 6])
            ops.append([k, R(), [[rng.randrange(nf), mag()] for _ in range(n)]])
        elif k == 'add':
            ops.append([k, R(), rng.randrange(nf), mag()])
        elif k in ('plus', 'minus', 'mplusv', 'mminusv', 'mplus', 'mminus'):
            ops.append([k, R(), R(), R()])
        elif k in ('scale', 'mscale'):
            grow += 1
            ops.append([k, R(), R(), rng.choice([-2, -1, 0, 1, 2, 3] if grow < 3 else [-1, 0, 1])])
        elif k == 'mnorm':
            ops.append([k, R(), rng.choice([1, 2, 5])])
        elif k in ('text', 'mtext', 'tomap', 'eq', 'meq', 'dot', 'mdot', 'mdotv') or True:
            ops.append([k, R(), R()])
    if den == 1000:
        ops = [o for o in ops if o[0] not in ('dot', 'mdot', 'mdotv', 'mnorm', 'text', 'mtext')] or [['eq', 0, 1]]
    return dict(op='sparse', nv=3, nm=3, den=den, ops=ops)

def run(c):
    gen = c.generate('SparseGen', 'INIT Init\nNEXT Next\nINVARIANTS Commutes Inverts Linear\nCONSTANTS NF = 2 Depth = %d Vals = {0, 1, 3}\n'
                     % (2 if not c.thorough else 3), 'algebraic laws; enumeration of histories')
    cs = [dict(op='sparse', nv=2, nm=2, den=1, ops=h) for h in gen]
    if c.thorough:
        c.rng.shuffle(cs)
        cs = cs[:30000]
    for _ in range(2500 if not c.thorough else 30000):
        cs.append(history(c.rng))
    c.conform('P19_trace', cs, corrupt=corrupt, nontrivial=lambda x: len(x['ops']) > 2, const='NF = 6')
