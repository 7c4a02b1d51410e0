"""P26: online learners."""
def corrupt(r, rng):
    if r['in']['op'] == 'tuneonline':
        r['out']['w'][0] += 840
        return r
    for o in r['out']:
        if o:
            o[rng.randrange(len(o))] += rng.choice([-840, 840, 420])
            return r
    return None

def feats(rng, nk, lo=0):
    ks = rng.sample(range(nk), min(nk, rng.choice([0, 1, 1, 2, 2, 3]) + lo))
    return [[k, rng.choice([1, 2, 2, 4, -2, -1, 6, 3])] for k in ks]

def case(rng):
    kind = rng.choice(['perceptron', 'perceptron', 'perceptron', 'average', 'average', 'delayed', 'adagrad'])
    nk = rng.choice([1, 2, 3, 4])
    l1 = rng.choice([0, 1, 1, 2, 4, 8]) if kind == 'perceptron' else 0
    rate = rng.choice([1, 2, 4, 4, 8]) if kind in ('perceptron', 'adagrad') else 4
    margin = rng.choice([0, 0, 1, 2, 3])
    rs = []
    if kind in ('perceptron', 'average') and rng.random() < 0.5:
        ids = ([-1] if rng.random() < 0.5 else []) + [k for k in range(nk) if rng.random() < 0.4]
        rng.shuffle(ids)
        for k in ids:
            lo = rng.choice([-1000000000, -16, -8, -3, 0, 2])
            hi = rng.choice([1000000000, 16, 8, 5, 2, 0])
            if k == -1:
                lo = min(lo, 0)
            if lo > hi:
                lo = hi
            rs.append(dict(k=k, lo=lo, hi=hi))
    def rng_of(k):
        for r in rs:
            if r['k'] == k:
                return r['lo'], r['hi']
        for r in rs:
            if r['k'] == -1:
                return r['lo'], r['hi']
        return -1000000000, 1000000000
    init = []
    for k in range(nk):
        if rng.random() < 0.35:
            lo, hi = rng_of(k)
            v = max(lo, min(hi, rng.choice([8, 4, -8, 3, 1, -2, 16])))
            if v:
                init.append([k, v])
    ops = []
    for _ in range(rng.choice([1, 2, 4, 6, 9, 14])):
        x = rng.random()
        if x < 0.4:
            if rng.random() < 0.6:
                os, ss = rng.choice([(0, 1), (0, 0), (-2, 3)])
            else:
                os, ss = rng.choice([(1, 0), (2, 0), (4, 0), (0, 0)])
            oe, se = rng.choice([(1, 0), (2, 0), (1, 1), (0, 1), (3, 1)])
            ops.append(dict(t='upd', o=feats(rng, nk), s=feats(rng, nk), os=os, oe=oe, ss=ss, se=se))
        elif x < 0.5 and kind != 'delayed':
            n = rng.choice([1, 2, 3, 4])
            ops.append(dict(t='nbest', scores=[[rng.randint(-3, 3), rng.randint(0, 2)] for _ in range(n)], feats=[feats(rng, nk) for _ in range(n)]))
        elif x < 0.6:
            n = rng.choice([0, 1, 2, 2, 3, 4])
            l = [dict(w=rng.choice([[0], [1], [0, 1], []]), m=m, f=feats(rng, nk)) for m in sorted([rng.randint(-3, 3) for _ in range(n)], reverse=True)]
            ops.append(dict(t='adj', list=l, refs=[rng.choice([[0], [1], [0, 1]]) for _ in range(rng.choice([1, 1, 2]))]))
        elif x < 0.75:
            ops.append(dict(t=rng.choice(['get', 'get', 'cget']), k=rng.randrange(nk)))
        elif x < 0.88:
            ops.append(dict(t=rng.choice(['dot', 'score']), f=feats(rng, nk, 1)))
        else:
            ops.append(dict(t='final'))
    ops += [dict(t='get', k=k) for k in range(nk) if rng.random() < 0.3]
    ops.append(dict(t='final'))
    if rng.random() < 0.3:
        ops.append(dict(t='final'))
    return dict(op='learn', kind=kind, nk=nk, l1=l1, rate=rate, margin=margin, rs=rs, init=init, ops=ops, scale=1000 if kind == 'adagrad' else 6720)

def tune(rng):
    nk = rng.choice([1, 2, 3])
    n = rng.choice([1, 2, 3, 4])
    return dict(op='tuneonline', kind=rng.choice(['perceptron', 'avgperceptron']), nk=nk, rate=rng.choice([2, 4]), margin=rng.choice([0, 0, 1]),
                list=[dict(e=rng.choice([0, 0, 1]), f=feats(rng, nk)) for _ in range(n)], scale=6720)

def run(c):
    for l1 in (0, 1, 2):
        c.model('OnlineLazy', 'SPECIFICATION Spec\nCONSTANTS\nKeys = {1, 2}\nL1 = %d\nMaxT = %d\nStampNew = TRUE\nINVARIANT Refines\n' % (l1, 5 if c.thorough else 4),
                'lazy regularization (L1 %d) refines the eager rule for all histories' % l1)
    c.model('OnlineLazy', 'SPECIFICATION Spec\nCONSTANTS\nKeys = {1, 2}\nL1 = 1\nMaxT = 4\nStampNew = FALSE\nINVARIANT Refines\n',
            'without a time stamp for new weights it does not', expect_violation='Refines')
    n = 8000 if not c.thorough else 60000
    c.conform('P26_trace', [case(c.rng) for _ in range(n)], corrupt=corrupt, nontrivial=lambda x: len(x['ops']) > 3)
    c.conform('P26_trace', [tune(c.rng) for _ in range(n // 10)], corrupt=corrupt, nontrivial=lambda x: len(x['list']) > 1)
