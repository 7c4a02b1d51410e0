"""P10: decoding with a synchronous grammar and an integrated language model."""
import cfggen, lmgen

def nderivs(rules, words, root, cap):
    """number of derivations of the grammar (generator's size bound only)"""
    n = len(words)
    from functools import lru_cache
    vec = cfggen.vec
    @lru_cache(None)
    def item(b, e, l):
        return sum(seq(i, 0, b, e) for i, r in enumerate(rules) if vec(r) == l)
    @lru_cache(None)
    def seq(i, k, p, e):
        w = rules[i]['src']['w']
        if k == len(w):
            return int(p == e)
        if e - p < len(w) - k:
            return 0
        if w[k][0] != 'x':
            return seq(i, k + 1, p + 1, e) if words[p] == w[k] else 0
        l = vec(rules[i], int(w[k][1:]))
        t = 0
        for q in range(p + 1, e + 1):
            s = seq(i, k + 1, q, e)
            if s:
                t += s * item(p, q, l)
        return t
    labs = {vec(r) for r in rules}
    return item(0, n, root), max([item(b, e, l) for b in range(n) for e in range(b + 1, n + 1) for l in labs] or [0])

def case(rng, empty=False):
    nf = rng.choice([1, 1, 1, 2])
    while True:
        words = cfggen.sentence(rng, 5)
        rs = cfggen.grammar(rng, words, rng.choice([2, 4, 8, 12]), nf, other=0.08, unary=0.2, names=('f1', 'f2'), trgwords=lmgen.TRG)
        if rng.random() < 0.7:
            for w in sorted(set(words)):
                rs.append(cfggen.rule(rng, rng.choice(cfggen.NT[:3]), [w], nf, other=0, trgwords=lmgen.TRG))
        if not rs or cfggen.cyclic(rs):
            continue
        # targets without words
        for r in rs:
            if rng.random() < 0.05:
                t = rng.choice(r['trg'])
                t['w'] = [w for w in t['w'] if w[0] == 'x']
        rng.shuffle(rs)
        rt = rng.choice(['S', 'S', 'S', 'X'])
        root = ("'" + rt,) * (nf + 1)
        c, m = nderivs(rs, words, root, 60)
        if m <= 60 and (c > 0 or rng.random() < 0.1):
            break
    if empty:
        words = []
    for i, r in enumerate(rs):
        r['f'] = sorted(r['f'] + [['r%d' % (i + 1), 1000]])
        r['lim'] = 20
    w = [['f1', rng.choice([-1000, 1000, 500])], ['f2', rng.choice([0, 1000, -2000])]]
    for i in range(len(rs)):
        if rng.random() < 0.4:
            w.append(['r%d' % (i + 1), rng.choice([-2000, 500, 1000])])
    models, lm, opt = [], '', ''
    if rng.random() < 0.85:
        m = lmgen.lm(rng, vocab=rng.sample(lmgen.TRG, rng.choice([2, 3, 4])), unk=rng.random() < 0.9)
        fac = rng.randrange(nf)
        feat, uf = rng.choice([('lm', 'lmunk'), ('lm', 'lmunk'), ('a', 'b')])
        wl = [rng.choice([1000, 500, 2000, 0]), rng.choice([-1000, 0, 500])]
        w += [[feat, wl[0]], [uf, wl[1]]]
        models = [dict(lm=m, fac=fac, w=wl[0], wu=wl[1], feat=feat, ufeat=uf)]
        lm = lmgen.arpa(m)
        o = (['factor=%d' % fac] if fac else []) + ([] if feat == 'lm' else ['lm_feat=a', 'lm_unk_feat=b'])
        opt = '|' + ','.join(o) if o else ''
    full = int(rng.random() < 0.8)
    return dict(op='cfglm', table=''.join(cfggen.line(r) for r in rs), rules=rs, words=words, root=rt, nf=nf, lm=lm, lmopt=opt, models=models,
                w=[[k, v / 1000] for k, v in w], pop=-1 if full else rng.choice([1, 2, 5, 10]), chart=-1 if full else rng.choice([-1, 1, 3]), full=full, nb=3)

def corrupt(r, rng):
    t = r['out']['g']
    if not t['edges']:
        return None
    e = rng.choice(t['edges'])
    k = rng.choice(['f', 's', 'b', 'nb'])
    if k == 'f':
        e['f'].append(['zz', 1000])
    elif k == 's':
        e['s'] += 300
    elif k == 'b':
        rng.choice(t['nodes'][1:])['b'] += 1
    else:
        r['out']['nb'][0]['s'] += 200
    return r

def run(c):
    n = 6 if c.thorough else 1
    rng = c.rng
    def runner(cases):
        recs = c.drive(cases)
        for r in recs:
            r['in'] = dict(r['in'], root=["'" + r['in']['root']] * (r['in']['nf'] + 1), w=[[k, round(v * 1000)] for k, v in r['in']['w']])
            r['in'].pop('table'), r['in'].pop('lm')
        return recs
    c.conform('P10_trace', [case(rng) for _ in range(1500 * n)] + [case(rng, True) for _ in range(10)], runner=runner, corrupt=corrupt,
              nontrivial=lambda x: len(x['words']) > 1)
