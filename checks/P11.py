"""P11: language model intersection."""
import lmgen

def case(rng, zero=False):
    search = 'inc' if zero else rng.choice(['bu', 'inc'])
    nf = rng.choice([1, 1, 2])
    g, nd = lmgen.tforest(rng, maxnodes=rng.choice([2, 4, 6]), nf=nf, maxderivs=40)
    k = 1
    consec = 0
    if rng.random() < 0.35:
        k, consec = 2, int(search == 'inc' or rng.random() < 0.5)
    names = [('lm', 'lmunk'), ('lm2', 'lmunk2')] if rng.random() < 0.7 else [('lm', 'lmunk'), ('lm', 'lmunk')]
    models, lms, opts, w = [], [], [], {}
    for i in range(k):
        m = lmgen.lm(rng, vocab=rng.sample(lmgen.TRG, rng.choice([2, 3, 4])), unk=rng.random() < 0.9)
        fac = rng.randrange(nf)
        feat, ufeat = names[i]
        w.setdefault(feat, rng.choice([500, 1000, 1000, 2000] + ([0, -1000] if search == 'bu' else [])))
        if zero:
            w[feat] = 0
        w.setdefault(ufeat, rng.choice([-4000, -1000, 0, 500]))
        o = []
        if fac or rng.random() < 0.3: o.append('factor=%d' % fac)
        if feat != 'lm' or rng.random() < 0.2: o.append('lm_feat=' + feat)
        if ufeat != 'lmunk' or rng.random() < 0.2: o.append('lm_unk_feat=' + ufeat)
        models.append(dict(lm=m, fac=fac, w=w[feat], wu=w[ufeat], feat=feat, ufeat=ufeat))
        lms.append(lmgen.arpa(m))
        opts.append('|' + ','.join(o) if o else '')
    full = int(rng.random() < 0.75)
    more = dict(w0=[[x, rng.choice([-1, 2, 3])] for x in sorted(w) if rng.random() < 0.6]) if rng.random() < 0.3 else {}
    return dict(more, op='lmcomp', g=g, lms=lms, lmopt=opts, models=models, w=[[x, v / 1000] for x, v in sorted(w.items()) if v or rng.random() < 0.5],
                search=search, pop=100000 if full else rng.choice([1, 2, 3, 5]), chart=0 if full or search == 'inc' else rng.choice([0, 1, 2]),
                full=full, consec=consec, nf=nf, nb=3)

def corrupt(r, rng):
    g = r['out']['g']
    if not g['edges']:
        return None
    e = rng.choice(g['edges'])
    k = rng.choice(['s', 'f', 'nb'])
    if k == 's':
        e['s'] += 250
    elif k == 'f':
        e['f'].append(['zz', 1000])
    else:
        r['out']['nb'][0]['s'] -= 500
    return r

def known(r, clauses):
    i = r['in']
    # the LM feature of the incremental search is recovered by dividing by its weight
    if i['search'] == 'inc' and clauses == {'not-finite'} and any(m['w'] == 0 for m in i['models']):
        return 'inc-zero-weight'

def run(c):
    n = 6 if c.thorough else 1
    c.conform('P11_trace', [case(c.rng) for _ in range(2500 * n)] + [case(c.rng, True) for _ in range(20)], corrupt=corrupt, known=known,
              nontrivial=lambda x: len(x['g']['edges']) > 2)
