"""P09: parsing with synchronous grammars."""
import cfggen

def case(rng, big=False):
    nf = rng.choice([1, 1, 1, 2])
    while True:
        words = cfggen.sentence(rng, 6 if big else 5)
        rs = cfggen.grammar(rng, words, rng.choice([1, 4, 8, 14]), nf, other=0.15 if nf == 1 else 0.08)
        if rs and not cfggen.cyclic(rs):
            break
    k = rng.choice([1, 1, 2, 3])
    limits = [rng.choice([20, 20, 20, 1, 2, 3]) for _ in range(k)]
    tabs = [[] for _ in range(k)]
    rng.shuffle(rs)
    for r in rs:
        t = rng.randrange(k)
        r['lim'] = limits[t]
        tabs[t].append(r)
    rules = [r for t in tabs for r in t]
    return dict(op='fsm', tables=[''.join(cfggen.line(r) for r in t) for t in tabs], limits=limits, rules=rules, words=words,
                root=rng.choice(['S', 'S', 'S', 'X']), unk=rng.choice(['X', 'X', 'X', 'A', 'unk']), src=int(rng.random() < 0.4),
                nf=nf, cyclic=0, **{'del': int(rng.random() < 0.3)})

def cyc(rng):
    """grammars with a cycle of unary rules are rejected when they are read"""
    c = case(rng)
    ring = rng.sample(cfggen.NT, rng.randint(1, 4))
    rs = [cfggen.rule(rng, ring[(i + 1) % len(ring)], [ring[i]], c['nf'], other=0) for i in range(len(ring))]
    i = rng.randrange(len(c['tables']))
    ls = c['tables'][i].splitlines(True) + [cfggen.line(r) for r in rs]
    rng.shuffle(ls)
    c['tables'][i] = ''.join(ls)
    c['rules'] = []
    c['cyclic'] = 1
    return c

def corrupt(r, rng):
    t = r['out']['g']
    if not t['edges']:
        return None
    e = rng.choice(t['edges'])
    k = rng.choice(['f', 'w', 'b', 'drop'])
    if k == 'f':
        e['f'].append(['zz', 1000])
    elif k == 'w':
        e['trg'][0]['w'].append("'zz")
    elif k == 'b':
        rng.choice(t['nodes'])['b'] += 1
    else:
        e['t'] = e['t'][1:] if e['t'] else [0]
    return r

def run(c):
    n = 6 if c.thorough else 1
    rng = c.rng
    c.conform('P09_trace', [case(rng) for _ in range(2500 * n)], corrupt=corrupt, nontrivial=lambda x: len(x['words']) > 1)
    def runner(cases):
        recs = c.drive(cases)
        for r in recs:
            if r['st'] == 'exc' and 'nary cycle' in r.get('msg', ''):
                r.update(st='ok', out=dict(g=dict(nodes=[], edges=[], words=[])), rejected=1)
            else:
                r['rejected'] = 0
        return recs
    c.conform('P09_trace', [cyc(rng) for _ in range(100 * n)], diag='DiagCycle', runner=runner, name='P09_trace:unary cycles')
