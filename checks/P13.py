"""P13: composed rules."""
import ghkmgen, treegen, lib, json

def direct(rng):
    """A rule graph with target sides of its own."""
    g, nd = treegen.forest(rng, maxwords=rng.choice([2, 3, 4, 5]), tree=rng.random() < 0.5, maxderivs=8, unary=rng.choice([0.1, 0.4]))
    heads = {e['h'] for e in g['edges']}
    if rng.random() < 0.8:
        for e in g['edges']:
            e['t'] = [t for t in e['t'] if t in heads]
        keep = [i for i in range(len(g['nodes'])) if i in heads]
        num = {v: k for k, v in enumerate(keep)}
        g['nodes'] = [g['nodes'][i] for i in keep]
        for e in g['edges']:
            e['h'] = num[e['h']]; e['t'] = [num[t] for t in e['t']]
    rng.shuffle(g['edges'])
    F = rng.choice([1, 1, 1, 2, 0])
    trgs = []
    w = 0
    for e in g['edges']:
        fs = []
        for f in range(F):
            vs = list(range(len(e['t'])))
            if rng.random() < 0.6:
                rng.shuffle(vs)
            if vs and rng.random() < 0.05:
                vs.pop()
            if vs and rng.random() < 0.05:
                vs.append(vs[0])
            seq = []
            for v in vs:
                if rng.random() < 0.4:
                    seq.append(w % 7); w += 1
                seq.append(-1 - v)
            if rng.random() < 0.6 or not seq:
                seq.append(w % 7); w += 1
            if rng.random() < 0.03:
                seq = []
            fs.append(seq)
        trgs.append(fs)
        e['trg'] = [dict(w=['x%d' % (-1 - t) if t < 0 else "'w%d" % t for t in s]) for s in fs]
        e['f'] = []
    return dict(op='compose', g=g, order=rng.choice([1, 2, 2, 3, 3, 4, 6]), lex=rng.choice([0, 0, 0, 1, 2, 4]), factors=F, trgs=trgs)

def runner(c):
    def run(cs):
        rs = c.drive(cs)
        for r in rs:
            if r['st'] != 'ok':
                continue
            for e in r['out']['edges']:
                e['trgs'] = [[-1 - int(t[1:]) if t[0] == 'x' else int(t[2:]) for t in f['w']] for f in e['trg']]
        return rs
    return run

def corrupt(r, rng):
    o = r['out']
    e = rng.choice(o['edges'])
    k = rng.choice(['drop', 'trg', 'score', 'fr'])
    if k == 'drop':
        o['edges'].remove(e)
        for n in o['nodes']:
            n['ed'] = [x for x in n['ed'] if x != e['id']]
    elif k == 'trg':
        if not e['trgs']:
            return None
        e['trgs'][0].append(0)
    elif k == 'score':
        e['s'] -= 250
    else:
        e['fr'].append(e['fr'][0])
    return r

def run(c):
    for n, m in ((3, 2),) + (((4, 2), (3, 3)) if c.thorough else ()):
        c.model('GhkmModel', 'INIT Init\nNEXT Next\nCONSTANTS\nN = %d\nM = %d\nDrop = FALSE\nINVARIANTS Whole ComposedOne\n' % (n, m),
                'all trees over %d words: composing everything gives the whole tree, and every connected set of rules is one composed rule' % n)
    n = 700 if not c.thorough else 6000
    c.conform('P13_trace', [direct(c.rng) for _ in range(2 * n)], diag='DiagCompose', runner=runner(c), corrupt=corrupt,
              nontrivial=lambda x: len(x['g']['edges']) > 1)
    c.conform('P13_trace', [ghkmgen.case(c.rng, compose=True) for _ in range(n)], runner=ghkmgen.runner(c), corrupt=ghkmgen.corrupt,
              nontrivial=lambda x: len(x['align']) > 1)
