"""P08: rule storage back-ends and loading routes."""
import gzip, os
import rulegen, cfggen

LAB = ['N', 'NN', 'NNP', 'NP', 'N:P', 'x', 'x0', '@', 'é'.encode('utf8').decode('latin-1'), 'S']
EXTRA = ['', '', ' ||| 1 2 3', ' ||| 0-0 1-1 ||| zz', ' ||| f9=1', ' ||| ']

def fnum(rng, v):
    s = rng.random()
    x = v / 1000
    return '%g' % x if s < 0.5 else '%.3f' % x if s < 0.7 else '%e' % x if s < 0.9 else '%.6f' % x

def tline(rng, r):
    f = list(r['f'])
    rng.shuffle(f)
    return '%s ||| %s ||| %s%s\n' % (r['src'], ' |COL| '.join(rulegen.trgtext(t) for t in r['trg']),
                                     ' '.join('%s=%s' % (k, fnum(rng, v)) for k, v in f), rng.choice(EXTRA) if rng.random() < 0.2 else '')

def relabel(rng, g):
    m = {}
    heads = {e['h'] for e in g['edges']}
    for i, n in enumerate(g['nodes']):
        if i in heads:
            n['sym'] = "'" + m.setdefault(n['sym'], rng.choice(LAB))

def case(rng, n):
    nf = rng.choice([1, 1, 2])
    trg = rng.random() < 0.3
    gs = [rulegen.parse_forest(rng, rng.choice([1, 2]), mixed=0) for _ in range(2)]
    for g in gs:
        if rng.random() < 0.7:
            relabel(rng, g)
    rs = rulegen.table(rng, gs, n, nf, labelled=trg or rng.choice([0, 1, "part", "part"]))
    order = rng.choice(['sorted', 'shuffled', 'shuffled', 'reverse', 'tail'])
    if order == 'sorted':
        rs.sort(key=lambda r: r['src'])
    elif order == 'reverse':
        rs.sort(key=lambda r: r['src'], reverse=True)
    else:
        rng.shuffle(rs)
    if order == 'tail':         # sorted, then further rules for the sources already seen (a concatenation of two tables)
        h = len(rs) // 2
        rs = sorted(rs[:h], key=lambda r: r['src']) + sorted(rs[h:], key=lambda r: r['src'])
    return dict(op='t2s', g=rng.choice(gs), rules=rs, tm=''.join(tline(rng, r) for r in rs), nf=nf, route='stream',
                all_unk=int(rng.random() < 0.2), src=int(rng.random() < 0.3), trg=int(trg))

def grammar(rng, n):
    nf = rng.choice([1, 1, 2, 3])
    words = cfggen.sentence(rng, 6)
    while True:
        rs = cfggen.grammar(rng, words, n, nf)
        if rs and not cfggen.cyclic(rs):
            break
    rng.shuffle(rs)
    for r in rs:
        r['line'] = ''.join(cfggen.line(r))
    return dict(op='fsm', tables=[''.join(r.pop('line')[:-1] + (rng.choice(EXTRA) if rng.random() < 0.2 else '') + '\n' for r in rs)],
                rules=rs, words=[], nf=nf, list=1)

def run(c):
    n = 6 if c.thorough else 1
    rng = c.rng
    cases = []
    for k in range(500 * n):
        a = case(rng, rng.choice([1, 3, 8, 20]) if k % 50 else 150)
        cases += [dict(a, storage='hash'), dict(a, storage='marisa')]
    count = [0]
    def runner(cs):
        # through a stream, a file, a compressed file, or a compressed file found by the name without .gz
        out = []
        for x in cs:
            x = dict(x)
            k = count[0] % 8
            count[0] += 1
            if k in (3, 4, 5):
                p = os.path.join(c.work, 't%d' % count[0])
                if k == 3:
                    open(p, 'wb').write(x['tm'].encode('latin-1'))
                    x.update(route='other', file=p)
                else:
                    with gzip.open(p + '.gz', 'wb') as f:
                        f.write(x['tm'].encode('latin-1'))
                    x.update(route='other', file=p + ('.gz' if k == 4 else ''))
            elif k == 6:
                x['route'] = 'file'
            out.append(x)
        recs = c.drive(out)
        for r, x in zip(recs, cs):
            r['in'] = dict(x, route=r['in']['route'])
        return recs
    import P07
    recs, _ = c.conform('P08_trace', cases, runner=runner, corrupt=P07.corrupt, nontrivial=lambda x: len(x['rules']) > 1)
    def both(cs):
        rs = c.drive([dict(x, storage=s) for x in cs for s in ('hash', 'marisa')])
        return [dict(st='ok' if a['st'] == b['st'] == 'ok' else 'ended', a=a.get('out'), b=b.get('out'), **{'in': x}) for x, a, b in zip(cs, rs[::2], rs[1::2])]
    c.conform('P08_trace', [case(rng, rng.choice([5, 20, 60])) for _ in range(150 * n)], diag='DiagBoth', runner=both, name='P08_trace:storages agree')
    def cor(r, rng):
        l = r['out']['rules'][0]
        x = rng.choice(l)
        rng.choice([lambda: l.remove(x), lambda: l.append(x), lambda: x['trg'][0]['w'].append("'zz")])()
        return r
    c.conform('P08_trace', [grammar(rng, rng.choice([3, 10, 40])) for _ in range(400 * n)], diag='DiagList', corrupt=cor, name='P08_trace:grammar listing')
