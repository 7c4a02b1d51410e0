"""P07: tree-to-string rule application."""
import rulegen

def case(rng, trg, big=False):
    nf = rng.choice([1, 1, 2])
    g = rulegen.parse_forest(rng, rng.choice([1, 2, 3]), mixed=0 if trg else 0.1)
    rs = rulegen.table(rng, [g], rng.choice([0, 2, 5, 10, 20]), nf, labelled=trg or rng.choice([0, 1, "part", "part"]))
    st = rng.choice(['hash', 'marisa'])
    if st == 'marisa' or rng.random() < 0.5:
        rs.sort(key=lambda r: r['src'])
    return dict(op='t2s', g=g, rules=rs, tm=''.join(rulegen.line(r) + '\n' for r in rs), storage=st, route='stream', nf=nf,
                all_unk=int(rng.random() < 0.3), src=int(rng.random() < 0.5), trg=int(trg))

def corrupt(r, rng):
    t = r['out']
    k = rng.choice(['drop', 'dup', 'f', 'trg', 'tail', 'src'])
    if not t['edges']:
        return None
    i = rng.randrange(len(t['edges']))
    e = t['edges'][i]
    if k == 'f':
        e['f'].append(['zz', 1000])
    elif k == 'trg':
        e['trg'][0]['w'].append("'zz")
    elif k == 'tail':
        if len(e['t']) < 2 or e['t'][0] == e['t'][1]:
            return None
        e['t'].reverse()
    elif k == 'dup':
        e2 = dict(e, id=len(t['edges']))
        t['edges'].append(e2)
        t['nodes'][e['h']]['ed'].append(e2['id'])
    elif k == 'src' and r['in']['src'] and not r['in']['trg']:
        e['src'] += ' '
    else:
        return None
    return r

def run(c):
    n = 6 if c.thorough else 1
    rng = c.rng
    c.conform('P07_trace', [case(rng, False) for _ in range(900 * n)], corrupt=corrupt, nontrivial=lambda x: len(x['rules']) > 1)
    c.conform('P07_trace', [case(rng, True) for _ in range(600 * n)], corrupt=corrupt, nontrivial=lambda x: len(x['rules']) > 1, name='P07_trace:target labels')
