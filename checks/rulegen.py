"""Random parse forests and tree-to-string rule tables matching them, as structures and as text."""
import cligen

SPECIAL = ['"', 'x0', '(', ')', '@', '|', 'x1:NP', 'NP', '\\', '-LRB-', 'é'.encode('utf8').decode('latin-1'), 'a"b', '_', ':']

def parse_forest(rng, depth=3, words=None, labels=None, maxkids=3, packed=0.3, special=0.1, mixed=0.1, feats=0.4):
    """Forest graph: nodes top-down (children have larger ids), words are nodes without edges."""
    labels = labels or cligen.LAB
    words = words or cligen.WORDS
    t = cligen.tree(rng, depth, maxkids=maxkids)
    nodes, edges, ws = [], [], []
    def add(t):
        i = len(nodes)
        nodes.append(dict(sym="'" + t[0]))
        b = len(ws)
        if isinstance(t[1], str):
            w = rng.choice(SPECIAL) if rng.random() < special else t[1]
            nodes.append(dict(sym="'" + w, b=b, e=b + 1))
            ws.append("'" + w)
            edges.append(dict(h=i, t=[i + 1]))
        else:
            kids = []
            e = dict(h=i, t=kids)
            edges.append(e)
            for x in t[1]:
                if rng.random() < mixed and len(t[1]) > 1:
                    k = len(nodes)
                    nodes.append(dict(sym="'" + rng.choice(words), b=len(ws), e=len(ws) + 1))
                    ws.append(nodes[-1]['sym'])
                    kids.append(k)
                else:
                    kids.append(add(x))
            if len(kids) > 1 and all(not any(y['h'] == k for y in edges) for k in kids):
                # an all-word edge over several words cannot be passed through: make the last child a preterminal
                k = kids[-1]
                nodes.append(dict(nodes[k]))
                edges.append(dict(h=k, t=[len(nodes) - 1]))
                nodes[k] = dict(sym="'" + rng.choice(cligen.PRE), b=nodes[k]['b'], e=nodes[k]['e'])
        nodes[i].update(b=b, e=len(ws))
        return i
    add(t)
    # packed alternatives: another analysis of a node over nodes that exist
    if rng.random() < packed:
        for _ in range(rng.randint(1, 3)):
            h = rng.randrange(len(nodes))
            if not any(e['h'] == h for e in edges):
                continue
            b, e = nodes[h]['b'], nodes[h]['e']
            t, p = [], b
            while p < e:
                c = [i for i, n in enumerate(nodes) if n['b'] == p and n['e'] <= e and i > h and any(x['h'] == i for x in edges)
                     and (n['e'] - n['b'] < e - b or rng.random() < 0.3)]
                if not c:
                    t = None
                    break
                k = rng.choice(c)
                t.append(k)
                p = nodes[k]['e']
            if t and dict(h=h, t=t) not in [dict(h=x['h'], t=x['t']) for x in edges]:
                edges.append(dict(h=h, t=t))
    for e in edges:
        e['f'] = sorted([n, rng.choice([-2, -1, 1, 2, 3])] for n in ('parse', 'f1', 'pf') if rng.random() < feats / 2)
    return dict(nodes=nodes, edges=edges, words=ws, den=4)

def pattern(rng, g, n, cut, root=True):
    es = [e for e in g['edges'] if e['h'] == n]
    s = g['nodes'][n]['sym']
    if not es:
        return dict(k='w', l=s, c=[])
    if not root and rng.random() < cut:
        return dict(k='x', l=s, c=[])
    e = rng.choice(es)
    return dict(k='n', l=s, c=[pattern(rng, g, t, cut, False) for t in e['t']])

def mutate(rng, p):
    """a pattern close to p that may not match"""
    import copy
    p = copy.deepcopy(p)
    all_ = []
    def walk(x):
        all_.append(x)
        for y in x['c']:
            walk(y)
    walk(p)
    x = rng.choice(all_)
    r = rng.random()
    if r < 0.4:
        x['l'] = "'" + rng.choice(cligen.LAB + cligen.PRE + cligen.WORDS)
    elif r < 0.7 and x['c'] and len(x['c']) > 1:
        x['c'].pop()
    elif x['k'] == 'n' and x is not p:
        x['k'] = rng.choice('xw')
        x['c'] = []
    elif x['c']:
        x['c'].append(copy.deepcopy(x['c'][0]))
    return p

def psrc(p, vs):
    if p['k'] == 'x':
        vs.append(p['l'])
        return 'x%d:%s' % (len(vs) - 1, p['l'][1:])
    if p['k'] == 'w':
        return '"%s"' % p['l'][1:]
    return '%s ( %s )' % (p['l'][1:], ' '.join(psrc(x, vs) for x in p['c']))

def rule(rng, p, nf, names=('f1', 'f2', 'f3'), labelled=True, other=0.2):
    vs = []
    src = psrc(p, vs)
    trg = []
    for _ in range(nf):
        w = ['x%d' % i for i in range(len(vs))]
        rng.shuffle(w)
        for _k in range(rng.choice([0, 1, 1, 2]) if w else rng.choice([1, 1, 2])):
            w.insert(rng.randint(0, len(w)), "'" + (rng.choice(SPECIAL) if rng.random() < 0.08 else rng.choice(cligen.TRG)))
        y = [v if rng.random() > other else "'" + rng.choice(cligen.LAB) for v in vs]
        l = (p['l'] if rng.random() > other else "'" + rng.choice(cligen.LAB)) if labelled else '-'
        if labelled == 'part' and rng.random() < 0.3:
            y = [x if rng.random() < 0.5 else '-' for x in y]
            while y and y[-1] == '-':
                y.pop()
        trg.append(dict(w=w, l=l, y=y if labelled else []))
    f = sorted([n, rng.randint(-4, 4) * 250] for n in names if rng.random() < 0.6)
    return dict(p=p, src=src, trg=trg, f=f)

def num(v):
    s = '%g' % (v / 1000)
    return s

def trgtext(t):
    o = []
    for w in t['w']:
        if w[0] == 'x':
            i = int(w[1:])
            o.append(w + (':' + t['y'][i][1:] if i < len(t['y']) and t['y'][i] != '-' else ''))
        else:
            o.append('"%s"' % w[1:])
    return ' '.join(o) + (' @ ' + t['l'][1:] if t['l'] != '-' else '')

def line(r, extra=''):
    return '%s ||| %s ||| %s%s' % (r['src'], ' |COL| '.join(trgtext(t) for t in r['trg']), ' '.join('%s=%s' % (k, num(v)) for k, v in r['f']), extra)

def table(rng, gs, n, nf, dup=0.3, labelled=True, other=0.2):
    rs = []
    for _ in range(n):
        g = rng.choice(gs)
        nts = [i for i in range(len(g['nodes'])) if any(e['h'] == i for e in g['edges'])]
        p = pattern(rng, g, rng.choice(nts), rng.choice([0.15, 0.4, 0.7, 1]))
        if rng.random() < 0.15:
            p = mutate(rng, p)
        rs.append(rule(rng, p, nf, labelled=labelled, other=other))
        while rng.random() < dup:
            rs.append(rule(rng, p, nf, labelled=labelled, other=other))
    return rs
