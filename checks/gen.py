"""Random structures shared by the checks."""

def forest(rng, maxnodes=6, maxedges=3, maxtails=3, scores=(-4, 4), nw=3, nfeat=3, nf=1, den=1, words=True, feats=True, deep=False,
           complete=True, trgvars='all', maxderivs=250, wmax=5):
    """A random acyclic translation forest, every node with at least one edge (complete) and heads before tails."""
    while True:
        n = rng.randint(1, maxnodes)
        edges = []
        for h in range(n):
            for _ in range(rng.randint(1, maxedges)):
                avail = list(range(h + 1, n))
                k = min(len(avail), rng.choice([0, 1, 1, 2, 2, 3][:maxtails + 3]), maxtails)
                if deep and avail and k == 0 and rng.random() < 0.5:
                    k = 1
                if deep and avail:
                    avail = avail[:4]
                    k = min(k, len(avail))
                t = rng.sample(avail, k) if k else []
                if rng.random() < 0.7:
                    t.sort()
                e = dict(h=h, t=t, s=rng.randint(*scores))
                if words:
                    trg = []
                    for _f in range(nf):
                        w = [-(i + 1) for i in range(k)]
                        if trgvars == 'some' and w and rng.random() < 0.2:
                            w.remove(rng.choice(w))
                        rng.shuffle(w)
                        for _w in range(rng.choice([0, 0, 1, 1, 2]) if k else rng.choice([0, 1, 1, 1, 2])):
                            w.insert(rng.randint(0, len(w)), rng.randrange(nw))
                        trg.append(w)
                    e['trg'] = trg
                else:
                    e['trg'] = []
                e['f'] = []
                if feats:
                    ks = rng.sample(range(nfeat), rng.randint(0, nfeat))
                    e['f'] = sorted([k2, rng.choice([-3, -2, -1, 1, 2, 3])] for k2 in ks)
                e['w'] = rng.randint(1, wmax)
                edges.append(e)
        # keep only graphs with a manageable number of derivations
        cnt = {}
        for h in range(n - 1, -1, -1):
            c = 0
            for e in edges:
                if e['h'] == h:
                    p = 1
                    for t in e['t']:
                        p *= cnt[t]
                    c += p
            cnt[h] = c
        if max(cnt.values()) > maxderivs:
            continue
        if rng.random() < 0.3:
            # adding the edges of the heads in another order changes only identifiers
            rng.shuffle(edges)
        return dict(nodes=[dict(sym=100 + i, b=0, e=1) for i in range(n)], edges=edges, den=den, words=[]), cnt[0]

def span_forest(rng, maxwords=4, leaf=True, maxderivs=150, labels=3, density=0.6, maxarity=3, scores=(-4, 4), wmax=3, tree=False,
                unary=True, junk=False):
    """A parse-forest-like graph: nodes cover spans, the tails of an edge partition its head's span.
    leaf: word nodes (no edges) at the bottom.  Returns (graph, derivations) with words numbered 0.."""
    while True:
        n = rng.randint(1, maxwords)
        words = [rng.randrange(4) for _ in range(n)]
        spans = [(0, n)]
        for ln in range(n, 0, -1):
            for b in range(0, n - ln + 1):
                k = 1 if (ln == 1) else (1 if rng.random() < density else 0)
                if rng.random() < 0.3:
                    k += 1
                for _ in range(k):
                    spans.append((b, b + ln))
        nodes = [dict(sym=100 + rng.randrange(labels), b=b, e=e) for b, e in spans]
        nn = len(nodes)
        bysp = {}
        for i, s in enumerate(spans):
            bysp.setdefault(s, []).append(i)
        wordnode = {}
        if leaf:
            for i in range(n):
                wordnode[i] = len(nodes)
                nodes.append(dict(sym=words[i], b=i, e=i + 1, w=1))
        edges = []
        for h in range(nn):
            b, e = spans[h]
            seen = set()
            want = 1 if tree else rng.randint(1, 3)
            for _ in range(want * 4):
                if len([1 for x in edges if x['h'] == h]) >= want:
                    break
                # a random composition of the span
                ar = rng.randint(1, min(maxarity, e - b))
                if ar == 1 and e - b > 1 and rng.random() < 0.7:
                    ar = min(2, maxarity)
                cuts = sorted(rng.sample(range(b + 1, e), ar - 1)) if ar > 1 else []
                pts = [b] + cuts + [e]
                t = []
                for i in range(ar):
                    cand = [x for x in bysp.get((pts[i], pts[i + 1]), []) if x > h] if (ar > 1 or unary) else []
                    if leaf and pts[i + 1] - pts[i] == 1:
                        if ar > 1 and rng.random() < 0.15 or ar == 1 and (not cand or rng.random() < 0.6):
                            cand = [wordnode[pts[i]]]
                    if not cand:
                        t = None
                        break
                    t.append(rng.choice(cand))
                if t is None:
                    if not leaf and e - b == 1:
                        t = []
                    else:
                        continue
                if tuple(t) in seen and t:
                    continue
                seen.add(tuple(t))
                edges.append(dict(h=h, t=t, s=rng.randint(*scores), w=rng.randint(1, wmax), trg=[], f=[]))
        cnt = {}
        ok = True
        for h in range(len(nodes) - 1, -1, -1):
            es = [x for x in edges if x['h'] == h]
            if nodes[h].get('w'):
                cnt[h] = 1
                continue
            c = 0
            for x in es:
                p = 1
                for t in x['t']:
                    p *= cnt[t]
                c += p
            cnt[h] = c
        if cnt[0] == 0 or max(cnt.values()) > maxderivs:
            continue
        # drop what cannot be completed (and, unless junk, what cannot be reached)
        keep = set(h for h in range(len(nodes)) if cnt[h] > 0)
        edges = [x for x in edges if x['h'] in keep and all(t in keep for t in x['t'])]
        if not junk:
            reach = {0}
            for h in range(len(nodes)):
                if h in reach:
                    for x in edges:
                        if x['h'] == h:
                            reach.update(x['t'])
            keep = set(h for h in keep if h in reach)
            edges = [x for x in edges if x['h'] in keep]
        order = sorted(keep)
        ren = {o: i for i, o in enumerate(order)}
        nodes = [nodes[o] for o in order]
        edges = [dict(x, h=ren[x['h']], t=[ren[t] for t in x['t']]) for x in edges]
        for x in nodes:
            x.pop('w', None)
        return dict(nodes=nodes, edges=edges, den=1, words=words), cnt[0]
