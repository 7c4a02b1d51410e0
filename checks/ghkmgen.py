"""Aligned sentence pairs with a parse forest on the source side."""
import treegen

def align(rng, n, m):
    if m == 0:
        return []
    k = rng.random()
    if k < 0.04:
        return []
    if k < 0.45:
        # close to a permutation of blocks
        a = []
        perm = list(range(n)); 
        if rng.random() < 0.6:
            i, j = rng.randrange(n), rng.randrange(n); perm[i], perm[j] = perm[j], perm[i]
        for s in range(n):
            if rng.random() < 0.8:
                a.append([s, min(m - 1, perm[s] * m // n)])
        for _ in range(rng.choice([0, 0, 1, 2])):
            a.append([rng.randrange(n), rng.randrange(m)])
    else:
        d = rng.choice([0.1, 0.2, 0.3])
        a = [[s, t] for s in range(n) for t in range(m) if rng.random() < d]
    u = []
    for x in a:
        if x not in u:
            u.append(x)
    rng.shuffle(u)
    return u

def mix(rng, g):
    """Put a word directly under a node that has other children as well (as the JSON reader can)."""
    out = {}
    for e in g['edges']:
        out.setdefault(e['h'], []).append(e)
    for e in g['edges']:
        for i, t in enumerate(e['t']):
            if len(e['t']) > 1 and t in out and len(out[t]) == 1 and len(out[t][0]['t']) == 1 and out[t][0]['t'][0] not in out and rng.random() < 0.3:
                e['t'][i] = out[t][0]['t'][0]
    # unreachable nodes go
    reach, todo = {0}, [0]
    while todo:
        for e in out.get(todo.pop(), []):
            for t in e['t']:
                if t not in reach:
                    reach.add(t); todo.append(t)
    keep = [i for i in range(len(g['nodes'])) if i in reach]
    num = {v: k for k, v in enumerate(keep)}
    g['nodes'] = [g['nodes'][i] for i in keep]
    g['edges'] = [dict(e, h=num[e['h']], t=[num[t] for t in e['t']]) for e in g['edges'] if e['h'] in num]
    return g

def case(rng, forest=None, compose=False, attach='none', maxwords=6):
    tree = rng.random() < 0.5 if forest is None else not forest
    while True:
        g, nd = treegen.forest(rng, maxwords=maxwords, tree=tree, maxderivs=1 if tree else 12, unary=rng.choice([0.1, 0.3, 0.5]))
        if rng.random() < 0.15:
            g = mix(rng, g)
        if len(g['edges']) <= 24:
            break
    n = len(g['words'])
    m = rng.choice([n, n, max(1, n - 1), n + 1, n + 2, rng.randint(0, 7)])
    words = [rng.choice(treegen.PLAINW + ['x', 'é']) for _ in range(m)]
    labs = []
    if m and rng.random() < 0.3:
        seen = set()
        for _ in range(rng.randint(1, 8)):
            b = rng.randrange(m); e = rng.randint(b + 1, m)
            if (b, e) not in seen:
                seen.add((b, e)); labs.append([b, e, rng.choice(['A', 'B', 'NP'])])
    words = [treegen.u8(w) for w in words]
    c = dict(op='extract', g=g, align=align(rng, n, m), trg=["'" + w for w in words], words=words, names=[x['sym'][1:] for x in g['nodes']],
             attach=attach, att=1, nt=5, order=1, lex=0, tree=tree)
    c['labs'] = [[b, e, "'" + l] for b, e, l in labs]
    if not labs:
        c['labs'] = []
    if compose:
        c['order'] = rng.choice([1, 2, 2, 3, 3, 4, 5]); c['lex'] = rng.choice([0, 0, 0, 1, 2, 3, 10])
        c['compose'] = c['order']
    if attach == 'exh':
        c['att'] = rng.choice([0, 1, 1, 1, 2, 3]); c['nt'] = rng.choice([0, 1, 2, 5, 5, 5])
        if compose:
            c['nt'] = rng.choice([9, 9, 2])
    return c

def runner(c):
    def run(cs):
        for r in (rs := c.drive(cs)):
            x = r['in'] = dict(r['in'])
            x['labs'] = [[b, e, l[1:]] for b, e, l in x['labs']]
        return rs
    return run

def corrupt(r, rng):
    o = r['out']
    if not o['edges']:
        return None
    i = rng.randrange(len(o['edges']))
    e = o['edges'][i]
    if o['nodes'][e['h']]['pseudo'] or len(o['rules'][i]) != 4:
        return None
    k = rng.choice(['drop', 'src', 'trg', 'al', 'score', 'tails'])
    if k == 'drop':
        o['edges'].pop(i); o['rules'].pop(i)
        for n in o['nodes']:
            n['ed'] = [x for x in n['ed'] if x != e['id']]
    elif k == 'src':
        o['rules'][i][0] += ' '
    elif k == 'trg':
        o['rules'][i][1] += ' "a"'
    elif k == 'al':
        o['rules'][i][2] += ' 9-9'
    elif k == 'score':
        e['s'] += 250
    elif len(e['t']) > 1 and e['t'][0] != e['t'][1]:
        e['t'].reverse()
        if e['t'] == e['t'][::-1]:
            return None
    else:
        return None
    return r
