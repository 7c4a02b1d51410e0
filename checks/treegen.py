"""Trees and forests with string labels, and their texts."""
import json
LABS = ['S', 'NP', 'VP', 'NN', 'NP-SBJ=1', '.', '$,', ',', '-LRB-', "''", '``', "X'", 'a[b', 'é', '日本', '&', '<t>', '%', 'x0', '7', 'A_B']
WORDS = ['a', 'b', 'house', 'b', 'a', "don't", 'x-y', '"', "''", '\\', 'a"b\\c', 'été', '日本語', '&amp;', '<s>', '>', '7', '-5', '1,000', '.', ':', 'x0', '|||', '=>', "'"]
PLAINL = ['S', 'NP', 'VP', 'NN', 'DT', 'X', '.']
PLAINW = ['a', 'b', 'c', 'dog', 'A', 'The']

def u8(s):
    return s.encode('utf8').decode('latin-1')

def tree(rng, nmax=6, labs=LABS, words=WORDS, depth=5, pre=True, arity=4, unary=0.3):
    """Nested [label, kids] / word strings; pre: words only below pre-terminals."""
    n = rng.randint(1, nmax)
    def make(k, d):
        l = rng.choice(labs)
        if k == 1 and (d <= 0 or rng.random() > unary):
            return [l, [rng.choice(words)]]
        if d <= 0:
            if pre:
                return [l, [[rng.choice(labs), [rng.choice(words)]] for _ in range(k)]]
            return [l, [rng.choice(words) for _ in range(k)]]
        ar = rng.randint(1 if (k == 1 or rng.random() < unary) else 2, min(arity, k))
        cuts = sorted(rng.sample(range(1, k), ar - 1))
        pts = [0] + cuts + [k]
        kids = []
        for i in range(ar):
            m = pts[i + 1] - pts[i]
            if not pre and m == 1 and rng.random() < 0.4:
                kids.append(rng.choice(words))
            else:
                kids.append(make(m, d - 1))
        return [l, kids]
    return make(n, rng.randint(1, depth))

def leaves(t):
    return [t] if isinstance(t, str) else [w for k in t[1] for w in leaves(k)]

def graph(t, rng=None, den=4, scores=False, order=None):
    """The graph of a tree, in the numbering of the Penn reader."""
    nodes, edges = [], []
    pos = [0]
    def go(t):
        i = len(nodes)
        if isinstance(t, str):
            nodes.append(dict(sym="'" + u8(t), b=pos[0], e=pos[0] + 1))
            pos[0] += 1
            return i
        nodes.append(dict(sym="'" + u8(t[0]), b=pos[0], e=-1))
        ed = dict(h=i, t=[], s=rng.randint(-8, 8) if scores else 0, f=[], trg=[])
        if scores and rng.random() < 0.5:
            ed['f'] = [['g', rng.choice([-3, 1, 2])]]
        edges.append(ed)
        for k in t[1]:
            ed['t'].append(go(k))
        nodes[i]['e'] = pos[0]
        return i
    go(t)
    return dict(nodes=nodes, edges=edges, words=["'" + u8(w) for w in leaves(t)], den=den)

def penn(t, rng=None):
    sp = (lambda: rng.choice([' ', ' ', '  ', '\n', '\t ', ' \r\n'])) if rng else (lambda: ' ')
    op = (lambda: rng.choice(['', '', ' ', '\n'])) if rng else (lambda: '')
    def go(t):
        if isinstance(t, str):
            return t
        r = '(' + t[0] + sp()
        if len(t[1]) == 1 and isinstance(t[1][0], str):
            return r + t[1][0] + ')'
        return r + ''.join(op() + go(k) for k in t[1]) + op() + ')'
    return go(t)

def rule(t):
    if isinstance(t, str):
        return '"%s"' % t
    return t[0] + ' ( ' + ''.join(rule(k) + ' ' for k in t[1]) + ')'

def forest(rng, maxwords=4, labs=PLAINL, words=PLAINW, maxderivs=40, tree=False, arity=4, den=4, unary=0.3):
    """A packed parse forest: nodes identified by (label, span), heads before tails, one word node per position."""
    while True:
        n = rng.randint(1, maxwords)
        ws = [rng.choice(words) for _ in range(n)]
        keys, edges = {}, []
        nodes = []
        order = []
        def node(l, b, e):
            if (l, b, e) not in keys:
                keys[(l, b, e)] = len(nodes)
                nodes.append(dict(sym="'" + u8(l), b=b, e=e))
                order.append((l, b, e))
            return keys[(l, b, e)]
        node(labs[0], 0, n)
        i = 0
        rank = {}
        wn = {}
        def below(k, depth):
            rank[k] = depth
        below((labs[0], 0, n), 0)
        ok = True
        while i < len(order) and len(order) < 30:
            l, b, e = order[i]
            h = keys[(l, b, e)]
            i += 1
            seen = set()
            for _ in range(1 if tree else rng.choice([1, 1, 2, 3])):
                if e - b == 1:
                    un = [x for x in labs if rank.get((x, b, e), 99) > rank[(l, b, e)] and rank[(l, b, e)] < 3 and x != l]
                    if un and rng.random() < unary:
                        kids = [(rng.choice(un), b, e)]
                    else:
                        kids = [None]
                else:
                    ar = min(e - b, rng.choice([2, 2, 3, arity]))
                    cuts = sorted(rng.sample(range(b + 1, e), ar - 1))
                    pts = [b] + cuts + [e]
                    kids = [(rng.choice(labs[1:]), pts[k], pts[k + 1]) for k in range(ar)]
                if tuple(kids) in seen:
                    continue
                seen.add(tuple(kids))
                t = []
                for k in kids:
                    if k is None:
                        if b not in wn:
                            wn[b] = len(nodes)
                            nodes.append(dict(sym="'" + u8(ws[b]), b=b, e=b + 1))
                        t.append(wn[b])
                    else:
                        if k not in rank:
                            rank[k] = rank[(l, b, e)] + 1 if (k[1], k[2]) == (b, e) else 0
                        t.append(node(*k))
                edges.append(dict(h=h, t=t, s=rng.randint(-8, 8), f=[['g', rng.choice([-3, 1, 2])]] if rng.random() < 0.4 else [], trg=[]))
        if len(order) >= 30:
            continue
        # unary edges must not form a cycle and derivations stay manageable
        memo, ok = {}, [True]
        def cnt(x, path):
            if x in path:
                ok[0] = False
                return 0
            if x in memo:
                return memo[x]
            es = [q for q in edges if q['h'] == x]
            if not es:
                return 1
            c = 0
            for q in es:
                p = 1
                for y in q['t']:
                    p *= cnt(y, path | {x})
                c += p
            memo[x] = c
            return c
        c = cnt(0, frozenset())
        if not ok[0] or c == 0 or c > maxderivs:
            continue
        return dict(nodes=nodes, edges=edges, words=["'" + u8(w) for w in ws], den=den), c
