"""Random synchronous CFGs, as structures and as text."""
import rulegen

NT = ['X', 'A', 'B', 'S']          # unary rules only go up this order: no unary cycles
W = ['a', 'b', 'c']
TRG = ['u', 'v', 'w']

def stext(s):
    o, k = [], 0
    for w in s['w']:
        if w[0] == 'x':
            i = int(w[1:])
            o.append(w + (':' + s['y'][i][1:] if s['y'] else ''))
        else:
            o.append('"%s"' % w[1:])
    return ' '.join(o) + (' @ ' + s['l'][1:] if s['l'] != '-' else '')

def line(r):
    return '%s ||| %s ||| %s\n' % (stext(r['src']), ' |COL| '.join(stext(t) for t in r['trg']),
                                   ' '.join('%s=%s' % (k, rulegen.num(v)) for k, v in r['f']))

def lab(rng, p, other=0.15):
    return "'" + (rng.choice(NT) if rng.random() < other else p)

def rule(rng, head, toks, nf, names=('f1', 'f2'), other=0.15, trgwords=None, special=0.05):
    """toks: words "'a" or nonterminal names; head a nonterminal name. Labels of the factors vary with probability other."""
    w, y = [], []
    for t in toks:
        if t[0] == "'":
            w.append(t)
        else:
            w.append('x%d' % len(y))
            y.append("'" + t)
    trg = []
    for _ in range(nf):
        tw = ['x%d' % i for i in range(len(y))]
        rng.shuffle(tw)
        for _k in range(rng.choice([0, 1, 1, 2]) if tw else rng.choice([1, 1, 2])):
            tw.insert(rng.randint(0, len(tw)), "'" + (rng.choice(rulegen.SPECIAL) if rng.random() < special else rng.choice(trgwords or TRG)))
        trg.append(dict(w=tw, l=lab(rng, head, other), y=[lab(rng, t, other) for t in toks if t[0] != "'"]))
    f = sorted([n, rng.randint(-4, 4) * 250] for n in names if rng.random() < 0.6)
    return dict(src=dict(w=w, l="'" + head, y=y), trg=trg, f=f)

def vec(r, i=None):
    return tuple([r['src']['l']] + [t['l'] for t in r['trg']]) if i is None else tuple([r['src']['y'][i]] + [t['y'][i] for t in r['trg']])

def cyclic(rules):
    """a cycle of unary rules"""
    e = {}
    for r in rules:
        if len(r['src']['w']) == 1 and r['src']['y']:
            e.setdefault(vec(r, 0), set()).add(vec(r))
    for s in e:
        seen, st = set(), list(e[s])
        while st:
            x = st.pop()
            if x == s:
                return True
            if x not in seen:
                seen.add(x)
                st += e.get(x, [])
    return False

def toks(rng, words, maxlen=4, pnt=0.5):
    """a source side that tends to match somewhere in words"""
    n = len(words)
    b = rng.randrange(n)
    e = rng.randint(b + 1, min(n, b + 5))
    out, p, k = [], b, 0
    while p < e and len(out) < maxlen:
        if rng.random() < pnt:
            q = rng.randint(p + 1, e)
            out.append(rng.choice(NT[:3]) if rng.random() < 0.85 else 'S')
            p = q
        else:
            out.append(words[p])
            p += 1
    if rng.random() < 0.08:
        out[rng.randrange(len(out))] = "'" + rng.choice(W)
    return out

def grammar(rng, words, n, nf, other=0.15, unary=0.15, **kw):
    rs = []
    for _ in range(n):
        if rng.random() < unary:
            i = rng.randrange(len(NT) - 1)
            rs.append(rule(rng, NT[rng.randint(i + 1, len(NT) - 1)], [NT[i]], nf, other=0 if rng.random() < 0.7 else other, **kw))
        else:
            t = toks(rng, words)
            if len(t) == 1 and t[0][0] != "'":
                continue
            rs.append(rule(rng, rng.choice(['X', 'X', 'A', 'B', 'S']), t, nf, other=other, **kw))
        if rng.random() < 0.15 and rs:
            r = rs[-1]
            rs.append(rule(rng, r['src']['l'][1:], [w if w[0] == "'" else r['src']['y'][int(w[1:])][1:] for w in r['src']['w']], nf, other=other, **kw))
    # glue
    if rng.random() < 0.7:
        nt = rng.choice(['X', 'X', 'A'])
        rs.append(rule(rng, 'S', [nt], nf, other=0, **kw))
        if rng.random() < 0.8:
            rs.append(rule(rng, 'S', ['S', nt], nf, other=0, **kw))
    return rs

def sentence(rng, maxn=5):
    return ["'" + (rng.choice(W) if rng.random() < 0.9 else rng.choice(['unk', '"', '|', 'é'.encode('utf8').decode('latin-1')])) for _ in range(rng.randint(1, maxn))]
