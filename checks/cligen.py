"""Random inputs for the decoder: trees, rule tables, grammars, language models, as text."""
import math

LAB = ['A', 'B', 'C', 'NP']
PRE = ['p', 'q', 'r']
WORDS = ['a', 'b', 'c', 'd']
TRG = ['u', 'v', 'w', 'x', 'y', 'z']

def tree(rng, depth, marker=None, maxkids=3):
    """(label, [kids]) or (label, word)"""
    if depth == 0 or rng.random() < 0.25:
        return (rng.choice(PRE), marker or rng.choice(WORDS))
    k = rng.randint(1, maxkids)
    m = rng.randrange(k) if marker else -1
    return (rng.choice(LAB), [tree(rng, depth - 1, marker if i == m else None, maxkids) for i in range(k)])

def penn(t):
    return '(%s %s)' % (t[0], t[1] if isinstance(t[1], str) else ' '.join(penn(x) for x in t[1]))

def words(t):
    return [t[1]] if isinstance(t[1], str) else [w for x in t[1] for w in words(x)]

def nodes(t):
    r = [t]
    if not isinstance(t[1], str):
        for x in t[1]:
            r += nodes(x)
    return r

def fragment(rng, t, cut, vars_, root=True):
    """source side of a rule matching t, cutting below with probability cut"""
    if not root and rng.random() < cut:
        vars_.append(t[0])
        return 'x%d:%s' % (len(vars_) - 1, t[0])
    if isinstance(t[1], str):
        return '%s ( "%s" )' % (t[0], t[1])
    return '%s ( %s )' % (t[0], ' '.join(fragment(rng, x, cut, vars_, False) for x in t[1]))

def target(rng, vars_, trg=TRG, labels=None, lab=None, maxw=2):
    w = ['x%d:%s' % (i, (labels or {}).get(v, v)) for i, v in enumerate(vars_)]
    rng.shuffle(w)
    for _ in range(rng.choice([0, 1, 1, 2][:maxw + 2]) if w else rng.choice([1, 1, 2])):
        w.insert(rng.randint(0, len(w)), '"%s"' % rng.choice(trg))
    return ' '.join(w) + (' @ %s' % lab if lab else '')

def feats(rng, names=('f1', 'f2', 'f3'), den=4):
    ks = [n for n in names if rng.random() < 0.7]
    return ' '.join('%s=%s' % (n, rng.randint(-3, 3) / den) for n in ks)

def rule_table(rng, trees, nrules, nf=1):
    """A t2s rule table (sorted by source) whose rules match the given trees."""
    rules = {}
    for _ in range(nrules):
        t = rng.choice(nodes(rng.choice(trees)))
        v = []
        s = fragment(rng, t, rng.choice([0.2, 0.5, 0.9]), v)
        tr = ' |COL| '.join(target(rng, v, lab=t[0]) for _ in range(nf))
        rules.setdefault(s, []).append(tr)
    out = []
    for s in sorted(rules):
        for tr in rules[s]:
            out.append('%s ||| %s ||| %s' % (s, tr, feats(rng) or 'f1=0'))
    return out

def hiero(rng, n, nts=('X',), words_=WORDS, trg=TRG, unary=False):
    """A synchronous grammar over the nonterminals, heads nts, plus (S) glue."""
    r = []
    for _ in range(n):
        k = rng.choice([0, 0, 1, 1, 2])
        src, var = [], []
        for i in range(k):
            var.append(rng.choice(nts))
        items = ['x%d:%s' % (i, v) for i, v in enumerate(var)]
        for _w in range(rng.randint(0 if k == 2 else 1, 2)):
            items.insert(rng.randint(0, len(items)), '"%s"' % rng.choice(words_))
        if not items:
            continue
        h = rng.choice(nts)
        r.append('%s @ %s ||| %s ||| %s' % (' '.join(items), h, target(rng, var, trg, lab=h), feats(rng) or 'f1=0'))
    r.append('x0:X @ S ||| x0:X @ S ||| glue=1')
    r.append('x0:S x1:X @ S ||| x0:S x1:X @ S ||| glue=1')
    return r

def arpa(rng, vocab=TRG, order=3, unk=True):
    """A small ARPA model: text."""
    uni = ['<s>', '</s>'] + list(vocab)
    grams = {1: [(w,) for w in uni]}
    for n in range(2, order + 1):
        g = set()
        for h in grams[n - 1]:
            if h[-1] == '</s>':
                continue
            for w in uni:
                if w != '<s>' and rng.random() < 0.35 and (n == 2 or (h[1:] + (w,)) in grams[n - 1]):
                    g.add(h + (w,))
        grams[n] = sorted(g)
    o = ['\\data\\']
    for n in range(1, order + 1):
        o.append('ngram %d=%d' % (n, len(grams[n]) + (1 if n == 1 and unk else 0)))
    for n in range(1, order + 1):
        o.append('')
        o.append('\\%d-grams:' % n)
        if n == 1 and unk:
            o.append('-%.2f\t<unk>' % (2 + rng.randint(0, 100) / 100))
        for g in grams[n]:
            p = -99 if g == ('<s>',) else -rng.randint(10, 250) / 100
            l = '%.2f\t%s' % (p, ' '.join(g))
            if n < order and g[-1] != '</s>':
                l += '\t%.2f' % (-rng.randint(0, 100) / 100)
            o.append(l)
    o += ['', '\\end\\', '']
    return '\n'.join(o)
