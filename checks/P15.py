"""P15: phrase pairs and hierarchical rules."""
import ghkmgen

def case(rng):
    n = rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 6])
    m = rng.choice([n, n, n + 1, max(0, n - 1), rng.randint(0, 6)])
    m = min(m, 6)
    ws = ['a', 'b', 'c', 'd', 'x0', 'X']
    return dict(op='hiero', src=[rng.choice(ws) for _ in range(n)], trg=[rng.choice(ws) + rng.choice(['', '1']) for _ in range(m)],
                align=ghkmgen.align(rng, n, m) if n else [], maxphrase=rng.choice([1, 2, 3, 4, 10, 10, 10]), maxterm=rng.choice([1, 2, 3, 5, 5]))

def corrupt(r, rng):
    o = r['out']
    k = rng.choice(['phrase', 'drop', 'dup', 'link', 'text', 'split'])
    if not o['groups']:
        if o['phrases']:
            o['phrases'].pop()
            return r
        return None
    g = rng.choice(o['groups'])
    if k == 'phrase':
        o['phrases'].pop(rng.randrange(len(o['phrases'])))
    elif k == 'drop':
        g.pop(rng.randrange(len(g)))
    elif k == 'dup':
        g.append(g[0])
    elif k == 'link':
        g[0][1].append([7, 7])
    elif k == 'text':
        g[0][0] = g[0][0].replace('X', 'Y')
    else:
        if len(g) < 2:
            return None
        o['groups'].append([g.pop()])
    return r

def run(c):
    for n, m, l in ((3, 3, 3), (4, 2, 2)) + (((4, 3, 4), (3, 4, 3), (4, 3, 2)) if c.thorough else ()):
        c.model('HieroModel', 'INIT Init\nNEXT Next\nCONSTANTS\nN = %d\nM = %d\nLim = %d\nLoose = FALSE\nINVARIANTS Unique Refill KeepLinks\n' % (n, m, l),
                'all alignments of %d with %d words: variables filled give the phrase back, links kept' % (n, m))
    c.model('HieroModel', 'INIT Init\nNEXT Next\nCONSTANTS\nN = 3\nM = 2\nLim = 3\nLoose = TRUE\nINVARIANTS KeepLinks\n', 'not when links may leave a phrase', expect_violation='KeepLinks')
    c.conform('P15_trace', [case(c.rng) for _ in range(4000 if not c.thorough else 15000)], corrupt=corrupt, nontrivial=lambda x: len(x['align']) > 1)
