"""P03: n-best lists."""
import gen

def corrupt(r, rng):
    nb = r['out']['nb']
    if not nb:
        return None
    k = rng.choice(['drop', 'dup', 'score', 'swap'])
    if k == 'drop':
        nb.pop(rng.randrange(len(nb)))
    elif k == 'dup':
        nb.append(nb[-1])
    elif k == 'score':
        nb[rng.randrange(len(nb))]['s'] += 1
    else:
        if len(nb) < 2 or nb[0]['s'] == nb[-1]['s']:
            return None
        nb[0], nb[-1] = nb[-1], nb[0]
    return r

def cases(c, n):
    rng = c.rng
    out = []
    for i in range(n):
        shape = rng.random()
        den = rng.choice([1, 1, 2, 8, 10, 10, 3])
        sc = rng.choice([(-4, 4), (-1, 1), (0, 0), (-40, 40), (-9, -1)])
        g, nd = gen.forest(rng, maxnodes=rng.choice([3, 5, 7]), scores=sc, den=den, nf=rng.choice([1, 1, 2]), nw=rng.choice([1, 2, 3]),
                           deep=shape < 0.5, trgvars=rng.choice(['all', 'some']), feats=False, maxderivs=120)
        k = rng.choice([1, 2, 3, nd, nd + 1, nd + 5, 10, 200])
        out.append(dict(op='nbest', g=g, n=max(1, k), uniq=rng.choice([0, 0, 1]), nf=len(g['edges'][0]['trg'])))
    return out

def run(c):
    c.conform('P03_trace', cases(c, 1200 if not c.thorough else 12000), corrupt=corrupt,
              nontrivial=lambda x: len(x['g']['edges']) > 2)

CFG = '''SPECIFICATION Spec
INVARIANTS NoRepeat BestFirst Complete
%s
CONSTANTS Remember = %s
 Rounding = %s
 Vals = {%s}
 MaxLen = %d
 NEdges = 2
'''

def models(c):
    c.model('NBestLazy', CFG % ('PROPERTY Termination', 'TRUE', 'FALSE', '0, 1' if not c.thorough else '0, 1, 2', 2 if not c.thorough else 3), 'lazy k-best, exact scores')
    c.model('NBestLazy', CFG % ('', 'TRUE', 'TRUE', '0, 1', 2), 'lazy k-best, rounding errors')
    c.model('NBestLazy', CFG % ('', 'FALSE', 'TRUE', '0, 1', 2), 'without remembering pushed candidates', expect_violation='NoRepeat')

_run = run
def run(c):
    models(c)
    _run(c)
