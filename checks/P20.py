"""P20: the symbol dictionary, by one thread and by several under controlled schedules."""
import schedlib

POOL = ['a', 'b', 'aa', 'A', '"', '\\', '(', ')', 'x0', '\u3042', 'e\u0301', '\u00e9', '-1', '0', 'a"b', '|||', '=', '.', 'the', 'thee', 'thf', '<s>', '<unk>', ';',
        'ab' * 40, 'ab' * 40 + 'c']
POOL = [x.encode('utf8').decode('latin-1') for x in POOL]

def seq(rng):
    n = rng.choice([2, 3, 5, 8, 12])
    ws = rng.sample(POOL, min(n, len(POOL)))
    if rng.random() < 0.2:
        ws += ['w%d' % i for i in range(rng.choice([60, 300]))]
    ops = []
    for _ in range(rng.randint(3, 14)):
        k = rng.random()
        if k < 0.45:
            ops.append(['wid', rng.randrange(len(ws))])
        elif k < 0.65 and any(o[0] == 'wid' for o in ops):
            ops.append(['sym', rng.randrange(50)])
        elif k < 0.75:
            ops.append(['freeze', 0])
        elif k < 0.9:
            ops.append(['sent', [rng.randrange(len(ws)) for _ in range(rng.choice([1, 2, 4, 40]))]])
        else:
            ops.append(['save', [rng.randrange(len(ws)) for _ in range(rng.choice([0, 1, 3, 6]))]])
    return dict(op='dict', words=ws, ops=ops)

def con(rng, k):
    ws = rng.sample(POOL, rng.choice([1, 2, 3, 4]))
    ph = []
    for _ in range(rng.choice([1, 1, 2])):
        th = []
        for _ in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 3)):
                ops.append(['wid', rng.randrange(len(ws))])
                if rng.random() < 0.5:
                    ops.append(['sym', rng.randrange(4)])
            th.append(ops)
        ph.append(th)
    return dict(scen='dict', words=ws, phases=ph, seed=rng.randrange(1 << 20), nrand=200 * k, npct=150 * k, ndfs=300 * k, bound=1 if k == 1 else 2)

def bad_ids(ev, rng):
    ix = [i for i, e in enumerate(ev) if e[0] in ('wid', 'sym')]
    return rng.choice(ix) if ix else None

def corrupt_con(r, rng):
    ev = r['out']['ev']
    ix = [i for i, e in enumerate(ev) if e[0] == 'sym' or any(f[0] == 'wid' and f[1] == e[1] for f in ev[:i] if e[0] == 'wid')]
    if not ix:
        return None
    i = rng.choice(ix)
    ev[i][rng.choice([1, 2]) if ev[i][0] == 'sym' else 2] += 1000
    return r

def corrupt_seq(r, rng):
    seen = {}
    ix = []
    for i, o in enumerate(r['in']['ops']):
        if o[0] == 'sym' and r['out'][i][0] >= 0:
            ix.append(i)
        if o[0] == 'save' and o[1]:
            ix.append(i)
    if not ix:
        return None
    i = rng.choice(ix)
    if r['in']['ops'][i][0] == 'sym':
        r['out'][i][1] += 1
    else:
        r['out'][i][0][1] += 1
    return r

def run(c):
    base = 'SPECIFICATION DSpec\nINVARIANT %s\nCONSTANTS Threads = {t1, t2} Words = {a, b%s} Ops = %d Variant = "%s"\n'
    c.model('SymbolDict', base % ('Refines OneToOne BackWard', '', 3 if c.thorough else 2, 'ok'), 'locked look-ups refine a growing one-to-one map')
    if c.thorough:
        c.model('SymbolDict', base % ('Refines OneToOne BackWard', ', c', 2, 'ok'), 'three words')
    c.model('SymbolDict', base % ('Refines', '', 2, 'unlocked'), 'searching and inserting under different locks', expect_violation='Refines')
    k = 4 if c.thorough else 1
    c.conform('P20_trace', [seq(c.rng) for _ in range(600 * k)], diag='DiagSeq', corrupt=corrupt_seq)
    schedlib.conform(c, 'P20_trace', [con(c.rng, k) for _ in range(48 * k)], corrupt=corrupt_con)
