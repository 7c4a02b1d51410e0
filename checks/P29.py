"""P29: formulas."""

def render(rng, toks, vals):
    """toks -> text; operands are numbers or (when they have one) variables"""
    names = {}
    s = ''
    prev_num = False
    for t in toks:
        if t[0] == 'n':
            txt = None
            if rng.random() < 0.4 and t[1:] != [0, 0]:
                for n, v in vals.items():
                    if v == t[1:]:
                        txt = n
            if txt is None:
                if t[2] == 1:
                    txt = str(t[1])
                else:
                    txt = '%d.%0*d' % (t[1] // t[2], {10: 1, 100: 2, 4: 2, 2: 1}[t[2]], {10: 1, 100: 1, 4: 25, 2: 5}[t[2]] * (t[1] % t[2]))
                if rng.random() < 0.1 and '.' not in txt:
                    txt += '.'
            if prev_num:
                s += ' '
            prev_num = True
            s += txt
        else:
            s += {'u': 'Q', 'bad': rng.choice('^x%!a,=')}.get(t[0], t[0])
            prev_num = False
        if rng.random() < 0.15:
            s += ' ' * rng.randint(1, 2)
            
    return s

def formula(rng, d, vals):
    def operand():
        if rng.random() < 0.5 and vals:
            return [['n'] + rng.choice(list(vals.values()))]
        den = rng.choice([1, 1, 1, 10, 4, 2, 100])
        n = rng.randint(0, 12 * den) if den < 100 else rng.randint(0, 300)
        return [['n', n, den]]
    if d == 0 or rng.random() < 0.15:
        return operand()
    k = rng.random()
    if k < 0.3:
        return [['(']] + formula(rng, d - 1, vals) + [[')']]
    return formula(rng, d - 1, vals) + [[rng.choice('+-*/')]] + formula(rng, d - 1, vals)

def corrupt(r, rng):
    if r['out']['ok'] == 0:
        r['out']['ok'] = 1
        r['out']['v'] = 123
    else:
        r['out']['v'] += 1500
    return r

def run(c):
    rng = c.rng
    gen = c.generate('FormulaGen', 'INIT Init\nNEXT Next\nINVARIANTS Exclusive Parens Distrib\nCONSTANT MaxLen = %d\n' % (4 if not c.thorough else 6),
                     'well- and ill-formedness exclude each other; enumeration of token sequences')
    cs = []
    for t in gen:
        cs.append(dict(op='math', toks=t, q=render(rng, t, {}), vars=[], vden=1))
    if c.thorough:
        wf = [x for x in cs if len(x['toks']) < 6]
        rest = [x for x in cs if len(x['toks']) == 6]
        rng.shuffle(rest)
        cs = wf + rest[:15000]
    for i in range(2500 if not c.thorough else 20000):
        names = rng.sample('ABCDEFGHIJKLMNOP', rng.randint(0, 4))
        vals = {n: [rng.choice([0, 1, 2, 3, 5, 8, 10, 25, -3, -7]), 10] for n in names}
        t = formula(rng, rng.choice([1, 2, 2, 3, 3, 4]), vals)
        if len(t) > 40:
            continue
        if rng.random() < 0.35:
            # break it
            for _ in range(rng.randint(1, 2)):
                k = rng.random()
                p = rng.randrange(len(t) + 1)
                if k < 0.4 and len(t) > 1:
                    del t[min(p, len(t) - 1)]
                elif k < 0.8:
                    t.insert(p, [rng.choice(['+', '-', '*', '/', '(', ')', 'u', 'bad'])])
                else:
                    t.insert(p, ['n', 3, 1])
        # negative operands exist only as variables
        for x in t:
            if x[0] == 'n' and x[1] < 0 and x[1:] not in vals.values():
                x[1] = -x[1]
        q = None
        for _ in range(20):
            q = render(rng, t, vals)
            # a negative value has to have been rendered as a variable
            if not any(x[0] == 'n' and x[1] < 0 for x in t) or _ok(q, t):
                break
            q = None
        if q is None:
            continue
        cs.append(dict(op='math', toks=t, q=q, vars=[[n, v[0]] for n, v in vals.items()], vden=10))
    c.conform('P29_trace', cs, corrupt=corrupt, nontrivial=lambda x: len(x['toks']) > 2)

def _ok(q, t):
    return q.count('-') == sum(1 for x in t if x[0] == '-')
