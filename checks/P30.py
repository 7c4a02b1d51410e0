"""P30: options from defaults, files and command lines."""
import os, re, subprocess, tempfile

def voc():
    v = []
    def add(s, i=None, r=None, b=None):
        v.append(dict(s=s, isint=int(i is not None), i=i or 0, isreal=int(r is not None), r=r or 0, isbool=int(b is not None), b=b or 0,
                      parts=[] if s == '' else re.split('[| ]', s)))
    for s in ('0', '00', '1', '7', '12', '2000', '007', '+3'):
        add(s, int(s), int(s) * 1000)
    for s in ('0.0', '0.00', '1.5', '.25', '1e-3', '2e1', '0.125', '10.'):
        add(s, None, round(float(s) * 1000))
    for s in ('-4', '-0'):
        add(s, int(s), int(s) * 1000)
    add('-2.5', None, -2500)
    add('true', b=1)
    add('false', b=0)
    for s in ('', 'abc', 'yes', 'True', 'x1', 'a b', 'a|b c', 'foo=1 bar=2', 'a  b', '|', '1 2', '3 4|5', '1x', '2.5y', '0x', 'truefalse'):
        add(s)
    return v
VOC = voc()
ALL = [x['s'] for x in VOC]
ARG = [s for s in ALL if s != '' and s[0] != '-']
LINE = [s for s in ALL if s != '' and '\n' not in s]
NAMES = ['nbest', 'pop_limit', 'lm_file', 'a', 'debug']

def argtok(rng, names):
    if rng.random() < 0.6:
        return dict(d=1, s=rng.choice(names) if rng.random() < 0.97 else rng.choice(['zz', '', 'nbes', 'nbestx', '-nbest']))
    return dict(d=0, s=rng.choice(ARG))

def gen_args(rng, names):
    return [argtok(rng, names) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5]))]

def gen_file(rng, names):
    f = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        if rng.random() < 0.04:
            f.append(dict(kind='bad', name='', lines=[], text=rng.choice(['nbest', '[nbest', 'nbest]', '[]', 'x=1'])))
        else:
            n = rng.choice(names) if rng.random() < 0.97 else 'zz'
            ls = [rng.choice(LINE) for _ in range(rng.choice([1, 1, 1, 2, 3, 0 if rng.random() < 0.1 else 1]))]
            f.append(dict(kind='item', name=n, lines=ls, text=''))
    return f

def file_text(rng, f):
    t = ''
    for x in f:
        if rng.random() < 0.3:
            t += '# a comment\n'
        if rng.random() < 0.2:
            t += '\n'
        t += x['text'] + '\n' if x['kind'] == 'bad' else '[%s]\n%s\n' % (x['name'], ''.join(l + '\n' for l in x['lines']))
    return t

def case(rng):
    names = rng.sample(NAMES, rng.randint(1, 4))
    opts = [[n, rng.choice(ALL)] for n in names]
    ops = []
    files = 0
    for _ in range(rng.randint(1, 6)):
        k = rng.random()
        if k < 0.35:
            a = gen_args(rng, names)
            ops.append(['args', a, [('-' if x['d'] else '') + x['s'] for x in a]])
        elif k < 0.6:
            f = gen_file(rng, names)
            ops.append(['file', f, file_text(rng, f)])
        elif k < 0.7:
            t = rng.choice(['int', 'bool', 'real', 'str'])
            n = rng.choice(names) if rng.random() < 0.97 else 'zz'
            if t == 'int':
                e = rng.choice([x for x in VOC if x['isint'] and x['s'] == str(x['i'])])
                ops.append(['setint', n, e['i'], e['s']])
            elif t == 'bool':
                e = rng.choice([x for x in VOC if x['isbool']])
                ops.append(['setbool', n, e['b'], e['s']])
            elif t == 'real':
                e = rng.choice([x for x in VOC if x['isreal'] and '%g' % (x['r'] / 1000) == x['s']])
                ops.append(['setreal', n, e['r'], e['s']])
            else:
                ops.append(['setstr', n, rng.choice(ALL)])
        else:
            n = rng.choice(names) if rng.random() < 0.98 else 'zz'
            ops.append([rng.choice(['str', 'str', 'strs']), n])
    for n in names:
        ops.append(['str', n])
    if rng.random() < 0.6:
        # one typed read, last: an ill-typed value ends the run
        n = rng.choice(names)
        ops.append([rng.choice(['int', 'real', 'bool']), n])
    lo = rng.choice([0, 0, 0, 1])
    return dict(op='config', min=lo, max=rng.choice([lo, 1, 2, 255, 255]), opts=opts, voc=None, ops=ops)

def closure(c):
    """every text that can be read, with its meaning"""
    v = {x['s']: x for x in VOC}
    used = set(o[1] for o in c['opts'])
    used.add('true')
    for o in c['ops']:
        if o[0] == 'args':
            used.update(x['s'] for x in o[1] if not x['d'])
        elif o[0] == 'file':
            used.update(' '.join(x['lines']) for x in o[1])
        elif o[0] in ('setint', 'setbool', 'setreal'):
            used.add(o[3])
        elif o[0] == 'setstr':
            used.add(o[2])
    out = []
    for s in sorted(used):
        if s in v:
            out.append(v[s])
        else:
            out.append(dict(s=s, isint=0, i=0, isreal=0, r=0, isbool=0, b=0, parts=[] if s == '' else re.split('[| ]', s)))
    c['voc'] = out

def corrupt(r, rng):
    if r['out']['die']:
        r['out']['die'] = 0
        return r
    if not r['out']['obs']:
        return None
    i = rng.randrange(len(r['out']['obs']))
    x = r['out']['obs'][i]
    r['out']['obs'][i] = x + 1 if isinstance(x, int) else (x + 'q' if isinstance(x, str) else x + ['q'])
    return r

def run(c):
    rng = c.rng
    cs = []
    for _ in range(3000 if not c.thorough else 25000):
        x = case(rng)
        closure(x)
        cs.append(x)
    c.conform('P30_trace', cs, corrupt=corrupt, nontrivial=lambda x: len(x['ops']) > 2)
    # the decoder's own options
    exe = c.build('travatar')['travatar']
    def runner(cases):
        def one(k):
            d = tempfile.mkdtemp(dir=c.work)
            args = [exe]
            if k['file'] is not None:
                open(d + '/conf', 'w').write(k['ftext'])
            args += [a.replace('@CONF@', d + '/conf') for a in k['argv']]
            p = subprocess.run(args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            err = p.stderr.decode('latin-1').replace(d + '/conf', '@CONF@')
            shown = 'Optional arguments:' in err
            tab = []
            if shown:
                for l in err.split('Optional arguments:\n', 1)[1].split('\n'):
                    m = re.match(r' -(\w+) \t(.*)$', l)
                    if not m:
                        break
                    tab.append([m.group(1), m.group(2)])
            return dict(st='ok' if p.returncode >= 0 or p.returncode == -6 or shown else 'crash', out=dict(shown=int(shown), rc=p.returncode, tab=tab))
        return [dict(r, **{'in': k}) for k, r in zip(cases, c.pmap(one, cases))]
    defaults = runner([dict(file=[], ftext='', argv=['-config_file', '@CONF@', '-tm_file', '/nonexistent/tm'])])[0]['out']['tab']
    defaults = [[n, '' if n in ('config_file', 'tm_file') else v] for n, v in defaults]
    cs = []
    VALS = {'nbest': ['1', '5', '100'], 'threads': ['1', '2'], 'pop_limit': ['10', '500'], 'buffer': ['true', 'false'], 'nbest_uniq': ['true', 'false'],
            'search': ['cp', 'inc'], 'in_format': ['penn', 'word'], 'weight_vals': ['a=1 b=2'], 'tm_storage': ['hash', 'marisa'], 'trg_factors': ['1', '2'],
            'all_unk': ['true'], 'forest_nbest_trim': ['3'], 'debug': ['0', '1'], 'binarize': ['left', 'none']}
    for _ in range(60 if not c.thorough else 400):
        f = [dict(kind='item', name=n, lines=[rng.choice(VALS[n])], text='') for n in rng.sample(sorted(VALS), rng.randint(0, 5))]
        if rng.random() < 0.08:
            f.insert(rng.randrange(len(f) + 1), rng.choice([dict(kind='bad', name='', lines=[], text='x'), dict(kind='item', name='nosuch', lines=['1'], text='')]))
        ft = file_text(rng, f)
        prs = [(n, rng.choice(VALS[n])) for n in rng.sample(sorted(VALS), rng.randint(0, 5))]
        if prs and rng.random() < 0.4:
            prs.append((prs[0][0], rng.choice(VALS[prs[0][0]])))
        prs += [('config_file', '@CONF@'), ('tm_file', '/nonexistent/tm')]
        if rng.random() < 0.05:
            prs.append(('nosuch', '1'))
        rng.shuffle(prs)
        a = []
        for n, v in prs:
            a += [dict(d=1, s=n)]
            if not (v == 'true' and rng.random() < 0.5):
                a += [dict(d=0, s=v)]
        cs.append(dict(opts=defaults, args=a, argv=[('-' if x['d'] else '') + x['s'] for x in a], file=f, ftext=ft))
    c.conform('P30_trace', cs, runner=runner, diag='DiagCli', name='P30:travatar')
