"""P02: output order and independence of the thread count."""
import json, os, re, subprocess
import cligen, lib, schedlib

def collect(rng, k, big=False):
    if big:
        # a long backlog behind the first sentence
        n = rng.choice([70, 100, 150])
        rows = [[i, rng.choice([0, 1]), 0] for i in range(1, n)]
        if rng.random() < 0.5:
            rng.shuffle(rows)
        th = [[[0, 1, 0]] if rng.random() < 0.5 else [], rows]
        if not th[0]:
            th = [[], rows + [[0, 1, 0]]]
        return dict(scen='collect', buffer=1, threads=th, seed=rng.randrange(1 << 20), nrand=1, npct=2, ndfs=0, bound=1, quiet=1, limit_steps=400000)
    n = rng.randint(1, 6)
    ids = list(range(n))
    rows = [[i, rng.choice([0, 1, 1, 2]), rng.choice([0, 0, 1])] for i in ids]
    if rng.random() < 0.7:
        rng.shuffle(rows)
    nt = rng.choice([1, 2, 2, 3])
    th = [[] for _ in range(nt)]
    for r in rows:
        rng.choice(th).append(r)
    return dict(scen='collect', buffer=int(rng.random() < 0.4), threads=th, seed=rng.randrange(1 << 20), nrand=120 * k, npct=80 * k, ndfs=150 * k,
                bound=1 if k == 1 else 2)

def corrupt_collect(r, rng):
    ev = [e for e in r['out']['ev'] if e[0] in ('ret', 'final') and e[2]]
    if not ev:
        return None
    e = rng.choice(ev)
    if rng.random() < 0.5:
        e[2].pop(rng.randrange(len(e[2])))
        if e[0] == 'ret':
            return None
    else:
        e[2].append(e[2][0])
    return r

def setup(c, i, big):
    """files and options of one decoding set-up"""
    rng = c.rng
    kind = rng.choice(['hash', 'hash', 'marisa', 'fsm', 'fsm', 'cfg'])
    d = os.path.join(c.work, 'p02-%d-%d' % (i, int(big)))
    os.makedirs(d)
    n = rng.choice([20, 60]) if big else rng.choice([2, 3, 4])
    args = ['-config_file', os.path.join(d, 'conf'), '-weight_vals', 'f1=1 f2=-0.5 f3=0.25 glue=-0.5 unk=-2 lm=0.5 lm1=0.5 lm2=0.3 unmatch_trg=-1',
            '-tm_file', os.path.join(d, 'tm'), '-tm_storage', kind]
    open(os.path.join(d, 'conf'), 'w').write('[debug]\n0\n')
    if kind in ('hash', 'marisa'):
        trees = [cligen.tree(rng, rng.choice([1, 2, 3, 4 if big else 3]), marker='mk%d;' % j) for j in range(n)]
        tm = cligen.rule_table(rng, trees, rng.choice([0, 5, 20, 60]) + 1)
        inp = ''.join(cligen.penn(t) + '\n' for t in trees)
        if rng.random() < 0.3:
            k = rng.randrange(n)
            ls = inp.splitlines(True)
            ls[k] = '()\n'
            inp = ''.join(ls)
        if '()' not in inp and rng.random() < 0.3:
            args += ['-consider_trg', 'true']
        if rng.random() < 0.3:
            args += ['-all_unk', 'true']
        if rng.random() < 0.7:
            args += ['-binarize', rng.choice(['none', 'left', 'right', 'rightrp', 'cky'])]
    else:
        ls = []
        for j in range(n):
            w = [rng.choice(cligen.WORDS) for _ in range(rng.choice([0 if kind == 'fsm' else 1, 1, 2, 3, 4, 6 if big else 3]))]
            if rng.random() < 0.7:
                w.insert(rng.randint(0, len(w)), 'mk%d;' % j)
            ls.append(' '.join(w))
        inp = '\n'.join(ls) + '\n'
        tm = cligen.hiero(rng, rng.choice([2, 8, 20]))
        if rng.random() < 0.5:
            tm = [x for x in tm if 'glue' not in x] + ['"%s" @ S ||| "%s" @ S ||| f1=1' % (w, w) for w in 'ab']
        args += ['-in_format', 'word']
        if rng.random() < 0.2 and kind == 'fsm':
            args += ['-delete_unknown', 'true']
        args += ['-binarize', 'none']
    open(os.path.join(d, 'tm'), 'w').write('\n'.join(tm) + '\n')
    lm = rng.random() < 0.4
    if lm:
        open(os.path.join(d, 'lm'), 'w').write(cligen.arpa(rng))
        args += ['-lm_file', os.path.join(d, 'lm'), '-search', rng.choice(['cp', 'cp', 'inc']), '-pop_limit', rng.choice(['5', '200'])]
    outs = []
    nb = rng.choice([1, 2, 10])
    args += ['-nbest', str(nb)]
    if rng.random() < 0.6:
        outs.append('nbest_out')
        if rng.random() < 0.4:
            args += ['-nbest_uniq', 'true']
        if rng.random() < 0.3 and kind != 'cfg':
            args += ['-nbest_tree', 'true']
    if rng.random() < 0.4:
        outs.append('forest_out')
        if rng.random() < 0.5:
            args += ['-forest_nbest_trim', str(rng.choice([1, 3]))]
    if rng.random() < 0.4:
        outs.append('trace_out')
    if rng.random() < 0.3:
        args += ['-buffer', 'false']
    return dict(n=n, kind=kind, args=args, outs=outs, input=inp, dir=d)

def lines(name, text):
    r = []
    for k, l in enumerate(text.split('\n')[:-1] + ([text.split('\n')[-1]] if not text.endswith('\n') and text else [])):
        if name in ('nbest_out', 'trace_out'):
            m = re.match(r'(\d+) \|\|\| ', l)
            r.append([int(m.group(1)) if m else -1, l])
        else:
            m = re.search(r'mk(\d+);', l)
            r.append([int(m.group(1)) if m else k, l])
    return r

def streams(cs, one, run, alone=None):
    """texts by stream name -> what the specification compares; alone: by stream, the sentences that have lines there
    when each is decoded by itself"""
    st = []
    for name in ['stdout'] + cs['outs']:
        cl = {}
        f = lambda x: [[s, cl.setdefault(l, len(cl))] for s, l in lines(name, x[name])]
        st.append(dict(name=name, exact=int(name in ('stdout', 'forest_out')), one=f(one), run=f(run), alone=alone[name] if alone and name in alone else [-1]))
    return st

def cli(exe, cs, threads, tag):
    d = cs['dir']
    a = [exe] + cs['args'] + ['-threads', str(threads)]
    for o in cs['outs']:
        a += ['-' + o, os.path.join(d, o + tag)]
    try:
        r = subprocess.run(a, input=cs['input'].encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, cwd=d)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 99, b''
    res = dict(stdout=out.decode('latin-1'))
    for o in cs['outs']:
        p = os.path.join(d, o + tag)
        res[o] = open(p, encoding='latin-1').read() if os.path.exists(p) else ''
    return rc, res

def solo(exe, cs):
    r = {o: [] for o in cs['outs'] if o in ('nbest_out', 'trace_out')}
    if not r:
        return None
    for i, l in enumerate(cs['input'].splitlines(True)):
        rc, o = cli(exe, dict(cs, input=l), 1, '.alone')
        if rc:
            return None
        for k in r:
            if o[k]:
                r[k].append(i)
    return r

def corrupt_cli(r, rng):
    s = [x for x in r['out']['streams'] if len(x['run']) > 1]
    if not s:
        return None
    x = rng.choice(s)['run']
    k = rng.random()
    i = rng.randrange(len(x) - 1)
    if k < 0.4:
        if x[i] == x[i + 1]:
            return None
        x[i], x[i + 1] = x[i + 1], x[i]
    elif k < 0.7:
        x.pop(i)
    else:
        x.insert(i, list(x[i]))
    return r

def run(c):
    base = 'SPECIFICATION OSpec\nINVARIANT Ordered\n%sCONSTANTS Threads = {t1, t2%s} N = %d Variant = "%s"\n'
    c.model('OutputCollector', base % ('PROPERTY Delivered\n', '', 4, 'ok'), 'two threads, four sentences: always a prefix of the ordered output, all delivered')
    if c.thorough:
        c.model('OutputCollector', base % ('PROPERTY Delivered\n', ', t3', 5, 'ok'), 'three threads, five sentences')
    c.model('OutputCollector', base % ('', '', 3, 'nolock'), 'deciding whose turn it is outside the lock', expect_violation='Ordered')
    c.model('OutputCollector', base.replace('INVARIANT Ordered\n', '') % ('PROPERTY Delivered\n', '', 4, 'noskip'),
            'not handing over sentences without output', expect_violation='violated')
    k = 3 if c.thorough else 1
    schedlib.conform(c, 'P02_trace', [collect(c.rng, k) for _ in range(40 * k)], corrupt=corrupt_collect)
    schedlib.conform(c, 'P02_trace', [collect(c.rng, k, True) for _ in range(8 * k)], corrupt=corrupt_collect)
    # the decoder binary on several threads against one thread
    exe = c.build('travatar', 'dsched')['travatar']
    dexe = c.bins['dsched']
    cases = [dict(setup(c, i, True), threads=c.rng.choice([2, 3, 4, 8])) for i in range(60 * k)]
    def runner(cs):
        def one(x):
            rc1, o1 = cli(exe, x, 1, '.one')
            rc, o = cli(exe, x, x['threads'], '.run')
            return dict(st='ok', out=dict(rc=rc, rc1=rc1, streams=streams(x, o1, o, solo(exe, x) if x['n'] <= 20 else None)), **{'in': dict(x, input='')})
        return c.pmap(one, cs, jobs=6)
    c.conform('P02_trace', cases, runner=runner, diag='DiagCLI', corrupt=corrupt_cli, nontrivial=lambda x: x['n'] > 1)
    # the same decoder in-process with every memory access of the library a possible switch between threads
    small = []
    for i in range(40 * k):
        s = setup(c, i, False)
        s.update(scen='decode', nrand=16 * k, npct=24 * k, ndfs=0, horizon=c.rng.choice([3000, 20000, 100000]), limit_steps=60000000, alarm=60, seed=c.rng.randrange(1 << 20))
        small.append(s)
    def drive(s, threads):
        s = dict(s, threads=threads)
        if threads == 1:
            s.update(nrand=1, npct=0)
        r = subprocess.run([dexe], input=(json.dumps(s) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=s['dir'], timeout=850)
        try:
            return json.loads(r.stdout.decode('latin-1'))
        except ValueError:
            raise lib.Broken('tvdsched gave no answer on %s' % json.dumps(s)[:300])
    nruns = [0]
    def texts(t, s):
        e = t['ev'][-1] if t['ev'] else []
        return dict(zip(['stdout'] + s['outs'], e[1:])) if e and e[0] == 'out' else None
    memo = {}
    def runner2(cs):
        def one(key):
            s = small[key]
            o1 = drive(s, 1)['traces'][0]
            om = drive(s, 2 + s['seed'] % 2)
            nruns[0] += om['runs']
            a = texts(o1, s)
            alone = solo(exe, s)
            res = []
            for t in om['traces']:
                b = texts(t, s)
                if a is None or b is None or t['end'] != 'done' or o1['end'] != 'done':
                    out = dict(rc=0 if t['end'] == 'done' else 1, rc1=0 if o1['end'] == 'done' else 1, streams=[], end=t['end'], end1=o1['end'])
                else:
                    out = dict(rc=0, rc1=0, streams=streams(s, a, b, alone))
                res.append(out)
            return res
        keys = sorted({x['k'] for x in cs})
        for kk, r in zip(keys, c.pmap(one, keys)):
            memo[kk] = r
        recs = []
        for x in cs:
            r = memo[x['k']]
            # the worst of the distinct outcomes stands for the scenario: differing ones first
            bad = [o for o in r if o['rc'] or o['rc1'] or any(t['one'] != t['run'] for t in o['streams'])]
            recs.append(dict(st='ok', out=(bad or r)[0], **{'in': x}))
        return recs
    c.conform('P02_trace', [dict(k=i, n=small[i]['n'], args=small[i]['args'], outs=small[i]['outs']) for i in range(len(small))], runner=runner2,
              diag='DiagCLI', corrupt=corrupt_cli, name='P02_trace:decoder under controlled schedules')
    c.notes['decoder_schedules_run'] = nruns[0]
