"""Stands for the programs that mert-travatar.pl calls: decoding and tuning are scripted by a plan, the scripts of the toolkit are the real ones;
each can be made to stop everything, or to fail, before, within or after its work."""
import gzip, json, os, signal, subprocess, sys

name = os.path.basename(sys.argv[0])
args = sys.argv[1:]
plan = json.load(open(os.environ['FPLAN']))
stop = json.loads(os.environ.get('FSTOP') or 'null')
T = os.environ['FTMP']
K = 'after'

def lines(t):
    t = t.split('\n')
    return t[:-1] if t[-1] == '' else t
def read(p):
    try:
        return open(p, encoding='utf-8').read()
    except OSError:
        return 'unreadable'
def num(v):
    try:
        return round(float(v) * 10000)
    except ValueError:
        return -999999
def weights(ls):
    return sorted([k, num(v)] for k, v in (l.split('=', 1) if '=' in l else (l, 'x') for l in ls))
def config(p):
    w, tm, rest, sec = [], [], [], ''
    for l in read(p).split('\n'):
        # a section ends with an empty line
        if not l:
            sec = ''
        elif not sec:
            sec = l
        if sec == '[weight_vals]' and l and l != sec:
            w.append(l)
        elif sec == '[tm_file]' and l and l != sec:
            tm.append(l)
        elif l:
            rest.append(l)
    def table(f):
        try:
            return lines((gzip.open(f, 'rt', encoding='utf-8') if f.endswith('.gz') else open(f, encoding='utf-8')).read())
        except (OSError, EOFError, ValueError):
            return ['unreadable']
    return dict(w=weights(w), tm=[table(f) for f in tm], rest=rest)
def iteration(w):
    for i, y in enumerate(plan['w']):
        if sorted([k, v] for k, v in y) == w:
            return i + 1
    return -1
def current():
    try:
        return int(read(T + '/it'))
    except ValueError:
        return 0
def log(e):
    with open(T + '/log', 'a') as f:
        f.write(json.dumps(e) + '\n')
def end(kind):
    if kind == 'fail':
        sys.stdout.flush()
        sys.exit(1)
    sys.stdout.flush()
    os.killpg(0, signal.SIGKILL)

def here(p, it):
    return stop and stop['p'] == p and (stop['it'] == it or p == 'filter') and stop['k']

def output(k, path, text):
    """write, in part when stopped"""
    data = text[:len(text) // 2] if k in ('half', 'fail') else text
    f = sys.stdout if path is None else open(path, 'w', encoding='utf-8')
    f.write(data)
    f.flush()
    if path is not None:
        f.close()

def opts(a):
    r, pos, i = {}, [], 0
    while i < len(a):
        if a[i].startswith('-') and i + 1 < len(a):
            r[a[i].lstrip('-')] = a[i + 1]
            i += 2
        else:
            pos.append(a[i])
            i += 1
    return r, pos

if name == 'travatar':
    o, pos = opts(args)
    cf = o.pop('config_file', '')
    c = config(cf)
    t = read(cf).split('[weight_vals]\n', 1)
    names = [l.split('=')[0] for l in t[-1].split('\n\n')[0].split('\n') if '=' in l]
    json.dump(names, open(T + '/names', 'w'))
    it = iteration(c['w'])
    open(T + '/it', 'w').write(str(it))
    nb, fo = o.pop('nbest_out', None), o.pop('forest_out', None)
    n = o.pop('nbest', None) if nb is not None else o.pop('forest_nbest_trim', None)
    e = dict(p='dec', it=it, w=c['w'], tm=c['tm'], rest=c['rest'], src=lines(sys.stdin.read()), cand='nbest' if nb is not None else 'forest', n=str(n), thr=str(o.pop('threads', '')),
             fmt=o.pop('in_format', ''), fac=o.pop('trg_factors', ''), trace='trace_out' in o)
    for x in ('trace_out', 'buffer'):
        o.pop(x, None)
    e['extra'] = ['%s=%s' % k for k in sorted(o.items())] + pos
    log(e)
    if it < 1 or it > len(plan['raw']):
        sys.exit(1)
    k = here('dec', it)
    if k == 'before':
        end(k)
    output(k, nb if nb is not None else fo, '\n'.join(plan['raw'][it - 1]) + '\n' if nb is not None and plan['raw'][it - 1] else '' if nb is not None else 'F%d\n' % it)
    output(None, None, 'out %d\n' % it)
    if k:
        end(k)
elif name in ('batch-tune', 'gen'):
    o, pos = opts(args)
    if name == 'gen' or 'stat_out' in o:
        so, nb = o.pop('stat_out', None), lines(read(o.pop('input' if name == 'gen' else 'nbest', '')))
        it = current()
        log(dict(p='sta', it=it, nb=nb, ref=lines(read(o['ref'] if name == 'gen' else (pos + [''])[0])), by='gen' if name == 'gen' else 'batch', fac=o.get('trg_factors', ''), eval=o.get('eval', '')))
        k = here('sta', it)
        if k == 'before':
            end(k)
        output(k, so, ''.join('s ' + l + '\n' for l in nb))
    else:
        w = weights([y for l in lines(read(o.pop('weight_in', ''))) for y in l.split(' ') if y])
        it = iteration(w)
        nbs, st = o.pop('nbest', o.pop('forest', '')), o.pop('stat_in', '')
        ev = o.pop('eval', '')
        for x in ('threads', 'trg_factors'):
            o.pop(x, None)
        log(dict(p='tun', it=it, w=w, nbs=[lines(read(f)) for f in nbs.split(',')], stats=[lines(read(f)) for f in st.split(',')] if st else [], eval=ev, ref=lines(read((pos + [''])[0])),
                 extra=['%s=%s' % y for y in sorted(o.items())] + pos[1:]))
        if it < 1 or it >= len(plan['w']):
            sys.exit(1)
        k = here('tun', it)
        if k == 'before':
            end(k)
        sys.stderr.write('Best: a=1 => 0.5\n')
        text = ('\n' if plan['rows'] else ' ').join('%s=%s' % (y, '%.4f' % (v / 10000)) for y, v in plan['w'][it]) + '\n'
        output(k, None, text)
    if k:
        end(k)
elif name == 'extractor':
    o, pos = opts(args)
    names, it = json.load(open(T + '/names')), current()
    nb = []
    for l in lines(read(o.get('n', ''))):
        f = l.split(' ||| ')
        v = f[-1].split(' ')
        nb.append(' ||| '.join(f[:-1] + [' '.join('%s=%s' % y for y in sorted(zip(names, v)))] + ([] if len(v) == len(names) else ['%d features' % len(v)])))
    log(dict(p='sta', it=it, nb=nb, ref=lines(read(o.get('r', ''))), by='moses', fac='', eval=''))
    k = here('sta', it)
    if k == 'before':
        end(k)
    output(k, o['scfile'], ''.join('s ' + l + '\n' for l in nb))
    output(k, o['ffile'], ''.join('f ' + l + '\n' for l in nb))
    if k:
        end(k)
elif name == 'mert':
    o, pos = opts(args)
    names, it = json.load(open(T + '/names')), current()
    ini = [[float(v) for v in l.split(' ')] for l in lines(read(o.get('ifile', '')))]
    log(dict(p='tun', it=it, w=sorted([k, round(v * 10000)] for k, v in zip(names, ini[0])), nbs=[lines(read(f)) for f in o['ffile'].split(',')], stats=[lines(read(f)) for f in o['scfile'].split(',')],
             d=int(o.get('d', '0')), whole=[len(l) for l in ini] == [len(names)] * 3 and not any(ini[1]) and set(ini[2]) == {1.0}))
    if it < 1 or it >= len(plan['w']):
        sys.exit(1)
    k = here('tun', it)
    if k == 'before':
        end(k)
    new = dict((y, v) for y, v in plan['w'][it])
    t = 'Best point: %s  => 0.25\n' % ' '.join('%.4f' % (new[n] / 10000) for n in names)
    sys.stderr.write(t[:len(t) // 2] if k in ('half', 'fail') else t)
    sys.stderr.flush()
    if k:
        end(k)
else:
    real = plan['real'].get(name)
    inp = None
    it = current()
    if name == 'pp':
        p = 'pp'
    elif name in ('nbest-uniq.pl', 'densify-nbest.pl'):
        p = 'uniq'
    elif name == 'filter-model.pl':
        p = 'filter'
    elif name == 'update-weights.pl':
        p = 'fin' if '-model' in args else 'upd'
    else:
        p = 'other'
    k = here(p, it)
    if k == 'before':
        end(k)
    if p == 'pp':
        t = []
        for l in lines(sys.stdin.read()):
            f = l.split(' ||| ')
            f[1] = f[1].upper()
            t.append(' ||| '.join(f))
        output(k, None, ''.join(x + '\n' for x in t))
    else:
        r = subprocess.run(real + args, stdout=subprocess.PIPE)
        text = r.stdout.decode('utf-8', 'replace')
        if p == 'filter' and k in ('half', 'fail'):
            t = read(args[1])
            open(args[1], 'w', encoding='utf-8').write(t[:len(t) // 2])
        output(k, None, text)
        if not k:
            sys.exit(r.returncode if r.returncode >= 0 else 1)
    if k:
        end(k)
