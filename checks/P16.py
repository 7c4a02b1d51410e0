"""P16: tree and forest formats."""
import json, math, re
import xml.etree.ElementTree as ET
import treegen as T
from lib import Broken

def codes(s):
    return [ord(c) for c in s]
def cg(g):
    """symbols and words of a recorded graph as sequences of bytes"""
    g = dict(g)
    g['nodes'] = [dict(n, sym=codes(n['sym'][1:])) for n in g['nodes']]
    g['words'] = [codes(w[1:]) for w in g['words']]
    return g

def case(rng, kind):
    r = rng.random
    if kind == 'read':
        fmt = rng.choice(['penn', 'penn', 'rule', 'word'])
        if fmt == 'word':
            text = ''.join(' '.join(rng.choice(T.WORDS) for _ in range(rng.randint(0, 5))) + '\n' for _ in range(rng.randint(1, 3)))
        else:
            labs = T.LABS
            words = T.WORDS
            if fmt == 'rule':
                ts = [T.tree(rng, labs=[l for l in labs], words=words, pre=False) for _ in range(rng.randint(1, 3))]
                text = ''.join(T.rule(t) + rng.choice(['\n', ' \n', '  ']) for t in ts)
            else:
                ts = [T.tree(rng, labs=labs, words=words) for _ in range(rng.randint(1, 3))]
                text = ''.join((T.penn(t, rng) if r() > 0.15 else '()') + rng.choice(['\n', ' ', '\n\n']) for t in ts)
            if r() < 0.25:
                # damaged input
                k = rng.randrange(len(text))
                m = rng.choice(['cut', 'del', 'ins'])
                if m == 'cut':
                    text = text[:k]
                elif m == 'del':
                    text = text[:k] + text[k + 1:]
                else:
                    text = text[:k] + rng.choice('() "x') + text[k:]
        return dict(op='tree_read', kind=kind, fmt=fmt, text=T.u8(text), cs=codes(T.u8(text)))
    if kind in ('write', 'xml'):
        fmt = 'mosesxml' if kind == 'xml' else rng.choice(['penn', 'rule', 'word'])
        t = T.tree(rng, pre=fmt != 'rule', depth=4)
        return dict(op='tree_write', kind=kind, fmt=fmt, g=T.graph(t))
    if kind == 'jsonwrite' or kind == 'jsonread':
        def one():
            if r() < 0.4:
                g = T.graph(T.tree(rng, pre=False), rng, scores=True)
            else:
                g, _ = T.forest(rng, labs=rng.sample(T.LABS, 5), words=T.WORDS)
            if r() < 0.5:
                rng.shuffle(g['edges'])
            for e in g['edges']:
                e['f'] = [[rng.choice(['f1', 'a"b', 'lm', 'x\\', T.u8('é'), 'w.x', '7']), rng.choice([-3, 1, 2, 5])]] if r() < 0.5 else []
                if r() < 0.5:
                    e['trg'] = [dict(w=[("'" + T.u8(rng.choice([w for w in T.WORDS if w != '-5']))) if r() < 0.6 or not e['t'] else 'x%d' % rng.randrange(len(e['t']))
                                        for _ in range(rng.randint(1, 3))]) for _f in range(rng.choice([1, 1, 2]))]
            return g
        if kind == 'jsonwrite':
            return dict(op='tree_write', kind=kind, fmt='json', g=one())
        gs = [one() for _ in range(rng.randint(1, 2))]
        asc = r() < 0.5
        return dict(op='tree_read', kind=kind, fmt='json', gs=gs, text=''.join(jtext(g, asc) + '\n' for g in gs))
    words = [w for w in T.WORDS if w != '|||' and w not in T.LABS]
    if kind == 'egretwrite':
        g, _ = T.forest(rng, labs=rng.sample([l for l in T.LABS], 5), words=words)
        for e in g['edges']:
            e['f'] = []
        return dict(op='tree_write', kind=kind, fmt='egret', norm=0, g=g)
    fs, text = [], ''
    norm = 1 if r() < 0.6 else 0
    for _ in range(rng.randint(1, 3)):
        g, _n = T.forest(rng, labs=rng.sample(T.LABS, 5), words=words)
        N = g['nodes']
        if r() < 0.1:
            g['edges'] = []
        lines = []
        for e in g['edges']:
            h = N[e['h']]
            w = rng.randint(1, 9)
            lines.append(dict(h=[h['sym'], h['b'], h['e']], t=[[N[t]['sym'], N[t]['b'], N[t]['e']] for t in e['t']], wd=[not any(x['h'] == t for x in g['edges']) for t in e['t']],
                              w=w, s=rng.randint(-2000, 0)))
        lines.reverse()
        text += 'sentence %d :\n' % len(fs) + ' '.join(x[1:] for x in g['words']) + '\n'
        for l in lines:
            sc = '%.17g' % math.log(l['w'] / 10.0) if norm else '%g' % (l['s'] / 1000.0)
            name = lambda k: '%s[%d,%d]' % (k[0][1:], k[1], k[2] - 1)
            text += name(l['h']) + ' => ' + ' '.join(t[0][1:] if wd else name(t) for t, wd in zip(l['t'], l['wd'])) + ' ||| ' + sc + '\n'
        text += '\n' if lines else '\n\n'
        fs.append(dict(lines=lines, words=g['words']))
    return dict(op='tree_read', kind=kind, fmt='egret', norm=norm, ex=norm, scale=1000000 if norm else 1000, fscale=1000000 if norm else 1000, forests=fs, text=text)

def jtext(g, asc):
    d = g['den']
    un = lambda s: s[1:].encode('latin-1').decode('utf8')
    wd = lambda s: un(s) if s[0] == "'" else -1 - int(s[1:])
    o = dict(nodes=[dict(id=i, sym=un(n['sym']), span=[n['b'], n['e']]) for i, n in enumerate(g['nodes'])],
             edges=[], words=[un(w) for w in g['words']])
    for i, e in enumerate(g['edges']):
        x = dict(id=i, head=e['h'])
        if e['t']:
            x['tails'] = e['t']
        if e['s']:
            x['score'] = e['s'] / d
        if e['f']:
            x['features'] = {k.encode('latin-1').decode('utf8'): v / d for k, v in e['f']}
        if e['trg']:
            x['trg'] = [dict(label=-999999, words=[wd(w) for w in t['w']]) for t in e['trg']]
        o['edges'].append(x)
    s = json.dumps(o, ensure_ascii=asc)
    return s if asc else T.u8(s)

def parse_json(text):
    try:
        o = json.loads(text.encode('latin-1').decode('utf8'))
        q = lambda s: "'" + T.u8(s)
        wd = lambda w: q(w) if isinstance(w, str) else 'x%d' % (-1 - w)
        g = dict(nodes=[dict(id=n['id'], sym=q(n['sym']), b=n['span'][0], e=n['span'][1]) for n in o['nodes']],
                 edges=[dict(h=e['head'], t=e.get('tails', []), s=round(e.get('score', 0) * 1000), f=[[T.u8(k), round(v * 1000)] for k, v in e.get('features', {}).items()],
                             trg=[dict(w=[wd(w) for w in t.get('words', [])]) for t in e.get('trg', [])]) for e in o['edges']],
                 words=[q(w) for w in o['words']])
        return True, g
    except (ValueError, KeyError, TypeError, IndexError):
        return False, {}

def parse_egret(text):
    ls = text.split('\n')
    if len(ls) < 2 or not ls[0].startswith('sentence'):
        return False, [], []
    words = ["'" + w for w in ls[1].split(' ') if w]
    out = []
    for l in ls[2:]:
        if l == '':
            continue
        m = re.match(r'^(\S+)\[(-?\d+),(-?\d+)\] =>((?: \S+)*) \|\|\| (\S+)$', l)
        if not m:
            return False, [], words
        h = ["'" + m.group(1), int(m.group(2)), int(m.group(3)) + 1]
        t = []
        for x in m.group(4).split(' ')[1:]:
            k = re.match(r'^(.*)\[(\d+),(\d+)\]$', x)
            t.append(["'" + k.group(1), int(k.group(2)), int(k.group(3)) + 1] if k else ["'" + x, h[1], h[2]])
        out.append(dict(h=h, t=t, s=round(float(m.group(5)) * 1000)))
    return True, out, words

def xml_term(text):
    try:
        def go(e):
            k = []
            def txt(s):
                for w in (s or '').split():
                    k.append(dict(l=codes(T.u8(w)), leaf=True, k=[]))
            txt(e.text)
            for c in e:
                k.append(go(c))
                txt(c.tail)
            return dict(l=codes(T.u8(e.get('label'))), leaf=False, k=k)
        return True, go(ET.fromstring(text.encode('latin-1').decode('utf8')))
    except (ET.ParseError, UnicodeDecodeError, AttributeError):
        return False, {}

def post(r):
    if r['st'] != 'ok':
        return r
    k, i, o = r['in']['kind'], r['in'], r['out']
    r = dict(r)
    if k == 'read':
        r['out'] = dict(end=o['end'], gs=[cg(g) for g in o['gs']])
        r['in'] = dict(kind=k, fmt=i['fmt'], cs=i['cs'])
    elif k == 'write':
        r['in'] = dict(kind=k, fmt=i['fmt'], g=cg(i['g']))
        r['out'] = dict(cs=codes(o['text']), back=dict(end=o['back']['end'], gs=[cg(g) for g in o['back']['gs']]))
    elif k == 'xml':
        wf, x = xml_term(o['text'])
        r['in'] = dict(kind=k, g=cg(i['g']))
        r['out'] = dict(wf=wf, x=x)
    elif k == 'jsonwrite':
        wf, j = parse_json(o['text'])
        r['out'] = dict(wf=wf, j=j, back=o['back'])
    elif k == 'egretwrite':
        wf, ls, ws = parse_egret(o['text'])
        r['out'] = dict(wf=wf, lines=ls, words=ws, back=o['back'])
    return r

def corrupt(r, rng):
    k, o = r['in']['kind'], r['out']
    gs = o['gs'] if 'gs' in o else o['back']['gs'] if 'back' in o else []
    gs = [g for g in gs if g['nodes']]
    if k == 'xml':
        o['x']['leaf'] = True
        return r
    if not gs:
        return None
    g = rng.choice(gs)
    m = rng.choice(['span', 'sym', 'word', 'edge'])
    if m == 'span':
        rng.choice(g['nodes'])['e'] += 1
    elif m == 'sym':
        rng.choice(g['nodes'])['sym'] = g['words'][0] + (g['words'][0] if isinstance(g['words'][0], list) else 'zz') if g['words'] and g['words'][0] else g['nodes'][0]['sym'] * 2
    elif m == 'word' and g['words']:
        g['words'].append(g['words'][0])
    else:
        g['edges'][rng.randrange(len(g['edges']))]['h'] += 1
    return r

def run(c):
    n = 350 if not c.thorough else 4000
    runner = lambda cs: [post(r) for r in c.drive(cs)]
    for kinds in (('read', 'write', 'xml'), ('jsonwrite', 'jsonread', 'egretread', 'egretwrite')):
        c.conform('P16_trace', [case(c.rng, k) for k in kinds for _ in range(n)], runner=runner, corrupt=corrupt,
                  nontrivial=lambda x: len(x.get('text', 'x' * 20)) > 10, name='+'.join(kinds))
