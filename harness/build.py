#!/usr/bin/env python3
"""Out-of-tree, content-hash-cached build of /repo's sources plus the harness drivers.

Nothing here looks at modification times: every object is keyed by the hash of its compile
command and of the contents of every (non-system) file it was compiled from, so the objects
always correspond to the current working tree of /repo, however its files were changed.
"""
import hashlib, json, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OBJ = os.path.join(BUILD, 'obj')
CACHE = os.path.join(BUILD, 'deps.json')
KEEP = os.path.join(BUILD, 'cfg')

CXX = ['g++', '-O1', '-w', '-include', 'map', '-DKENLM_MAX_ORDER=6', '-std=c++11', '-pthread']
CC = ['gcc', '-O1', '-w']

def am_sources(path, var):
    """The list of sources in Makefile.am's VAR = a b c \\ ..."""
    txt = open(path).read().replace('\\\n', ' ')
    for line in txt.split('\n'):
        line = line.strip()
        if line.startswith(var) and '=' in line and line.split('=')[0].strip() == var:
            return [x for x in line.split('=', 1)[1].split()]
    return []

class Builder:
    def __init__(self, jobs=8):
        self.jobs = jobs
        self.hashes = {}
        self.log = []
        os.makedirs(OBJ, exist_ok=True)
        os.makedirs(KEEP, exist_ok=True)
        self.cfginc = self.config_include()
        inc = ['-I%s/src/include' % REPO, '-I%s/src/kenlm' % REPO, '-I%s/src' % REPO,
               '-I%s/src/marisa' % REPO] + self.cfginc
        self.cxx = CXX + inc
        self.cc = CC + ['-I%s/src/liblbfgs' % REPO, '-I%s/src' % REPO] + self.cfginc
        try:
            self.deps = json.load(open(CACHE))
        except Exception:
            self.deps = {}
        self.newdeps = {}

    def config_include(self):
        # travatar/config.h is a generated (ignored) file; fall back on a kept copy.
        if os.path.exists(os.path.join(REPO, 'src/include/travatar/config.h')):
            return []
        return ['-I%s' % os.path.join(VERIF, 'harness', 'cfginc')]

    def fhash(self, p):
        h = self.hashes.get(p)
        if h is None:
            try:
                h = hashlib.sha256(open(p, 'rb').read()).hexdigest()
            except OSError:
                h = 'missing'
            self.hashes[p] = h
        return h

    def key(self, cmd, deps):
        m = hashlib.sha256()
        m.update('\0'.join(cmd).encode())
        for d in deps:
            m.update((d + '=' + self.fhash(d) + '\n').encode())
        return m.hexdigest()[:32]

    def compile(self, src, extra=(), tag=''):
        """Return the object file for src."""
        cmd = (self.cc if src.endswith('.c') else self.cxx) + list(extra)
        did = tag + '|' + src
        deps = self.deps.get(did)
        if deps:
            k = self.key(cmd, deps)
            o = os.path.join(OBJ, k + '.o')
            if os.path.exists(o):
                return o
        tmp = os.path.join(OBJ, 'tmp.%d.%s' % (os.getpid(), hashlib.sha256((did).encode()).hexdigest()[:16]))
        r = subprocess.run(cmd + ['-MD', '-MF', tmp + '.d', '-c', src, '-o', tmp + '.o'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise RuntimeError('compilation of %s failed:\n%s' % (src, r.stdout.decode('utf8', 'replace')[-4000:]))
        txt = open(tmp + '.d').read().replace('\\\n', ' ')
        deps = sorted(set(os.path.realpath(x) if not x.startswith('/') else x
                          for x in txt.split(':', 1)[1].split()
                          if not x.startswith('/usr/')))
        os.unlink(tmp + '.d')
        self.deps[did] = deps
        self.newdeps[did] = deps
        o = os.path.join(OBJ, self.key(cmd, deps) + '.o')
        os.rename(tmp + '.o', o)
        self.log.append(src)
        return o

    def compile_all(self, items):
        """items: list of (src, extra, tag) -> list of objects"""
        with ThreadPoolExecutor(self.jobs) as ex:
            res = list(ex.map(lambda it: self.compile(*it), items))
        if self.newdeps:
            tmp = CACHE + '.%d' % os.getpid()
            json.dump(self.deps, open(tmp, 'w'))
            os.rename(tmp, CACHE)
        return res

    def lib_sources(self):
        s = [os.path.join(REPO, 'src/lib', x) for x in am_sources(REPO + '/src/lib/Makefile.am', 'TRAVATARCPP')]
        third = []
        for d, v in (('src/kenlm/lm', 'libklm_la_SOURCES'), ('src/kenlm/util', 'libklm_util_la_SOURCES'),
                     ('src/kenlm/search', 'libklm_search_la_SOURCES'), ('src/marisa', 'libmarisa_la_SOURCES'),
                     ('src/tercpp', 'libter_la_SOURCES'), ('src/liblbfgs', 'liblbfgs_la_SOURCES')):
            third += [os.path.join(REPO, d, x) for x in am_sources(os.path.join(REPO, d, 'Makefile.am'), v) if not x.endswith('_main.cc')]
        return s, third

    LIBS = ['-lboost_thread', '-lboost_regex', '-lboost_iostreams', '-lboost_system', '-lboost_locale',
            '-lboost_program_options', '-lrt', '-lz', '-licui18n', '-licuuc', '-licudata', '-lpthread', '-ldl']

    def link(self, name, objs, extra=()):
        m = hashlib.sha256(('\0'.join(list(objs) + list(extra) + self.LIBS)).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, 'bin', name + '-' + m)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + '.%d' % os.getpid()
            r = subprocess.run(['g++', '-pthread', '-o', tmp] + list(objs) + list(extra) + self.LIBS,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise RuntimeError('link of %s failed:\n%s' % (name, r.stdout.decode('utf8', 'replace')[-4000:]))
            os.rename(tmp, out)
        return out

SCHED = ['thread-pool.cc', 'output-collector.cc', 'dict.cc']
HARNESS = os.path.join(VERIF, 'harness')
CLI = ['travatar', 'batch-tune', 'forest-extractor', 'hiero-extractor', 'mt-evaluator', 'mt-segmenter',
       'rescorer', 'tokenizer', 'train-caser', 'tree-converter']

def build(targets, jobs=8):
    """targets: set of 'drive', 'sched', or cli names. Returns {target: path}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        b = Builder(jobs)
        lib, third = b.lib_sources()
        items = [(s, (), '') for s in lib + third]
        # biggest first
        items.sort(key=lambda it: -os.path.getsize(it[0]) if os.path.exists(it[0]) else 0)
        mains = []
        for t in targets:
            if t in CLI:
                mains.append((os.path.join(REPO, 'src/bin', t + '.cc'), (), ''))
        if 'lmplz' in targets:
            mains.append((REPO + '/src/kenlm/lm/builder/lmplz_main.cc', (), ''))
        drv = []
        if 'drive' in targets:
            drv = [(os.path.join(HARNESS, f), (), '') for f in sorted(os.listdir(HARNESS))
                   if f.startswith('d_') and f.endswith('.cc')]
        sch = []
        if 'sched' in targets or 'dsched' in targets:
            sch = [(os.path.join(HARNESS, f), (), '') for f in ('sched/sched.cc', 'sched/s_main.cc', 'd_json.cc')]
            # in these files every memory access is a scheduling point; the runtime is sched.cc, not the sanitizer's
            sch += [(REPO + '/src/lib/' + f, ('-fsanitize=thread', '--param=tsan-instrument-func-entry-exit=0'), 'tsan') for f in (SCHED if 'dsched' not in targets else [os.path.basename(x) for x in lib])]
        objs = b.compile_all(drv + sch + mains + items)
        od = dict(zip([i[2] + i[0] for i in drv + sch + mains + items], objs))
        libobjs = [od[s] for s in lib + third]
        # an archive would drop nothing we need, but object lists keep the link simple
        out = {}
        def one(t):
            if t in CLI:
                return t, b.link(t, [od[os.path.join(REPO, 'src/bin', t + '.cc')]] + libobjs)
            if t == 'lmplz':
                return t, b.link(t, [od[REPO + '/src/kenlm/lm/builder/lmplz_main.cc']] + libobjs)
            if t == 'drive':
                return t, b.link('tvdrive', [od[d[0]] for d in drv] + libobjs)
            if t == 'sched':
                sel = [d for d in sch if d[2] != 'tsan' or os.path.basename(d[0]) in SCHED]
                rest = [od[s] for s in lib + third if os.path.basename(s) not in SCHED or '/src/lib/' not in s]
                return t, b.link('tvsched', [od[d[2] + d[0]] for d in sel] + rest)
            if t == 'dsched':
                # the whole library under controlled schedules
                return t, b.link('tvdsched', [od[d[2] + d[0]] for d in sch] + [od[s] for s in third])
            raise KeyError(t)
        with ThreadPoolExecutor(jobs) as ex:
            for t, p in ex.map(one, sorted(targets)):
                out[t] = p
        return out
    finally:
        lock.close()

if __name__ == '__main__':
    t = set(sys.argv[1:])
    if not t:
        t = set(CLI) | {'drive', 'sched', 'dsched', 'lmplz'}
        if not os.path.exists(os.path.join(HARNESS, 'sched', 's_main.cc')):
            t.discard('sched')
    for k, v in sorted(build(t).items()):
        print(k, v)
