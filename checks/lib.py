"""Common machinery: build, drive the real code, validate the traces with TLC, report."""
import argparse, collections, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import build as B

REPO = B.REPO
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NJOBS = 8

class Broken(Exception):
    """The machinery itself failed: no verdict."""

def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) id=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out

class Check:
    def __init__(self, pid, argv=None):
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
        ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
        ap.add_argument('--replay')
        a, _ = ap.parse_known_args(argv)
        self.pid = pid
        self.tier = 'thorough' if a.tier == 'thorough' else 'quick'
        self.thorough = self.tier == 'thorough'
        self.seed = a.seed
        self.rng = random.Random('%s-%s' % (pid, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='tvcheck-%s-' % pid)
        self.bins = {}
        self.partial = False
        self.states = self.trans = 0
        self.nrec = 0
        self.distinct = set()
        self.samples = []
        self.parts = []
        self.models = []
        self.violations = []      # (module, case, clauses, record)
        self.corrupted = [0, 0]
        self.assumptions = []
        self.notes = {}
        self.known = {}
        self.kf = [k for k in known_findings() if k[0] == pid]

    # ---------------------------------------------------------------- building
    def build(self, *targets):
        need = [t for t in targets if t not in self.bins]
        if need:
            try:
                self.bins.update(B.build(set(need)))
            except RuntimeError as e:
                raise Broken('build failed: %s' % e)
        return self.bins

    # ----------------------------------------------------------------- driving
    def drive(self, cases, timeout=20):
        """Run every case through the real code; one record per case."""
        exe = self.build('drive')['drive']
        def run(chunk):
            if not chunk:
                return []
            inp = '\n'.join(json.dumps(c) for c in chunk) + '\n'
            r = subprocess.run([exe, str(timeout)], input=inp.encode('ascii'), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, cwd=self.work)
            lines = r.stdout.decode('latin-1').splitlines()
            if len(lines) != len(chunk):
                raise Broken('driver returned %d lines for %d cases (rc %d)' % (len(lines), len(chunk), r.returncode))
            return [json.loads(l) for l in lines]
        k = max(1, min(NJOBS, len(cases)))
        chunks = [cases[i::k] for i in range(k)]
        with ThreadPoolExecutor(NJOBS) as ex:
            res = list(ex.map(run, chunks))
        out = [None] * len(cases)
        for i in range(k):
            for j, r in enumerate(res[i]):
                out[i + j * k] = r
        recs = []
        for c, r in zip(cases, out):
            if r['st'] in ('driver', 'noop'):
                raise Broken('driver error on %s: %s' % (json.dumps(c)[:300], r.get('msg', r['st'])))
            recs.append(dict(r, **{'in': c}))
        return recs

    def pmap(self, fn, items, jobs=NJOBS):
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(fn, items))

    # --------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, extra=(), heap='6g', timeout=int(os.environ.get("TLCT","800")), spec_dir=None):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cfgp = os.path.join(d, 'run.cfg')
        open(cfgp, 'w').write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + d,
               '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC',
               '-metadir', os.path.join(d, 'md'), '-workers', str(workers), '-config', cfgp, '-noGenerateSpecTE'] + list(extra) + \
              [os.path.join(spec_dir or SPEC, module + '.tla')]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            b = Broken('TLC timed out on %s' % module)
            b.out = (x.output or b'').decode('utf8', 'replace')
            raise b
        out = r.stdout.decode('utf8', 'replace')
        shutil.rmtree(os.path.join(d, 'md'), ignore_errors=True)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, out, gen, dist

    def model(self, module, cfg, what, extra=('-deadlock',), workers=8, timeout=800, expect_violation=None, heap='6g', env=None):
        """Design-level check: the specification itself has the property (or, as a sanity check that the
        invariant is not vacuous, a deliberately broken variant of it does not)."""
        rc, out, gen, dist = self.tlc(module, cfg, workers=workers, extra=extra, timeout=timeout, heap=heap, env=env)
        if expect_violation:
            if rc == 0 or expect_violation not in out:
                raise Broken('model %s (%s): expected a violation of %s\n%s' % (module, what, expect_violation, out[-3000:]))
        elif rc != 0:
            raise Broken('model %s (%s) failed\n%s' % (module, what, out[-4000:]))
        self.states += dist
        self.trans += gen
        self.models.append(dict(module=module, what=what, distinct_states=dist, generated=gen,
                                result='violation of %s found, as expected' % expect_violation if expect_violation else 'holds'))
        return out

    def generate(self, module, cfg, what, extra=('-deadlock',), workers=1, timeout=800, env=None):
        """Let TLC enumerate behaviours of the specification; lines 'GEN <json>' printed by it are returned."""
        out = self.model(module, cfg, what, extra=extra, workers=workers, timeout=timeout, env=env)
        res = []
        for l in out.splitlines():
            l = l.strip()
            if l.startswith('"GEN ') and l.endswith('"'):
                res.append(json.loads(json.loads(l)[4:]))
        return res

    def validate(self, module, recs, diag='Diag', const='', chunk=None):
        """Validate recorded traces against the specification. -> {record index: set of clauses}"""
        if not recs:
            return {}
        try:
            return self._validate(module, recs, diag, const, chunk, 300)
        except Broken as b:
            # One record the specification cannot evaluate (in time) hides the verdict on the others: decide those
            # that can be decided.  Without a rejection among them there is no verdict.
            if len(recs) < 2:
                raise
            failed = []
            k = min(16, len(recs))
            def part(j):
                try:
                    return self._validate(module, recs[j::k], diag, const, chunk, 45, workers=2)
                except Broken as x:
                    failed.append(j)
                    return self.rejects(getattr(x, 'out', ''))
            rej = dict(self.rejects(getattr(b, 'out', '')))
            for j, r in enumerate(self.pmap(part, range(k), 4)):
                for i, c in r.items():
                    if j + i * k < len(recs):
                        rej[j + i * k] = c
            if failed:
                self.partial = b
                if not rej:
                    raise
            return rej

    @staticmethod
    def rejects(out):
        return {int(m.group(1)) - 1: set(re.findall(r'[\w:.-]+', m.group(2))) for m in re.finditer(r'^"REJECT (\d+) (.*)"$', out, re.M)}

    def _validate(self, module, recs, diag, const, chunk, timeout, workers=8):
        d = tempfile.mkdtemp(prefix='trace-', dir=self.work)
        tf = os.path.join(d, 'trace.ndjson')
        with open(tf, 'w') as f:
            for r in recs:
                f.write(json.dumps(r) + '\n')
        chunk = chunk or max(1, min(40, len(recs) // 32 + 1))
        cfg = 'INIT TInit\nNEXT TNext\nINVARIANT Conforms\nPOSTCONDITION AllSeen\nCHECK_DEADLOCK FALSE\n' \
              'CONSTANT Diagnose <- %s\nCONSTANT Chunk = %d\n' % (diag, chunk) + ('CONSTANTS %s\n' % const if const else '')
        # the invariant is what decides; -continue lets one run reject every bad record
        rc, out, gen, dist = self.tlc(module, cfg, env={'TRACE': tf}, extra=('-continue',), workers=workers, timeout=timeout)
        rej = self.rejects(out)
        nviol = len(re.findall(r'Error: Invariant Conforms is violated', out))
        nchunks = (len(recs) - 1) // chunk + 1
        complete = dist == 1 + nchunks + len(recs)
        if rc not in (0, 12, 13) or not complete or nviol != len(rej):
            i = out.find('Error:')
            b = Broken('TLC did not validate %s (rc %d, %d distinct, %d records, %d rejected)\n%s' % (
                module, rc, dist, len(recs), len(rej), out[max(0, i - 500):i + 3000] if i >= 0 else out[-3000:]))
            b.out = out
            raise b
        self.states += dist
        self.trans += gen
        return rej

    # -------------------------------------------------------------- conformance
    def conform(self, module, cases, runner=None, diag='Diag', corrupt=None, nontrivial=None, name=None, known=None,
                ncorrupt=24, const=''):
        """Run cases through the implementation and validate the recorded traces.
        known(record, clauses) -> id of a listed known finding, or None."""
        runner = runner or self.drive
        name = name or (module + ('' if diag == 'Diag' else ':' + diag))
        recs = runner(cases)
        todo = list(recs)
        ncor = 0
        cidx = {}
        if corrupt:
            tries = 0
            pool = [i for i, r in enumerate(recs) if r['st'] == 'ok']
            self.rng.shuffle(pool)
            for i in pool:
                if ncor >= ncorrupt or tries > 6 * ncorrupt:
                    break
                tries += 1
                c = corrupt(json.loads(json.dumps(recs[i])), self.rng)
                if c is None or c == recs[i]:
                    continue
                cidx[len(todo)] = i
                todo.append(c)
                ncor += 1
        rej = self.validate(module, todo, diag, const)
        good_rej = {i: c for i, c in rej.items() if i < len(recs)}
        # corrupted copies of accepted records have to be rejected: the specification is bound to the traces
        cs = [i for i, o in cidx.items() if o not in good_rej]
        hit = sum(1 for i in cs if i in rej)
        self.corrupted[0] += hit
        self.corrupted[1] += len(cs)
        if len(cs) >= 5 and hit == 0:
            raise Broken('%s accepts every corrupted trace' % name)
        def listed(rec, clauses):
            kid = known(rec, clauses) if known else None
            if kid and any(x[1] == kid for x in self.kf):
                self.known.setdefault(kid, 0)
                self.known[kid] += 1
                return True
            return False
        fresh = [i for i in sorted(good_rej) if not listed(recs[i], good_rej[i])]
        if fresh:
            # report a rejection only if a re-run repeats it
            again = fresh[:20 if self.partial else 200]
            rec2 = runner([cases[i] for i in again])
            rej2 = self.validate(module, rec2, diag, const)
            for k, i in enumerate(again):
                if k in rej2 and not listed(rec2[k], rej2[k]):
                    self.violations.append((name, cases[i], sorted(rej2[k]), rec2[k]))
        self.nrec += len(recs)
        for c in cases:
            if nontrivial is None or nontrivial(c):
                self.distinct.add(hashlib.md5(json.dumps(c, sort_keys=True).encode()).hexdigest())
        self.parts.append(dict(name=name, records=len(recs), rejected=len(good_rej), corrupted_copies=len(cs), corrupted_rejected=hit))
        if recs and len(self.samples) < 4:
            r = min(recs[:50], key=lambda r: len(json.dumps(r)) if nontrivial is None or nontrivial(r['in']) else 10**9)
            s = json.dumps(r)
            self.samples.append(json.loads(s) if len(s) < 4000 else s[:4000])
        return recs, good_rej

    def report(self, name, case, clauses, rec):
        self.violations.append((name, case, clauses, rec))

    def decided(self):
        """Without a violation, every record has to have been decided."""
        if self.partial and not self.violations:
            raise self.partial

    def finish(self, rule='seeded random and enumerated cases; distinct inputs counted', level='model_checking', extra=None):
        self.decided()
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.nrec,
                   distinct_nontrivial=len(self.distinct), rule=rule, samples=self.samples[:4] or ['-'],
                   models=self.models, conformance=self.parts,
                   corrupted_traces=dict(made=self.corrupted[1], rejected=self.corrupted[0]),
                   rebuilt=True)
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        if self.known:
            cov['known_findings_seen'] = self.known
        doc = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        s = json.dumps(doc, indent=1)
        if len(s) > 60000:
            cov['samples'] = [str(x)[:1500] for x in cov['samples']]
            s = json.dumps(doc, indent=1)
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            f.write(s)
        for k in self.kf:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k[2]))
        rc = 0
        if self.violations:
            rdir = os.path.join(ev, 'replay')
            os.makedirs(rdir, exist_ok=True)
            for n, (name, case, clauses, rec) in enumerate(self.violations[:20]):
                p = os.path.join(rdir, '%s-%d.json' % (self.pid, n))
                json.dump(dict(module=name, clauses=clauses, case=case, record=rec), open(p, 'w'), indent=1)
                if n < 4:
                    print('  %s violates %s: %s' % (name, ', '.join(clauses), json.dumps(case)[:250]))
            smallest = min(range(len(self.violations[:20])), key=lambda n: len(json.dumps(self.violations[n][1])))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.join(rdir, '%s-%d.json' % (self.pid, smallest))))
            rc = 1
        else:
            print('%s: held on %d recorded traces (%d states) in %.1fs' % (self.pid, self.nrec, self.states, time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        sys.stdout.flush()
        return rc
