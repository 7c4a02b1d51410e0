"""P01: the worker pool under controlled schedules."""
import schedlib

def scenarios(rng, n, thorough):
    out = []
    k = 3 if thorough else 1
    budget = dict(nrand=120 * k, npct=90 * k, ndfs=250 * k, bound=1 if not thorough else 2)
    for i in range(n):
        w = rng.choice([1, 1, 2, 2, 3, 4])
        limit = rng.choice([0, 1, 1, 2, 3])
        nt = rng.randint(0, 5)
        sc = []
        gated = []
        kind = i % 4
        if kind == 0:
            for t in range(nt):
                sc.append(['submit', t])
                if rng.random() < 0.2:
                    sc.append(['wait', t])
            if rng.random() < 0.6:
                sc.append(['wait', 9])
            sc.append(['stop', 1])
            if rng.random() < 0.3:
                sc.append(['submit', 50])
                sc.append(['stop', rng.randint(0, 1)])
        elif kind == 1:
            # workers held inside tasks: the queue fills up to its limit
            limit = rng.choice([1, 2, 3])
            nt = w + limit + rng.randint(0, 2)
            gated = list(range(w + rng.randint(0, limit)))
            ops = [['submit', t] for t in range(nt)]
            if rng.random() < 0.5:
                ops.append(['wait', 1])
            sc = [['bg', ops], ['settle'], ['settle'], ['open'], ['joinbg'], ['stop', 1]]
        elif kind == 2:
            # several submitters, a waiter
            limit = rng.choice([0, 1, 2])
            a = [['submit', t] for t in range(rng.randint(1, 3))]
            b = [['submit', 10 + t] for t in range(rng.randint(1, 2))]
            if rng.random() < 0.5:
                b.append(['wait', 2])
            sc = [['bg', a], ['bg', b], ['joinbg']]
            if rng.random() < 0.5:
                sc.append(['wait', 3])
            sc.append(['stop', 1])
        else:
            # stopping without completion, by the submitter itself
            gated = []
            for t in range(nt):
                sc.append(['submit', t])
            sc.append(['stop', 0])
            if rng.random() < 0.5:
                sc.append(['submit', 60])
        work = [[t, rng.choice([0, 1, 3])] for t in range(6)]
        out.append(dict(scen='pool', w=w, limit=limit, gated=gated, work=work, keep=int(rng.random() < 0.15), script=sc,
                        seed=rng.randrange(1 << 20), **budget))
    return out

def corrupt(r, rng):
    ev = r['out']['ev']
    if len(ev) < 3 or r['out']['end'] != 'done':
        return None
    k = rng.random()
    st = [i for i, e in enumerate(ev) if e[0] in ('start', 'end', 'ret')]
    if not st:
        return None
    i = rng.choice(st)
    if k < 0.5:
        del ev[i]
    else:
        ev.insert(rng.randrange(i, len(ev)), list(ev[i]))
        if ev[i][0] == 'ret':
            return None
    return r

def run(c):
    base = 'SPECIFICATION PSpec\nINVARIANTS Bounded Partition\nPROPERTY Ends\nCONSTANTS W = %d Limit = %d Keep = FALSE Tasks = {1, 2, 3}\n'
    c.model('ThreadPool', base % (2, 1), 'the pool as seen by its user: bounded, every task in exactly one place, everything ends')
    code = 'SPECIFICATION Spec\nINVARIANTS QueueBound AtMostOnce %s\nPROPERTY Terminates\nCHECK_DEADLOCK TRUE\n' \
           'CONSTANTS NW = %d NT = %d Limit = %d Process = TRUE Variant = "%s" Spurious = %s\n'
    c.model('ThreadPoolCode', code % ('WaitDone StopDone', 2, 3 if not c.thorough else 4, 1, 'ok', 'FALSE'), 'algorithm with mutex and condition variables', extra=())
    c.model('ThreadPoolCode', code % ('WaitDone StopDone', 3 if c.thorough else 2, 2, 0, 'ok', 'FALSE'), 'algorithm, no queue limit', extra=())
    c.model('ThreadPoolCode', 'INIT Init\nNEXT Next\nINVARIANTS QueueBound AtMostOnce WaitDone StopDone\nCONSTANTS NW = 2 NT = 2 Limit = 1 Process = TRUE Variant = "ok" Spurious = TRUE\n',
            'algorithm with spurious wake-ups', extra=())
    # a mistaken wait: caught either as a deadlock or as a liveness violation
    for v, expect in (('check', 'Deadlock reached'), ('one', 'Deadlock reached'), ('norun', 'WaitDone is violated')):
        c.model('ThreadPoolCode', code % ('WaitDone' if v == 'norun' else '', 2, 2, 1, v, 'FALSE'), 'mistaken variant ' + v, extra=(), expect_violation=expect)
    c.model('ThreadPoolCode', 'INIT Init\nNEXT Next\nINVARIANTS QueueBound\nCONSTANTS NW = 1 NT = 3 Limit = 1 Process = TRUE Variant = "if" Spurious = TRUE\n',
            'mistaken variant if', extra=(), expect_violation='QueueBound is violated')
    schedlib.conform(c, 'P01_trace', scenarios(c.rng, 64 if not c.thorough else 400, c.thorough), corrupt=corrupt)
