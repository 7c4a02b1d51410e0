"""Explore schedules of scenarios over the real code; one record per distinct event trace."""
import json, os, subprocess
import lib

def explore(c, scens):
    exe = c.build('sched')['sched']
    def one(k):
        r = subprocess.run([exe], input=(json.dumps(k) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=c.work, timeout=850)
        try:
            return json.loads(r.stdout.decode('latin-1'))
        except Exception:
            raise lib.Broken('tvsched gave no answer on %s' % json.dumps(k)[:300])
    outs = c.pmap(one, scens)
    recs = []
    runs = complete = 0
    for k, o in zip(scens, outs):
        runs += o['runs']
        complete += o['complete']
        for t in o['traces']:
            recs.append(dict(st='ok', out=t, **{'in': k}))
    c.notes['schedules_run'] = c.notes.get('schedules_run', 0) + runs
    c.notes['scenarios'] = c.notes.get('scenarios', 0) + len(scens)
    c.notes['scenarios_exhausted_within_preemption_bound'] = c.notes.get('scenarios_exhausted_within_preemption_bound', 0) + complete
    return recs

def conform(c, module, scens, diag='Diag', corrupt=None):
    """The records of a scenario are its distinct traces; validation as in Check.conform, over the collected traces."""
    recs = explore(c, scens)
    # a schedule is deterministic given its scenario and seed: the trace is its own replay
    by = {}
    cases = []
    for i, r in enumerate(recs):
        cs = dict(r['in'], trace=i)
        by[i] = r
        cases.append(cs)
    def runner(cs):
        return [dict(by[x['trace']], **{'in': x}) for x in cs]
    return c.conform(module, cases, runner=runner, diag=diag, corrupt=corrupt, nontrivial=lambda x: True)
