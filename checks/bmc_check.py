"""Runs the bounded model checking jobs of a property and reports."""
import concurrent.futures as cf
import os
import shutil
import time
import bmc
import common

REPO = common.REPO


def run(prop, title, jobs, tier, budget, bounds, assumptions, twins=(), workers=7):
    """jobs: list of bmc.Job; twins: jobs that must fail with the reachability witness"""
    rep = common.Report(prop, 'other')
    out = common.ROOT + '/build/bmc-%s-%d' % (prop, os.getpid())
    os.makedirs(out, exist_ok=True)
    results = {}

    def one(k, job):
        left = budget - rep.elapsed()
        if left < 5:
            raise bmc.Inconclusive('time budget used up')
        job.compile('%s/%d.gb' % (out, k))
        v = job.decide(min(left, job.limit))
        os.unlink('%s/%d.gb' % (out, k))
        if v is None:
            return None
        return v + (bmc.native(job, v[1], '%s/%d.nat' % (out, k), gcc=job.gcc),)
    try:
        allj = list(jobs) + list(twins)
        with cf.ThreadPoolExecutor(workers) as ex:
            fut = {ex.submit(one, k, j): (k, j) for k, j in enumerate(allj)}
            for f in cf.as_completed(fut):
                k, j = fut[f]
                try:
                    results[k] = ('ok', f.result())
                except bmc.Inconclusive as e:
                    results[k] = ('inconclusive', str(e))
        decided, inconclusive, samples, unrep = 0, [], [], []
        seen = set()
        for k, j in enumerate(jobs):
            st, v = results[k]
            if st != 'ok':
                inconclusive.append('%s: %s' % (j.name, v))
                continue
            decided += 1
            if len(samples) < 4:
                samples.append(dict(job=j.name, defs=j.defs, verdict='holds for all values' if v is None else v[0], loops=j.stats['loops'], checks=j.stats['checks']))
            if v is not None:
                what, ins, nat = v
                if nat is None:
                    unrep.append('%s: %s (inputs %s) does not happen in the real code' % (j.name, what, ins))
                    continue
                rep.violation(j.key or j.name, '%s\n  inputs: %s\n  real code: %s' % (what, ins, nat),
                              dict(kind='bmc', job=dict(name=j.name, files=j.files, inc=j.inc, defs=j.defs, function=j.function, gcc=list(j.gcc)), inputs=ins))
        tw = []
        for k, j in enumerate(twins):
            st, v = results[len(jobs) + k]
            hit = st == 'ok' and v is not None and 'reachability witness' in v[0]
            tw.append(dict(job=j.name, reached=hit, note='' if st == 'ok' else v))
        st = [j.stats for j in allj]
        for i in inconclusive + unrep:
            print('inconclusive: ' + i[:600])
        fun = sorted({f for s in st for f in s['functions']})
        cov = dict(explanation='%s. Bounded model checking with CBMC (SAT back end) of the functions listed, compiled from %s at every run; all inputs within the bounds are symbolic; unwinding assertions hold.' % (title, REPO),
                   functions_encoded=fun, bounds=bounds, jobs=len(jobs), decided=decided, inconclusive=inconclusive, not_reproduced=unrep,
                   solver_runs=sum(s['runs'] for s in st), assertions_discharged=sum(s['checks'] for s in st), max_variables=max([s['variables'] for s in st] or [0]),
                   max_clauses=max([s['clauses'] for s in st] or [0]), solver_s=round(sum(s['solver_s'] for s in st), 1), loop_bounds={s['name']: s['loops'] for s in st},
                   reachability_witnesses=tw, known_findings=sorted(rep.seen), samples=samples)
        rc = rep.finish(cov, assumptions)
        bad = [t for t in tw if not t['reached'] and not t['note']]
        print('%s: %d of %d jobs decided, %d assertions, %d violations, witnesses reached %d of %d, %.0f s' % (
            prop, decided, len(jobs), cov['assertions_discharged'], len(rep.violations), sum(t['reached'] for t in tw), len(tw), rep.elapsed()))
        if rc == 0 and (decided == 0 or bad):
            print('no answer')
            return 2
        return rc
    finally:
        shutil.rmtree(out, ignore_errors=True)
