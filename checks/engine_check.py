"""Engine checks: for every configuration the real library generates its byte code, the real executor is executed symbolically
over it on all ranks, and Z3 decides the property for all buffer contents and all schedules."""
import multiprocessing
import os
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = os.environ.get('VERIF_BUILD_BASE', ROOT + '/build')


def prepare(prop):
    """private build of /repo's current tree"""
    b = '%s/%s-%d' % (BASE, prop, os.getpid())
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b + '/tmp')
    os.environ['VERIF_BUILD'] = b
    os.environ['TMPDIR'] = b + '/tmp'
    sys.path.insert(0, ROOT + '/engine')
    sys.path.insert(0, HERE)
    import runcfg
    runcfg.build()
    return b


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def worker(job):
    idx, cfg, limit, checks = job
    import runcfg
    st = runcfg.Stats()
    t0 = time.time()
    out = dict(idx=idx, status='holds', msg='', kind='', model=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        v = runcfg.run_config(cfg, st, bit=bool(cfg.get('bit')), checks=checks, anystart=bool(cfg.get('anystart')))
        if cfg.get('repro') and not v:
            v = runcfg.reproducible(cfg, st)
        if v:
            out.update(status='violation', kind=v.kind, msg=str(v), model=v.data.get('model'))
    except Timeout:
        out.update(status='inconclusive', msg='time limit of %d s' % limit)
    except Exception as e:
        out.update(status='inconclusive', msg='%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-400:]))
    finally:
        signal.alarm(0)
    import gc
    gc.collect()
    out["t"] = time.time() - t0
    out['st'] = st
    return out


def confirm(cfg, o, bit):
    """triage of a violation, alone on the machine; returns a message if it stands"""
    import runcfg
    if o['kind'] == 'setup':
        c = dict(cfg, timeout=240)
        v = runcfg.run_config(c, runcfg.Stats(), races=False)
        if v is None or v.kind != 'setup':
            return None
        return str(v)
    nat = None
    for _ in range(3):
        try:
            nat = runcfg.native_run(cfg, o['model'])
        except Exception as e:
            nat = None
            o['msg'] += ' (native replay not possible: %s)' % e
            break
        if nat:
            break
    o['native'] = nat or 'the native replay under the default schedule shows no difference (schedule, memory or bit-level violation)'
    return o['msg'] + ' | ' + o['native']


def run(prop, level_text, cfgs, rep, tier, seconds, bounds, twin=None, checks=('result', 'sendbuf', 'untouched')):
    import runcfg
    st = runcfg.Stats()
    holds, inconclusive, times = [], [], []
    limit = 200 if tier == 'quick' else 900
    deadline = rep.t0 + seconds
    np = min(8, os.cpu_count() or 1)
    found = []
    skipped = 0
    # expensive configurations first: no long tail
    import configs as C
    order = sorted(range(len(cfgs)), key=lambda i: -C.cost(cfgs[i]))
    jobs = [(i, cfgs[i], limit, checks) for i in order]
    pool = multiprocessing.Pool(np, maxtasksperchild=40)
    done = 0
    try:
        pending = iter(jobs)
        live = []
        exhausted = False
        while True:
            while not exhausted and len(live) < 2 * np:
                if time.time() > deadline:
                    exhausted = True
                    skipped = len(jobs) - done - len(live)
                    break
                try:
                    j = next(pending)
                except StopIteration:
                    exhausted = True
                    break
                live.append((j, pool.apply_async(worker, (j,)), time.time()))
            if not live:
                break
            nl = []
            for j, r, t0 in live:
                if r.ready():
                    done += 1
                    try:
                        o = r.get()
                    except Exception as e:
                        inconclusive.append((j[0], 'worker failed: %r' % e))
                        continue
                    st.add(o['st'])
                    times.append((o['t'], j[0]))
                    if o['status'] == 'holds':
                        holds.append(j[0])
                    elif o['status'] == 'inconclusive':
                        inconclusive.append((j[0], o['msg']))
                    else:
                        found.append((j[0], o))
                elif time.time() - t0 > 3 * limit + 60:
                    done += 1
                    inconclusive.append((j[0], 'worker lost'))
                else:
                    nl.append((j, r, t0))
            live = nl
            new = [f for f in found if runcfg.cfgname(cfgs[f[0]]) not in rep.known]
            if len(new) >= 3:
                break
            time.sleep(.01)
    finally:
        pool.terminate()
        pool.join()
    nviol = 0
    for i, o in found:
        key = runcfg.cfgname(cfgs[i])
        if key in rep.known:
            rep.violation(key, '', {})
            continue
        if nviol:
            continue
        msg = confirm(cfgs[i], o, cfgs[i].get('bit'))
        if msg:
            nviol += rep.violation(key, msg, dict(cfg=cfgs[i], kind=o['kind'], model=o['model'], how='python3-vt checks/replay.py <this file>'))
        else:
            inconclusive.append((i, 'set-up failure did not repeat: ' + o['msg'][:200]))
    # what the engine could not decide is at least run natively: a failure there is a violation as well
    if not nviol:
        for i, why in inconclusive[:12]:
            try:
                nat = runcfg.native_run(cfgs[i])
            except Exception as e:
                nat = None
            if nat and runcfg.cfgname(cfgs[i]) not in rep.known:
                nat2 = runcfg.native_run(cfgs[i])
                if nat2:
                    nviol += rep.violation(runcfg.cfgname(cfgs[i]), nat2 + ' (not decided symbolically: %s)' % why[:300], dict(cfg=cfgs[i], kind='native', model=None))
                    break
    tw = None
    if twin and not nviol and holds:
        tw = twin(cfgs[holds[0]])
    times.sort(reverse=True)
    cov = dict(programs=len(holds), disagreements_checked=st.vcs,
               samples=[runcfg.cfgname(cfgs[i]) for i in holds[:5]],
               explanation=level_text,
               configurations=dict(generated=len(cfgs), decided_holds=len(holds), violations=len(found), inconclusive=len(inconclusive), not_started=skipped),
               inconclusive=[dict(config=runcfg.cfgname(cfgs[i]), why=w[:300]) for i, w in inconclusive[:10]],
               solver=dict(queries=st.queries, seconds=round(st.solver_s, 2)), functions_encoded=sorted(st.funcs),
               executor_calls=st.calls, basic_blocks=st.blocks, synchronisation_events=st.events, race_pairs=st.race_pairs, benign_pairs_reexecuted=st.benign,
               bounds=bounds, vacuity_twin=tw, slowest=[[round(t, 1), runcfg.cfgname(cfgs[i])] for t, i in times[:3]])
    rc = rep.finish(cov, ASSUMPTIONS)
    print('%s: %d configurations hold, %d violations, %d inconclusive, %d not started; %d element conditions, %d queries, %.1f s solver, %.1f s' % (
        prop, len(holds), len(found), len(inconclusive), skipped, st.vcs, st.queries, st.solver_s, rep.elapsed()))
    for i, w in inconclusive[:3]:
        print('  inconclusive: %s: %s' % (runcfg.cfgname(cfgs[i]), w[:400]))
    if rc == 0 and len(inconclusive) > max(3, .2 * len(cfgs)):
        print('no answer: too many inconclusive configurations')
        return 2
    if rc == 0 and twin and tw is not None and not tw.get('fires'):
        print('no answer: the vacuity twin did not fire')
        return 2
    return rc


ASSUMPTIONS = [
    'planning (which byte code is generated for a configuration) is executed concretely by the real library in a stand-in MPI; execution of the byte code is symbolic',
    'MPI point-to-point: reliable, ordered per (source, tag, communicator); every receive buffer is filled between posting and completion at an arbitrary time (early and late extremes are executed, overlaps are race pairs)',
    'sequentially consistent shared memory (x86-TSO effects beyond that are outside the claim); spin loops on flags are synchronisation events',
    'floating point sums are compared over the reals (order of additions is free unless the property is bit identity); integers are bit-vectors',
    'CPU build (no GPU), clang -O1 IR of src/mpi/ext_mpi_native_exec.c; the compiler is trusted',
]
