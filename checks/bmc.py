"""Bounded model checking of the real C sources with CBMC. Loop bounds are found by iteration: every loop starts with a small bound and
is unwound further as long as its unwinding assertion fails, so that nothing refers to names or numbers of loops."""
import json
import os
import re
import resource
import subprocess
import time
import common

HARN = common.ROOT + '/harness'
OPTS = ['--no-malloc-may-fail', '--drop-unused-functions', '--unwinding-assertions', '--json-ui', '--trace', '--sat-solver', 'cadical',  '--no-standard-checks', '--bounds-check',
        '--pointer-check', '--div-by-zero-check', '--pointer-primitive-check', '--object-bits', '12']


class Inconclusive(Exception):
    pass


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


def call(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(1, timeout), preexec_fn=limits)
    except subprocess.TimeoutExpired:
        raise Inconclusive('solver time limit of %d s' % timeout)
    return r


class Job:
    """files: harness and /repo sources; inc/defs: compiler options; unwind: first bound; big: list of larger bounds to try"""

    def __init__(self, name, files, inc, defs, function='harness', unwind=5, big=(12, 40, 300, 700), extra=(), bounds=None, limit=300, key=None, gcc=()):
        self.name, self.files, self.inc, self.defs, self.function, self.unwind, self.big, self.extra = name, files, inc, defs, function, unwind, big, list(extra)
        self.bounds = dict(bounds or {})
        self.limit, self.key, self.gcc = limit, key, gcc
        self.stats = dict(name=name, sat_queries=0, solver_s=0.0, variables=0, clauses=0, checks=0, runs=0, functions=[], loops={})
        self.gb = None

    def compile(self, out):
        cmd = ['goto-cc', '-o', out, '--function', self.function] + ['-I' + i for i in self.inc] + ['-D' + d for d in self.defs] + self.files
        r = call(cmd, 300)
        if r.returncode:
            raise Inconclusive('goto-cc: ' + (r.stdout + r.stderr).decode(errors='replace')[-600:])
        self.gb = out

    def cbmc(self, timeout, opts=()):
        us = []
        if self.bounds:
            us = ['--unwindset', ','.join('%s:%d' % kv for kv in sorted(self.bounds.items()))]
        cmd = ['cbmc', self.gb, '--function', self.function, '--unwind', str(self.unwind)] + us + OPTS + self.extra + list(opts)
        r = call(cmd, timeout)
        self.stats['runs'] += 1
        try:
            js = json.loads(r.stdout.decode(errors='replace'))
        except ValueError:
            raise Inconclusive('cbmc gave no result (rc %d): %s' % (r.returncode, (r.stdout + r.stderr).decode(errors='replace')[-400:]))
        res = None
        missing = []
        for e in js:
            t = e.get('messageText', '')
            m = re.search(r'(\d+) variables, (\d+) clauses', t)
            if m:
                self.stats['sat_queries'] += 1
                self.stats['variables'] = max(self.stats['variables'], int(m.group(1)))
                self.stats['clauses'] = max(self.stats['clauses'], int(m.group(2)))
            m = re.match(r'Runtime Solver: ([\d.e+-]+)s', t)
            if m:
                self.stats['solver_s'] += float(m.group(1))
            m = re.match(r'no body for (?:function|callee) (\S+)', t)
            if m:
                missing.append(m.group(1))
            if 'result' in e:
                res = e['result']
            if e.get('messageType') == 'ERROR' and 'VERIFICATION' not in t:
                raise Inconclusive('cbmc: ' + t[:300])
        if res is None:
            raise Inconclusive('cbmc gave no result')
        self.missing = sorted(set(missing))
        return res

    def decide(self, limit, opts=()):
        """None, or (description, inputs) of a violation"""
        t0 = time.time()
        while True:
            res = self.cbmc(limit - (time.time() - t0), opts)
            fails = [p for p in res if p['status'] == 'FAILURE']
            more = False
            for p in fails:
                m = re.match(r'(.*)\.unwind\.(\d+)$', p['property'])
                if m:
                    l = m.group(1) + '.' + m.group(2)
                    cur = self.bounds.get(l, self.unwind)
                    nxt = [b for b in self.big if b > cur]
                    if not nxt:
                        raise Inconclusive('loop %s needs more than %d iterations' % (l, cur))
                    self.bounds[l] = nxt[0]
                    more = True
            real = [p for p in fails if '.unwind.' not in p['property'] and '.recursion' not in p['property']]
            if real:
                # a run cut at a loop bound never produces a wrong counterexample: paths are only dropped
                break
            if not more:
                break
        self.stats['checks'] = len(res)
        self.stats['loops'] = dict(self.bounds)
        self.stats['functions'] = sorted({p.get('sourceLocation', {}).get('function', '') for p in res} - {''})
        if not real:
            bad = [p for p in res if p['status'] not in ('SUCCESS', 'FAILURE')]
            if bad:
                raise Inconclusive('undecided: ' + bad[0]['property'])
            return None
        real.sort(key=lambda p: 0 if p['description'].startswith('PROPERTY') else 1)
        p = real[0]
        return p['description'] + ' (%s)' % p['property'], inputs(p.get('trace', []))


def val(v):
    if 'binary' in v:
        b = v['binary']
        x = int(b, 2)
        return x - (1 << len(b)) if b[0] == '1' else x
    try:
        return int(re.sub('[a-zA-Z]+$', '', v.get('data', '0')))
    except ValueError:
        return 0


def inputs(trace):
    out = {}

    def put(lhs, v):
        m = re.match(r'IN\[(?:\()?(\d+)[a-z]*\)?\]$', lhs)
        if m and 'binary' in v or m and 'data' in v:
            out[int(m.group(1))] = val(v)
        if lhs == 'IN' and 'elements' in v:
            for e in v['elements']:
                out[int(e['index'])] = val(e['value'])
    for s in trace:
        if s.get('stepType') == 'assignment':
            put(s.get('lhs', ''), s.get('value', {}))
    n = max(out) + 1 if out else 0
    return [out.get(i, 0) for i in range(n)]


def native(job, ins, out, gcc=()):
    """runs the harness natively with the inputs of a counterexample: message, or None if nothing happens"""
    main = out + '.main.c'
    with open(main, 'w') as f:
        f.write('#include <stdlib.h>\n#include <stdio.h>\nextern int IN[], in_n; int %s(void);\nint main(int c, char **v){ int i; for (i = 0; i < in_n && i + 1 < c; i++) IN[i] = atoi(v[i + 1]); '
                '%s(); return 0; }\n' % (job.function, job.function))
    cmd = ['gcc', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DREPLAY'] + list(gcc) + ['-I' + i for i in job.inc] + ['-D' + d for d in job.defs if d != 'TWIN'] + job.files + [main, '-o', out, '-lm', '-Wl,--unresolved-symbols=ignore-all']
    r = call(cmd, 300)
    if r.returncode:
        return 'not replayed (%s)' % r.stderr.decode(errors='replace')[-300:]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    try:
        r = subprocess.run([out] + [str(i) for i in ins], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env)
    except subprocess.TimeoutExpired:
        return 'the real code does not come back'
    t = r.stdout.decode(errors='replace')
    if r.returncode in (0, 3):
        return None
    m = re.search(r'CHECK-FAILED.*|ERROR: AddressSanitizer.*|runtime error.*', t)
    return m.group(0) if m else 'exit %d' % r.returncode
