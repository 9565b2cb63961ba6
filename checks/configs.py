"""The configurations (structure: sizes, counts, placements, settings, call histories) each engine check decides. Within one
configuration all buffer contents and all schedules are symbolic; the configurations themselves are enumerated by the seeded
generators below."""
import random

ALL = ['allreduce', 'reduce', 'bcast', 'allgather', 'allgatherv', 'gather', 'gatherv', 'scatter', 'scatterv', 'reduce_scatter', 'reduce_scatter_block']
RED = ('allreduce', 'reduce', 'reduce_scatter', 'reduce_scatter_block')
ROOTED = ('reduce', 'bcast', 'gather', 'gatherv', 'scatter', 'scatterv')
VECT = ('allgatherv', 'gatherv', 'scatterv', 'reduce_scatter')
RTYPES = ('long', 'int', 'float', 'double')


class Gen:
    def __init__(self, prop, seed, tier):
        self.r = random.Random('%s/%s' % (prop, seed))
        self.thorough = tier == 'thorough'

    def op(self, n, c, types=RTYPES, counts=(1, 2, 3, 4, 5, 7, 9, 16, 33), vcounts=(0, 1, 2, 3, 5, 8)):
        r = self.r
        op = dict(coll=c, count=r.choice(counts), type=r.choice(types))
        if c in ROOTED:
            op['root'] = r.randrange(n)
        if c in VECT:
            m = r.random()
            if m < .15:
                op['counts'] = [op['count']] * n
            else:
                op['counts'] = [r.choice(vcounts) for _ in range(n)]
                if m < .3:      # one dominating block
                    op['counts'][r.randrange(n)] = r.choice((17, 33))
                if sum(op['counts']) == 0:
                    op['counts'][r.randrange(n)] = 1
        return op

    def place(self, n, p_none=.3):
        """environment describing the placement: processes per socket (the default is the whole node)"""
        r = self.r
        env = {}
        if r.random() > p_none:
            env['EXT_MPI_NUM_TASKS_PER_SOCKET'] = r.choice([t for t in (1, 1, 2, 2, 3, 4) if n % t == 0])
        return env

    def tune(self, env, p=.3):
        r = self.r
        if r.random() < p:
            env['EXT_MPI_NOT_RECURSIVE'] = 1
        if r.random() < p:
            env['EXT_MPI_ALTERNATING'] = r.choice([0, 1])
        return env

    def base(self, colls, sizes=(1, 2, 3, 4, 4, 5, 6, 6, 7, 8), script='S0 W0', tune=.3, **kw):
        n = self.r.choice(sizes)
        env = self.tune(self.place(n), tune)
        return dict(n=n, env=env, ops=[self.op(n, self.r.choice(colls), **kw)], script=script, fastest=self.r.randrange(max(1, n)))


def tps(cfg):
    return int(cfg.get('env', {}).get('EXT_MPI_NUM_TASKS_PER_SOCKET', 0) or cfg.get('rpn') or cfg['n'])


def cost(cfg):
    """rough seconds; large single-node reductions are expensive (quadratic number of shared accesses in the race query)"""
    t = tps(cfg)
    c = 0
    if len(cfg['ops']) > 9:
        return 2
    for o in cfg['ops']:
        cnt = sum(o['counts']) if o.get('counts') else o.get('count', 1) * (1 if o['coll'] in ('allreduce', 'reduce', 'bcast') else cfg['n'])
        w = 1
        if o['coll'] in ('allreduce', 'reduce') and t >= 6:
            w = 12 if t == 6 else 40
        elif o['coll'] in RED and t >= 6:
            w = 4
        c += w * (1 + cnt / 30.) * cfg['n'] / 6.
    return c * max(1, cfg['script'].count('S')) / 2.


def take(gen, k, maxcost):
    out, seen = [], set()
    tries = 0
    while len(out) < k and tries < 60 * k:
        tries += 1
        c = gen()
        if c is None or cost(c) > maxcost:
            continue
        key = repr(c)
        if key in seen:
            continue
        seen.add(key)
        out.append(c)
    return out


def with_ports(g, cfg, p=.5):
    """stages: left alone the library takes one stage for small messages, so the multi-stage algorithms are asked for by the setting"""
    t = tps(cfg)
    if cfg['n'] > t and g.r.random() < p:
        v = ports_for(cfg['ops'][0]['coll'], cfg['n'] // t, g.r)
        if v:
            if g.r.random() < .8:
                cfg['env']['EXT_MPI_NUM_PORTS'] = v
            else:
                cfg['info'] = {'ext_mpi_num_ports': v}
    return cfg


def one_collective(colls):
    def f(g):
        def gen():
            return with_ports(g, g.base(colls, sizes=(1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9, 12), script=g.r.choice(['S0 W0', 'S0 W0', 'S0 W0 S0 W0', 'S0 W0 S0 W0 S0 W0'])))
        return gen
    return f


# every size up to 12 nodes x 1 and a few sizes with many nodes: cheap because nothing is shared
def c08(g):
    def gen():
        c = g.base(ALL, counts=(1, 1, 2, 3, 5, 6, 7, 11, 13, 17, 31), vcounts=(0, 0, 1, 1, 2, 3, 7), types=RTYPES)
        if c['ops'][0]['coll'] not in RED and g.r.random() < .5:
            c['ops'][0]['type'] = g.r.choice(('char', 'short'))
        c['script'] = 'S0 W0 S0 W0'
        return with_ports(g, c)
    return gen


def c09(g):
    def gen():
        c = g.base(ALL, sizes=(2, 3, 4, 4, 5, 6, 6), counts=(1, 2, 3, 5, 8), script=' '.join(['S0 W0'] * g.r.choice([3, 4, 4, 6])))
        c['env']['EXT_MPI_ALTERNATING'] = g.r.choice([0, 1, 1])
        return with_ports(g, c)
    return gen


def c10(g):
    def gen():
        return with_ports(g, g.base(ALL, sizes=(2, 3, 4, 4, 4, 5, 6, 6, 6, 8), counts=(1, 2, 3, 4, 5, 8, 12), script=g.r.choice(['S0 W0 S0 W0', 'S0 W0 S0 W0 S0 W0'])), .4)
    return gen


def c11(g):
    def gen():
        n = g.r.choice((2, 3, 5, 7, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 24))
        t = g.r.choice([t for t in (1, 1, 1, 2, 3) if n % t == 0])
        env = g.tune({'EXT_MPI_NUM_TASKS_PER_SOCKET': t})
        return with_ports(g, dict(n=n, env=env, ops=[g.op(n, g.r.choice(ALL), counts=(1, 1, 2, 3, 7, 20), vcounts=(0, 1, 2, 3))], script='S0 W0 S0 W0', fastest=g.r.randrange(n)))
    return gen


def c12(g):
    def gen():
        return with_ports(g, g.base(ALL, sizes=(1, 2, 3, 4, 4, 5, 6, 6, 8), counts=(1, 2, 3, 5, 9), script=g.r.choice(['S0 T0', 'S0 Q0 W0', 'S0 Q0 Q0 W0 S0 T0', 'S0 G0 W0', 'S0 G0 G0 T0 S0 W0', 'S0 T0 S0 T0', 'S0 W0 S0 T0 S0 W0', 'S0 T0 S0 W0', 'S0 T0 S0 T0 S0 T0'])), .3)
    return gen


def c13(g):
    def gen():
        c = g.base(RED, sizes=(2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9, 12), types=('double', 'float'), counts=(1, 2, 3, 5, 9), script=g.r.choice(['S0 W0', 'S0 W0 S0 W0']))
        with_ports(g, c)
        c['env'].pop('EXT_MPI_BIT_REPRODUCIBLE', None)
        if c['ops'][0]['coll'] == 'allreduce' and (tps(c) == c['n'] or '-' in c['env'].get('EXT_MPI_NUM_PORTS', '') or '-' in c.get('info', {}).get('ext_mpi_num_ports', '')):
            c['bit'] = 1        # every element is reduced at one place and distributed from there
        c['repro'] = 1
        return c
    return gen


def s01(g):
    """the state after any number of starts: symbolic barrier counters and flags, arbitrary old data in the shared memory"""
    def gen():
        c = g.base(ALL, sizes=(2, 3, 3, 4, 4, 4, 5, 6, 6, 7, 8), counts=(1, 2, 3, 5), vcounts=(0, 1, 2, 3), tune=.4,
                   script=g.r.choice(['S0 W0 S0 W0 S0 W0 S0 W0 S0 W0 S0 W0', 'S0 T0 S0 W0 S0 T0 S0 T0 S0 W0 S0 W0', 'S0 T0 S0 T0 S0 T0 S0 T0 S0 T0 S0 T0', 'S0 Q0 W0 S0 W0 S0 T0 S0 W0 S0 T0 S0 W0']))
        if tps(c) == 1:
            return None
        c['anystart'] = 1
        return with_ports(g, c, .3)
    return gen


def factors(n):
    """ordered factorisations of n into factors >= 2"""
    if n == 1:
        return [[]]
    return [[f] + t for f in range(2, n + 1) if n % f == 0 for t in factors(n // f)]


def ports_for(coll, nodes, r):
    """a valid value of EXT_MPI_NUM_PORTS for a collective on `nodes` nodes: ports whose groups cover the nodes, exactly
    (recursive algorithm) or with excess (cyclic shift algorithm)"""
    if nodes == 1:
        return None
    if r.random() < .7 or (coll in ('reduce', 'bcast') and nodes > 6):      # for these see known_findings.txt
        f = r.choice(factors(nodes))
        exact = True
    else:
        f = []
        p = 1
        while p < nodes:
            x = r.choice([y for y in (2, 2, 3, 4) if y <= nodes] or [2])
            if p * x >= nodes:
                x = -(-nodes // p)      # the last stage covers exactly what is left
            f.append(x)
            p *= x
        exact = p == nodes
    up = [x - 1 for x in f]
    if coll in ('allreduce', 'reduce'):
        m = r.random()
        if m < .4:
            l = up
        else:
            l = [-x for x in reversed(up)] + up
        if exact and len(f) > 1 and m > .85:      # one group per factor
            l = [(-x, x + 1) for x in reversed(up)] + [(x, x + 1) for x in up]
            return ' '.join('%d(%d)' % (g, p) for p, g in l)
    else:
        l = up
    return '%d(%s)' % (nodes, ' '.join(map(str, l)))


def c14(g):
    def gen():
        r = g.r
        c = g.base(ALL, sizes=(2, 3, 4, 4, 5, 6, 6, 7, 8, 9), counts=(1, 2, 3, 5, 9), script='S0 W0 S0 W0', tune=.4)
        s = dict(c['env'])
        t = int(s.get('EXT_MPI_NUM_TASKS_PER_SOCKET', c['n']))
        if r.random() < .4:
            s['EXT_MPI_COPYIN'] = r.choice(copyins(t))
        elif t < c['n'] and r.random() < .7:
            p = ports_for(c['ops'][0]['coll'], c['n'] // t, r)
            if p:
                s['EXT_MPI_NUM_PORTS'] = p
        if r.random() < .3:
            s['EXT_MPI_BIT_REPRODUCIBLE'] = 0
        if r.random() < .4:       # as info keys
            low = {k.lower(): v for k, v in s.items() if k in INFO_KEYS}
            c['info'] = low
            s = {k: v for k, v in s.items() if k not in INFO_KEYS}
        c['env'] = s
        return c
    return gen


INFO_KEYS = ('EXT_MPI_NUM_TASKS_PER_SOCKET', 'EXT_MPI_NOT_RECURSIVE', 'EXT_MPI_ALTERNATING', 'EXT_MPI_NUM_PORTS', 'EXT_MPI_COPYIN', 'EXT_MPI_BIT_REPRODUCIBLE')


def copyins(t):
    """the values the library's own measurement chooses from, for t tasks per socket"""
    out = []
    f, m, p = [], t, 2
    while m > 1:
        while m % p == 0:
            f.append(p)
            m //= p
        p += 1
    for i in range(len(f) + 1):
        a = 1
        for x in f[:i]:
            a *= x
        out.append('0;' + ' '.join(map(str, [a] + f[i:])))
    if t & (t - 1):
        l = [1]
        j = 1
        while j < t:
            l.append(2)
            j *= 2
        out.append('1;' + ' '.join(map(str, l)))
    return out


def c15(g):
    def gen():
        r = g.r
        n = r.choice((2, 3, 4, 4, 5, 6))
        env = g.tune(g.place(n))
        k = r.choice((2, 2, 2, 3))
        ops = [g.op(n, r.choice(ALL), counts=(1, 2, 3, 5, 9)) for _ in range(k)]
        if r.random() < .06:
            return many(g)
        if k == 2:
            script = r.choice(['S0 S1 W0 W1 S1 S0 W1 W0', 'S0 S1 W1 W0 S0 W0 S1 W1', 'S0 S1 T0 T1 S0 S1 W0 W1', 'S1 S0 W0 W1 S0 S1 W1 W0', 'S0 W0 S1 W1 S1 W1 S0 W0',
                               'S0 S1 P0,1 S1 S0 P0,1', 'S0 S1 Q0 W1 W0', 'S0 S1 Q0 Q1 Q0 W0 W1 S0 W0', 'S0 S1 G0 P0,1 S0 S1 W0 W1', 'S0 S1 G0 W0 W1'])
        else:
            script = r.choice(['S0 S1 S2 W0 W1 W2', 'S2 S0 S1 W1 W2 W0', 'S0 W0 S1 S2 W2 W1 S0 W0', 'S0 S1 S2 P0,1,2', 'S2 S1 S0 P0,1,2 S0 S1 P0,1'])
        return dict(n=n, env=env, ops=ops, script=script, fastest=r.randrange(n))
    return gen


def many(g):
    """many operations of one process at once, the first of them started all along"""
    r = g.r
    n = r.choice((1, 2, 2, 3, 4))
    k = r.choice((52, 53, 54, 60))
    kinds = [g.op(n, r.choice(('bcast', 'allreduce', 'gather', 'allgather')), counts=(1, 2)) for _ in range(2)]
    ops = [dict(kinds[i in (0, k - 1)]) for i in range(k)]
    m = r.choice((k - 1, k - 2, 2))
    script = 'J0 S0 ' + ' '.join('J%d' % i for i in range(1, m)) + ' W0 S0 ' + ' '.join('J%d' % i for i in range(m, k)) + ' S%d W0 W%d S0 W0' % (k - 1, k - 1)
    return dict(n=n, env=g.place(n), ops=ops, lazy=1, script=script)


def many_freed(g):
    """as many, freed in some order and set up again"""
    r = g.r
    c = many(g)
    k = len(c['ops'])
    a = r.choice((0, 1, k - 1, k // 2))
    b = r.choice([x for x in (0, 1, k - 1, k - 2) if x != a])
    c['script'] = ' '.join('J%d' % i for i in range(k)) + ' S%d S%d W%d W%d F%d S%d W%d J%d S%d W%d' % (a, b, a, b, a, b, b, a, a, a) + ' '.join(' F%d' % i for i in range(k) if i != b) + ' S%d W%d F%d' % (b, b, b)
    return c


def c16(g):
    def gen():
        r = g.r
        n = r.choice((2, 3, 4, 4, 5, 6, 6, 8))
        if r.random() < .4:
            c = g.base(ALL, sizes=(n,), script='S0 W0 S0 W0')
            c['rpn'] = r.choice([d for d in range(1, n + 1) if n % d == 0])
            t = c['env'].get('EXT_MPI_NUM_TASKS_PER_SOCKET')
            if t and c['rpn'] % t:
                del c['env']['EXT_MPI_NUM_TASKS_PER_SOCKET']
            return c
        k = r.choice(['rev', 'rot', 'dup', 'half', 'halves'])
        m = n
        if k in ('half', 'halves'):
            if n % 2:
                return None
            m = n // 2
        env = g.tune(g.place(m))
        return dict(n=n, env=env, comm=k, ops=[g.op(m, r.choice(ALL), counts=(1, 2, 3, 5, 9))], script='S0 W0 S0 W0', fastest=r.randrange(n))
    return gen


def c17(g):
    def gen():
        if g.r.random() < .6:
            return g.base([c for c in ALL if c not in RED], types=('char', 'byte', 'short', 'unsigned', 'int', 'float'), script='S0 W0 S0 W0')
        return g.base(RED, script='S0 W0 S0 W0')
    return gen


def c18(g):
    def gen():
        cs = ['allreduce', 'reduce', 'allreduce', 'reduce'] + INPLACE_EXTRA
        c = g.base(cs, script='S0 W0 S0 W0')
        c['ops'][0]['inplace'] = 1
        return c
    return gen


INPLACE_EXTRA = [c for c in ALL if c not in ('bcast',)]


def c21(g):
    """arguments without significance at a rank are passed as NULL, MPI_DATATYPE_NULL or nonsense"""
    def gen():
        c = with_ports(g, g.base(['reduce', 'gather', 'gatherv', 'scatter', 'scatterv'], script='S0 W0 S0 W0'), .3)
        c['ops'][0]['insig'] = 1
        if g.r.random() < .25:
            c['ops'][0]['inplace'] = 1
        return c
    return gen


def c20(g):
    def gen():
        r = g.r
        if r.random() < .08:
            return many_freed(g)
        c = g.base(ALL, sizes=(2, 3, 4, 4, 5, 6), counts=(1, 2, 3, 5, 9), script=r.choice(['S0 W0 F0 I0 S0 W0 S0 W0', 'S0 W0 S0 W0 F0 I0 S0 W0']))
        with_ports(g, c, .3)
        if r.random() < .5:
            n = c['n']
            c['ops'].append(g.op(n, r.choice(ALL), counts=(1, 2, 3, 5)))
            c['script'] = r.choice(['S0 S1 W0 W1 F0 S1 W1 S1 W1', 'S0 W0 F0 I0 S0 S1 W0 W1', 'S1 W1 F1 S0 W0 I1 S1 S0 W1 W0'])
            c['env'].pop('EXT_MPI_NUM_PORTS', None)
            c.pop('info', None)
        elif r.random() < .3:
            c['lazy'] = 1           # the first initialisation, with its timing runs, is executed symbolically as well
            c['script'] = r.choice(['I0 S0 W0', 'I0 S0 W0 F0 I0 S0 W0'])
        return c
    return gen


PROPS = {
    'C01': (one_collective(['allreduce']), 260, 3), 'C02': (one_collective(['reduce']), 260, 3), 'C03': (one_collective(['bcast']), 320, 3),
    'C04': (one_collective(['allgather', 'allgatherv']), 300, 4), 'C05': (one_collective(['gather', 'gatherv']), 320, 4), 'C06': (one_collective(['scatter', 'scatterv']), 320, 4),
    'C07': (one_collective(['reduce_scatter', 'reduce_scatter_block']), 280, 4),
    'C08': (c08, 300, 4), 'C09': (c09, 200, 6), 'C10': (c10, 200, 6), 'C11': (c11, 200, 12), 'C12': (c12, 260, 4), 'C13': (c13, 260, 4),
    'C14': (c14, 280, 4), 'C15': (c15, 200, 6), 'C16': (c16, 280, 4), 'C17': (c17, 300, 4), 'C18': (c18, 240, 4), 'C20': (c20, 160, 6), 'C21': (c21, 260, 4), 'S01': (s01, 140, 9),
}


def configs(prop, tier, seed):
    f, k, maxcost = PROPS[prop]
    g = Gen(prop, seed, tier)
    if tier == 'thorough':
        k, maxcost = k * 12, maxcost * 4
    return take(f(g), k, maxcost)

TEXT = ('For every configuration the byte code of every rank, as generated by the real library, is executed by the real executor (LLVM IR) symbolically: '
        'buffer contents are symbolic; every element of every result is compared with its specification by one Z3 query per rank and start; conflicting '
        'shared accesses are compared under all schedules by an SMT query over event clocks; overlaps that exist are re-executed symbolically in the overlapping orders.')


def bounds(prop, cfgs):
    return dict(configurations=len(cfgs), processes=sorted({c['n'] for c in cfgs}), tasks_per_socket=sorted({tps(c) for c in cfgs}),
                max_elements=max(max(o.get('counts') or [o.get('count', 1)]) for c in cfgs for o in c['ops']),
                collectives=sorted({o['coll'] for c in cfgs for o in c['ops']}), types=sorted({o.get('type', 'long') for c in cfgs for o in c['ops']}),
                histories=sorted({c['script'] for c in cfgs})[:12], settings=sorted({k for c in cfgs for k in c.get('env', {})} | {k for c in cfgs for k in c.get('info', {})}),
                outside='larger sizes, other placements and settings, several sockets per node unless listed, non-contiguous types, GPU buffers')
