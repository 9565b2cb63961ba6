"""Runs one configuration: records the byte code the real library generates (driver, mode=rec), executes the real
executor symbolically over it for all ranks, and decides the properties with Z3."""
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import z3

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import spec
import vm
from vm import Violation, EngineError

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
REPO = os.environ.get('VERIF_REPO', '/repo')
KINDS = ['malloc', 'shm', 'shm-ro', 'send', 'recv', 'global']


def includes():
    return [ROOT + '/harness/fmpi', BUILD + '/gen', REPO, REPO + '/include/core', REPO + '/include/mpi']


OFFSETS = '''#include <stdio.h>
#include <stddef.h>
#include "byte_code.h"
int main() { printf("{\\"barrier_counter_socket\\": %d, \\"barrier_counter_node\\": %d}\\n", (int)offsetof(struct header_byte_code, barrier_counter_socket), (int)offsetof(struct header_byte_code, barrier_counter_node)); return 0; }
'''
_prog = None


def program(opt=0):
    """IR of the executor; other library functions it may call are translated on demand from their own source file."""
    global _prog
    if _prog is None:
        syms = {}
        for l in open(BUILD + '/driver.nm'):
            p = l.split()
            if len(p) == 3 and p[1] in 'BbDdRr':
                syms[p[2]] = int(p[0], 16)

        def other(fn):
            import re
            for d in ('src/mpi', 'src/core', 'src/noopt'):
                for f in sorted(os.listdir(REPO + '/' + d)):
                    if f.endswith('.c'):
                        src = REPO + '/' + d + '/' + f
                        if re.search(r'\b%s\s*\(' % re.escape(fn), open(src).read()):
                            out = os.path.join(BUILD, f[:-2] + '.%d.ll' % os.getpid())
                            try:
                                ir.compile_ll(src, out, includes())
                            except subprocess.CalledProcessError:
                                continue
                            t = open(out).read()
                            if re.search(r'^define (?!internal).*@%s\(' % re.escape(fn), t, re.M):
                                return (f, out)
            return None
        _prog = [vm.Program({'exec': BUILD + f}, syms, other=other) for f in ('/exec.ll', '/exec_opt.ll')]
    return _prog[opt]


def driver_args(cfg, out, mode):
    a = [BUILD + '/driver', out, 'n=%d' % cfg['n'], 'mode=' + mode, 'script=' + cfg.get('script', 'S0 W0'), 'comm=' + cfg.get('comm', 'world'),
         'timeout=%d' % cfg.get('timeout', 60)]
    if cfg.get('rpn'):
        a.append('rpn=%d' % cfg['rpn'])
    if cfg.get('debug'):
        a.append('debug=1')
    if cfg.get('lazy'):
        a.append('lazy=1')
    a.append('fastest=%d' % cfg.get('fastest', 0))
    if cfg.get('info'):
        a.append('info=' + '|'.join('%s=%s' % kv for kv in cfg['info'].items()))
    a += ['op=' + spec.opstr(o) for o in cfg['ops']]
    a += ['%s=%s' % kv for kv in cfg.get('env', {}).items()]
    return a


def cfgname(cfg):
    return ' '.join(driver_args(cfg, '', 'x')[2:]).replace('mode=x ', '').replace(' timeout=%d' % cfg.get('timeout', 60), '')


class Rec:
    """one rank's recording"""

    def __init__(self, path):
        d = open(path, 'rb').read()
        self.items = []
        i = 0
        U64, I32 = struct.Struct('<Q'), struct.Struct('<i')

        def u64():
            nonlocal i
            i += 8
            return U64.unpack_from(d, i - 8)[0]

        def i32():
            nonlocal i
            i += 4
            return I32.unpack_from(d, i - 4)[0]
        while i < len(d):
            t = chr(d[i])
            i += 1
            if t in 'OB':
                base, size, kind, id_, n = u64(), u64(), i32(), i32(), u64()
                self.items.append((t, base, size, kind, id_, d[i:i + n]))
                i += n
            elif t == 'F':
                self.items.append((t, u64()))
            elif t == 'M':
                c, id_, s, r = u64(), i32(), i32(), i32()
                self.items.append((t, c, id_, s, r, [i32() for _ in range(s)]))
            elif t == 'E':
                n = i32()
                self.items.append((t, d[i:i + n].decode()))
                i += n
            elif t == 'C':
                n = i32()
                fn = d[i:i + n].decode()
                i += n
                k = i32()
                self.items.append((t, fn, [u64() for _ in range(k)]))
            else:
                raise EngineError('bad recording')


class Setup(Exception):
    """the real library failed while setting the configuration up"""


def record(cfg, d):
    p = subprocess.run(driver_args(cfg, d, 'rec'), capture_output=True, text=True)
    if p.returncode:
        logs = ''
        for r in range(cfg['n']):
            f = '%s/log_%d.txt' % (d, r)
            if os.path.exists(f):
                t = open(f, errors='replace').read().strip()
                if t:
                    logs += ' | rank %d: %s' % (r, t[-200:])
        raise Setup('driver rc=%d %s%s' % (p.returncode, p.stderr.strip()[-300:], logs[:400]))
    return [Rec('%s/rec_%d.bin' % (d, r)) for r in range(cfg['n'])]


class Sim:
    """symbolic execution of one recorded configuration under one schedule policy"""

    def __init__(self, cfg, recs, holds=(), policy='early', any_policy='first', budget=3000000, decisions=(), concrete=None, shift=None):
        self.shift = shift
        self.marks = {}
        self.cfg = cfg
        self.recs = recs
        self.ex = vm.Exec(program(1 if shift else 0), cfg['n'], policy=policy, holds=holds, any_policy=any_policy, budget=budget, decisions=decisions)
        self.ex.segs = {}
        self.results = []        # (rank, op, iter, recv objs terms)
        self.concrete = concrete
        self.commsz = {}
        self.ncalls = 0
        self.shmdiff = set()

    def seg(self, id_, size, data):
        o = self.ex.segs.get(id_)
        if o is None:
            o = self.ex.segs[id_] = vm.Obj('shared segment %d' % id_, size, 1, data)
        return o

    def prepare(self):
        """map the memory of all ranks as of their first call into the executor"""
        last = {}
        for r, rec in enumerate(self.recs):
            R = self.ex.R[r]
            R.snap = {}
            R.buf = {}
            for it in rec.items:
                if it[0] == 'M':
                    R.comms[it[1]] = (it[2], it[4], it[5])
                if it[0] == 'E' and it[1].startswith('comm '):
                    self.commsz[r] = tuple(int(x) for x in it[1].split()[1:])
        # initial content of shared memory: the last recorded first snapshot wins (all ranks finished their set-up before Start)
        for r, rec in enumerate(self.recs):
            for it in rec.items:
                if it[0] in 'OB' and it[3] in (1, 2):
                    last.setdefault(it[4], []).append((it[2], it[5]))
        for id_, l in last.items():
            o = self.seg(id_, l[-1][0], l[-1][1])
            if self.shift:
                self.shift.segment(id_, o)

    def apply(self, R, it):
        t = it[0]
        if t == 'O':
            _, base, size, kind, id_, data = it
            if kind in (1, 2):
                R.map(base, self.seg(id_, size, data), kind == 2)
            else:
                names = {0: 'heap block', 3: 'send buffer of operation %d' % id_, 4: 'receive buffer of operation %d' % id_, 5: 'global data'}
                o = vm.Obj('rank %d %s' % (R.r, names[kind]), size, kind, data, owner=R.r)
                R.map(base, o)
                if kind in (3, 4):
                    R.buf[(kind, id_)] = (base, o)
                elif kind == 0 and self.shift:
                    self.shift.block(R, base, o)
            R.snap[base] = data
        elif t == 'B':
            _, base, size, kind, id_, data = it
            old = R.snap.get(base)
            R.snap[base] = data
            if kind in (2, 3, 4) or old is None:
                return
            o = R.objs[R.bases.index(base)]
            if kind == 1:
                return
            a, b = old, data
            if len(a) != len(b):
                return
            for i in range(0, len(b), 8):
                if a[i:i + 8] != b[i:i + 8]:
                    o.data[i:i + 8] = b[i:i + 8]
                    for k in range(i, i + 8):
                        o.sym.pop(k, None)
        elif t == 'F':
            R.unmap(it[1])
            R.snap.pop(it[1], None)

    def fill(self, R, oi, itn):
        """the user writes fresh data: every element of the send and receive buffer becomes a new symbol"""
        op = self.cfg['ops'][oi]
        ts = spec.TS[op.get('type', 'long')]
        for kind, w in ((3, 's'), (4, 'r')):
            base, o = R.buf[(kind, oi)]
            for i in range(o.size // ts):
                v = vm.var('%s_%d_%d_%d_%d' % (w, R.r, oi, itn, i), 8 * ts) if self.concrete is None else self.concrete((w, R.r, oi, itn, i), ts)
                R.put(o, i * ts, ts, v)
            R.log_access(o, 0, o.size, 1, (R.r, R.ev - 1, R.ev))

    def rankgen(self, r):
        R = self.ex.R[r]
        rec = self.recs[r]
        iters = {}
        yield from self.ex.after(R)
        items = list(rec.items)
        collect = ''
        group = []
        partial = {}
        for pos in range(len(items)):
            it = items[pos]
            if it is None:
                continue
            if it[0] in 'OBF':
                self.apply(R, it)
            elif it[0] == 'E':
                e = it[1]
                if e[0] in 'SBi' and e[1:2].isdigit():
                    # memory must be mapped before the first fill: the snapshot belongs to the next call
                    for j in range(pos + 1, len(items)):
                        if items[j] is not None and items[j][0] == 'C':
                            break
                        if items[j] is not None and items[j][0] == 'O' and items[j][1] not in R.snap and (e[0] != 'i' or items[j][3] in (3, 4)):
                            self.apply(R, items[j])
                            items[j] = None
                if e[0] in 'SB':
                    oi = int(e[1:])
                    if (3, oi) not in R.buf:
                        raise EngineError('no buffer recorded for operation %d' % oi)
                    self.fill(R, oi, iters.get(oi, 0))
                elif e[0] == 'i' and e[1:2].isdigit():
                    R.before_init = {k: [o.sym.get(x, o.data[x]) for x in range(o.size)] for k, (b, o) in R.buf.items()}
                elif e[0] == 'I':
                    for k, (b, o) in R.buf.items():
                        if k in R.before_init and R.before_init[k] != [o.sym.get(x, o.data[x]) for x in range(o.size)]:
                            raise Violation('init-writes', 'rank %d: the initialisation of operation %s changes the %s buffer of operation %d' % (R.r, e[1:], {3: 'send', 4: 'receive'}[k[0]], k[1]), rank=R.r)
                elif e[0] in 'pqgw' or e[0] == 't' and e[1:].isdigit():
                    collect = e
                    if e[0] not in 'wt':
                        group = []
                    elif int(e[1:]) in partial:
                        # a wait after tests that left the operation incomplete
                        fn, a, adv = partial.pop(int(e[1:]))
                        if e[0] == 't':
                            yield from self.poll(R, [[fn, a, adv]])
                        else:
                            yield from self.call(R, fn, [a[0], a[1], 2])
                    elif partial.get('all'):
                        yield from self.poll(R, partial.pop('all'))
                elif e[0] == 'P':
                    yield from self.poll(R, group + partial.pop('all', []))
                    collect = ''
                    for oi in [int(x) for x in e[1:].split(',')]:
                        k = iters.get(oi, 0)
                        iters[oi] = k + 1
                        self.finish(R, oi, k)
                elif e[0] in 'QG':
                    collect = ''
                    for p in group:
                        if (yield from self.poll1(R, p)):
                            continue
                        if e[0] == 'Q':
                            partial[int(e[1:])] = p
                        else:
                            partial.setdefault('all', []).append(p)
                elif e[0] in 'WT':
                    collect = ''
                    oi = int(e[1:])
                    k = iters.get(oi, 0)
                    iters[oi] = k + 1
                    self.finish(R, oi, k)
            elif it[0] == 'C':
                if collect[:1] in ('p', 'q', 'g'):
                    group.append([it[1], it[2], set()])
                else:
                    yield from self.call(R, it[1], it[2])
        yield from self.end(R)

    def end(self, R):
        if 0:
            yield

    def poll1(self, R, p):
        """one completion test of one operation -> whether it is complete"""
        fn, a, adv = p
        f = self.ex.prog.func('exec', fn)
        if f is None:
            raise ir.Unsupported('executor entry point %s not found' % fn)
        self.ncalls += 1
        R.code = a[0]
        self.forget(R, a[1])
        R.test_mode = True
        R.adv = set(adv)
        R.failed_locs = set()
        R.last_vld = None
        R.stack_top = 0x7ff000000000
        yield from f(R, a[0], a[1], a[2] & 0xffffffff)
        R.test_mode = False
        p[2] = set(R.failed_locs)
        return R.ld(a[1], 8) == 0

    def poll(self, R, group):
        """completion tests of several started operations in turn until all are complete; the order differs between ranks"""
        k = R.r
        group = list(group)
        while group:
            p = group[k % len(group)]
            if (yield from self.poll1(R, p)):
                group.remove(p)
            else:
                k += 1
                if k % len(group) == R.r % len(group):
                    R.blocked_on = 'completion tests of %d operations' % len(group)
                    yield 1
        R.blocked_on = ''

    def forget(self, R, addr):
        o, off = R.find(addr, 8)
        base = addr - off
        if base in R.snap:
            d = R.snap[base]
            R.snap[base] = d[:off] + bytes(8) + d[off + 8:]

    def call(self, R, fn, args):
        self.ncalls += 1
        f = self.ex.prog.func('exec', fn)
        if f is None:
            raise ir.Unsupported('executor entry point %s not found' % fn)
        a = [x & 0xffffffff if fn == 'ext_mpi_exec_blocking' and i in (2, 5, 6, 9, 13, 14, 15) or fn == 'ext_mpi_exec_native' and i == 2 else x for i, x in enumerate(args)]
        if fn == 'ext_mpi_exec_native':
            o, off = R.find(a[1], 8)
            base = a[1] - off
            if base in R.snap:
                d = R.snap[base]
                R.snap[base] = d[:off] + bytes(8) + d[off + 8:]
        R.code = a[0]
        if fn == 'ext_mpi_exec_native' and not a[2] & 2:
            R.test_mode = True
            R.adv = set()
            while True:
                R.failed_locs = set()
                R.last_vld = None
                R.stack_top = 0x7ff000000000
                yield from f(R, *a)
                if R.ld(a[1], 8) == 0:
                    break
                R.adv = set(R.failed_locs)
                R.blocked_on = 'completion test'
                p = self.ex.progress
                yield 1
            R.test_mode = False
        else:
            R.last_vld = None
            yield from f(R, *a)
            if fn == 'ext_mpi_exec_native' and R.ld(a[1], 8) != 0:
                raise Violation('incomplete', 'rank %d: a wait returned although the operation is not finished' % R.r, rank=R.r)

    def finish(self, R, oi, itn):
        if self.shift:
            self.marks[(R.r, oi, itn)] = self.shift.mark(R)
        op = self.cfg['ops'][oi]
        ts = spec.TS[op.get('type', 'long')]
        out = {}
        for kind, w in ((3, 's'), (4, 'r')):
            base, o = R.buf[(kind, oi)]
            out[w] = [R.get(o, i * ts, ts) for i in range(o.size // ts)]
            R.log_access(o, 0, o.size, 0, (R.r, R.ev - 1, R.ev))
        self.results.append((R.r, oi, itn, out))

    def run(self):
        self.prepare()
        self.ex.run({r: self.rankgen(r) for r in range(self.cfg['n'])})
        return self


class Shift:
    """the state a process is in after any number of starts: all barrier counters and flags moved by the same symbolic amount,
    and arbitrary bytes in the rest of the shared memory"""

    def __init__(self, plain):
        self.off = json.load(open(BUILD + '/offsets.json'))
        ids = {id(o): i for i, o in plain.ex.segs.items()}
        self.heads = [[] for _ in plain.ex.R]          # per rank: byte codes in the order of their first execution
        for r, rec in enumerate(plain.recs):
            for it in rec.items:
                if it[0] == 'C' and it[1] == 'ext_mpi_exec_native' and it[2][0] not in self.heads[r]:
                    self.heads[r].append(it[2][0])
        root = {}

        def find(x):
            while root.setdefault(x, x) != x:
                x = root[x]
            return x
        self.flags = {}          # segment -> {offset: (length, byte code index)}
        for L in plain.ex.locs.values():
            o, off, n = L.pos
            if id(o) not in ids:
                continue
            us = sorted({self.heads[r].index(c) for r, c in L.users})
            for u in us[1:]:
                root[find(u)] = find(us[0])
            self.flags.setdefault(ids[id(o)], {})[off] = (n, us[0])
        self.written = {}        # the bytes of the shared memory that starts write; all others keep what the set-up left there
        for id_, o in plain.ex.segs.items():
            self.written[id_] = {b for rd, wr in o.log.values() for off, n in wr for b in range(off, off + n)}
        self.K = {h: vm.var('K_%d' % find(h), 32) for h in range(max(len(x) for x in self.heads))}

    def segment(self, id_, o):
        fl = self.flags.get(id_, {})
        busy = set()
        for off, (n, h) in fl.items():
            v = int.from_bytes(o.data[off:off + n], 'little')
            for k in range(n):
                o.sym[off + k] = (self.K[h] + v, k)
                busy.add(off + k)
        for w in self.written.get(id_, ()):
            if w not in busy:
                o.sym[w] = (vm.var('g_%d_%d' % (id_, w), 8), 0)

    def block(self, R, base, o):
        for h, a in enumerate(self.heads[R.r]):
            if base <= a < base + o.size:
                for f in ('barrier_counter_socket', 'barrier_counter_node'):
                    p = a - base + self.off[f]
                    R.put(o, p, 4, self.K[h] + int.from_bytes(o.data[p:p + 4], 'little'))

    def mark(self, R):
        """the counters of a process relative to the symbolic amount"""
        out = []
        for h, a in enumerate(self.heads[R.r]):
            for f in ('barrier_counter_socket', 'barrier_counter_node'):
                try:
                    o, off = R.find(a + self.off[f], 4)
                except Violation:
                    out.append(None)
                    continue
                out.append(R.get(o, off, 4) - self.K[h])
        return out


def check_counters(sim, st):
    """the number of barrier steps of a start is the same on every process of a node and in every later start of the same plan,
    so the state after any number of starts is the one the symbolic counters stand for"""
    last = {}
    for r, oi, itn, out in sim.results:
        m = sim.marks[(r, oi, itn)]
        for v in m:
            if v is not None and v.__class__ is not int:
                raise EngineError('barrier counter of rank %d is %s' % (r, vm.show(v)))
        last[r] = m
        p = [sim.marks.get((r, oi, itn - k)) for k in (2, 4)]
        if len(sim.cfg['ops']) == 1 and None not in p:
            for a, b, c in zip(m, *p):
                st.vcs += 1
                if None not in (a, b, c) and (a - b - b + c) & 0xffffffff:
                    raise Violation('barrier-count', 'rank %d: the barrier counter advances by %d in starts %d-%d and by %d in starts %d-%d of the same plans' % (
                        r, b - c & 0xffffffff, itn - 4, itn - 2, a - b & 0xffffffff, itn - 2, itn))
    seen = set()
    for L in sim.ex.locs.values():
        us = frozenset((r, sim.shift.heads[r].index(c)) for r, c in L.users)
        if us in seen:
            continue
        seen.add(us)
        st.vcs += len(us)
        cnt = {(r, h): last[r][2 * h:2 * h + 2] for r, h in us}
        # a flag belongs to the barriers of a socket or of a node; processes that share it must agree in that counter
        if all(len({x[k] for x in cnt.values()}) > 1 for k in (0, 1)):
            (u, x), (w, y) = [(k, v) for k, v in cnt.items()][:1] + [(k, v) for k, v in cnt.items() if v[0] != list(cnt.values())[0][0]][:1]
            raise Violation('barrier-drift', 'ranks %d and %d synchronise through the same flag, but their barrier counters are %s and %s after the same starts: they drift apart' % (u[0], w[0], x, y))


# ------------------------------------------------------------------ deciding the properties
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.vcs = 0
        self.calls = 0
        self.blocks = 0
        self.events = 0
        self.race_pairs = 0
        self.benign = 0
        self.configs = 0
        self.funcs = set()

    def add(self, o):
        for k in ('queries', 'solver_s', 'vcs', 'calls', 'blocks', 'events', 'race_pairs', 'benign', 'configs'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.funcs |= o.funcs


def csize(sim, r):
    return sim.commsz[r]


def members(cfg):
    """world ranks of every communicator used, as lists in communicator order, per world rank -> (group, my rank)"""
    n = cfg['n']
    k = cfg.get('comm', 'world')
    if k in ('world', 'dup'):
        g = [list(range(n))]
    elif k == 'rev':
        g = [list(range(n))[::-1]]
    elif k == 'half':
        g = [[r for r in range(n) if r % 2 == c] for c in (0, 1)]
    elif k == 'halves':
        h = (n + 1) // 2
        g = [[r for r in range(n) if r // h == c] for c in range((n - 1) // h + 1)]
    elif k == 'rot':
        g = [sorted(range(n), key=lambda r: (r + 1) % n)]
    return {r: (l, l.index(r)) for l in g for r in l}


def source_term(src, oi, itn, ts, ranks, concrete):
    q, w, i = src
    if concrete is not None:
        return concrete((w, ranks[q], oi, itn, i), ts)
    return vm.var('%s_%d_%d_%d_%d' % (w, ranks[q], oi, itn, i), 8 * ts)


def check_results(sim, st, want=('result', 'sendbuf', 'untouched')):
    """one query per (rank, completed operation): is there any input for which some element is not what MPI promises?"""
    cfg = sim.cfg
    mem = members(cfg)
    for r, oi, itn, out in sim.results:
        op = cfg['ops'][oi]
        ts = spec.TS[op.get('type', 'long')]
        fl = op.get('type', 'long') in ('float', 'double')
        ranks, me = mem[r]
        n = len(ranks)
        conv = vm.Z3Conv()
        dis = []
        if 'result' in want:
            for i, srcs in spec.contributions(op, n, me):
                got = out['r'][i]
                terms = [source_term(s, oi, itn, ts, ranks, None) for s in srcs]
                if len(terms) == 1:
                    dis.append((conv.bv(got, 8 * ts) != conv.bv(terms[0], 8 * ts), 'recv', i, got, terms))
                else:
                    e = conv.val(terms[0], fl, 8 * ts)
                    for t in terms[1:]:
                        e = e + conv.val(t, fl, 8 * ts)
                    dis.append((conv.val(got, fl, 8 * ts) != e, 'recv', i, got, terms))
        if 'sendbuf' in want:
            for i, got in enumerate(out['s']):
                dis.append((conv.bv(got, 8 * ts) != conv.bv(vm.var('s_%d_%d_%d_%d' % (r, oi, itn, i), 8 * ts)), 'send buffer', i, got, None))
        if 'untouched' in want:
            for i in spec.untouched(op, n, me):
                dis.append((conv.bv(out['r'][i], 8 * ts) != conv.bv(vm.var('r_%d_%d_%d_%d' % (r, oi, itn, i), 8 * ts)), 'untouched recv', i, out['r'][i], None))
        if not dis:
            continue
        s = z3.Solver()
        s.set('timeout', 120000)
        s.add(*sim.ex.pc)
        s.add(z3.Or([d[0] for d in dis]))
        t0 = time.time()
        res = s.check()
        st.solver_s += time.time() - t0
        st.queries += 1
        st.vcs += len(dis)
        if res == z3.unknown:
            raise EngineError('solver returned unknown')
        if res == z3.sat:
            m = s.model()
            for d in dis:
                if z3.is_true(m.eval(d[0], model_completion=True)):
                    raise Violation('wrong-' + d[1].split()[-1] if d[1] != 'recv' else 'wrong-result',
                                    '%s on rank %d (operation %d, start %d): %s element %d is %s%s' % (
                                        op['coll'], me, oi, itn, d[1], d[2], vm.show(d[3])[:200], ', expected the ' + ('sum of ' if len(d[4]) > 1 else 'value of ') + ', '.join(vm.show(t) for t in d[4])[:200] if d[4] else ''),
                                    model={str(k): m[k] for k in m.decls()} if False else model_inputs(m), rank=r)
            raise EngineError('model does not identify an element')


def model_inputs(m):
    out = {}
    for d in m.decls():
        nm = d.name()
        v = m[d]
        if nm.startswith('R!'):
            try:
                out[nm[2:]] = ('f', float(v.as_fraction()))
            except Exception:
                pass
        elif nm[:2] in ('s_', 'r_'):
            out[nm] = ('b', v.as_long())
    return out


def check_bit_identical(sim, st):
    """every rank's result element is the same term up to commutativity of addition (uninterpreted +)"""
    cfg = sim.cfg
    mem = members(cfg)
    ref = {}
    for r, oi, itn, out in sim.results:
        op = cfg['ops'][oi]
        k = (tuple(mem[r][0]), oi, itn)
        ref.setdefault(k, []).append((r, out['r']))
    for (g, oi, itn), l in ref.items():
        ts = spec.TS[cfg['ops'][oi].get('type', 'long')]
        conv = vm.Z3Conv(real=False)
        dis = []
        for r, o in l[1:]:
            for i, t in enumerate(o):
                dis.append((conv.bv(t, 8 * ts) != conv.bv(l[0][1][i], 8 * ts), r, i, t, l[0][1][i]))
        if not dis:
            continue
        s = z3.Solver()
        s.add(z3.Or([d[0] for d in dis]))
        t0 = time.time()
        res = s.check()
        st.solver_s += time.time() - t0
        st.queries += 1
        st.vcs += len(dis)
        if res != z3.unsat:
            m = s.model()
            for d in dis:
                if z3.is_true(m.eval(d[0], model_completion=True)):
                    raise Violation('not-bit-identical', 'rank %d element %d is computed as %s but rank %d computes %s' % (d[1], d[2], vm.show(d[3], 12)[:300], l[0][0], vm.show(d[4], 12)[:300]))


def reproducible(cfg, st, tmp=None):
    """-> None or Violation: with floating point addition uninterpreted (but commutative), every result element is the same
    term under every arrival order of the messages, so two runs on the same data agree bit by bit"""
    vm._cons.clear()
    d = tempfile.mkdtemp(prefix='vc', dir=tmp)
    try:
        try:
            recs = record(cfg, d)
        except Setup as e:
            return Violation('setup', str(e))
        try:
            ref = None
            for pol, anyp in (('early', 'first'), ('late', 'first'), ('early', 'last'), ('late', 'mid'), ('early', '1'), ('early', '2')):
                sim = Sim(cfg, recs, policy=pol, any_policy=anyp).run()
                res = {(r, oi, k): out['r'] for r, oi, k, out in sim.results}
                if ref is None:
                    ref = res
                    continue
                for key, out in res.items():
                    ts = spec.TS[cfg['ops'][key[1]].get('type', 'long')]
                    conv = vm.Z3Conv(real=False)
                    dis = [(conv.bv(t, 8 * ts) != conv.bv(u, 8 * ts), i, t, u) for i, (t, u) in enumerate(zip(out, ref[key])) if t is not u]
                    st.vcs += len(out)
                    if not dis:
                        continue
                    s = z3.Solver()
                    s.add(z3.Or([x[0] for x in dis]))
                    t0 = time.time()
                    r = s.check()
                    st.solver_s += time.time() - t0
                    st.queries += 1
                    if r != z3.unsat:
                        x = dis[0]
                        raise Violation('not-reproducible', 'rank %d element %d is computed as %s or as %s, depending on the arrival order' % (key[0], x[1], vm.show(x[2], 12)[:300], vm.show(x[3], 12)[:300]))
        except Violation as v:
            return v
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def race_query(sim, st, maxpairs=200000):
    """SMT query over integer clocks of all synchronisation events: can two conflicting accesses overlap?
    yields candidate pairs (X, Y, object, offset)"""
    ex = sim.ex
    objs = {}
    for R in ex.R:
        for o in R.objs:
            if o.track and o.log:
                objs[id(o)] = o
    pairs = {}
    for o in objs.values():
        bytemap = {}
        for key, (rd, wr) in o.log.items():
            for w, S in ((0, rd), (1, wr)):
                for off, n in S:
                    for b in range(off, off + n):
                        bytemap.setdefault(b, set()).add((key, w))
        seen_sets = set()
        for b, S in bytemap.items():
            if len(S) < 2:
                continue
            fs = frozenset(S)
            if fs in seen_sets:
                continue
            seen_sets.add(fs)
            W = [k for k, w in S if w]
            for x in W:
                for y, wy in S:
                    if x == y or (wy and y < x):
                        continue
                    if x[0] == y[0] and (x[2] <= y[1] or y[2] <= x[1] or (x[2] == x[1] + 1 and y[2] == y[1] + 1)):
                        continue
                    pairs.setdefault((x, y) if x < y else (y, x), (o, b))
    st.race_pairs += len(pairs)
    if not pairs:
        return
    clk = {}
    nev = [R.ev for R in ex.R]

    def c(r, i):
        v = clk.get((r, i))
        if v is None:
            v = clk[(r, i)] = z3.Int('c_%d_%d' % (r, i))
        return v
    s = z3.SolverFor('QF_IDL')
    for r in range(len(nev)):
        for i in range(nev[r] - 1):
            s.add(c(r, i) < c(r, i + 1))
    for a, b in set(ex.edges):
        s.add(c(*a) < c(*b))
    lits = []
    for (x, y), ob in pairs.items():
        cond = []
        if x[1] >= 0 and y[2] < nev[y[0]]:
            cond.append(c(x[0], x[1]) < c(y[0], y[2]))
        if y[1] >= 0 and x[2] < nev[x[0]]:
            cond.append(c(y[0], y[1]) < c(x[0], x[2]))
        p = z3.Bool('p%d' % len(lits))
        lits.append((p, x, y, ob))
        s.add(z3.Implies(p, z3.And(cond)) if cond else z3.BoolVal(True))
    s.add(z3.Or([l[0] for l in lits]))
    n = 0
    while True:
        t0 = time.time()
        res = s.check()
        st.solver_s += time.time() - t0
        st.queries += 1
        if res != z3.sat:
            if res == z3.unknown:
                raise EngineError('solver returned unknown')
            return
        m = s.model()
        for p, x, y, (o, b) in lits:
            if z3.is_true(m.eval(p)):
                s.add(z3.Not(p))
                yield x, y, o, b
                n += 1
        if n > 400:
            raise EngineError('more than 400 unordered pairs')


def confirm_race(cfg, recs, sim, x, y, st):
    """re-execute under schedules that realise the overlap; a race is reported only if one yields a wrong outcome"""
    for hold in ([(x[0], x[1], y[0], y[2])], [(y[0], y[1], x[0], x[2])]):
        if hold[0][0] == hold[0][2]:
            hold = []
        for pol in ('early', 'late'):
            try:
                s2 = Sim(cfg, recs, holds=hold, policy=pol, shift=sim.shift).run()
                check_results(s2, st)
            except Violation as v:
                if v.kind == 'deadlock' and 'schedule constraint' in v.msg:
                    continue
                return v, hold, pol
    return None


def write_inputs(path, cfg, model, n):
    """driver input file (per world rank) from a solver model; unspecified inputs get distinct values"""
    mem = members(cfg)
    with open(path, 'w') as f:
        for r in range(n):
            ranks, me = mem[r]
            for oi, op in enumerate(cfg['ops']):
                ty = op.get('type', 'long')
                ts = spec.TS[ty]
                sn, rn = spec.sizes(op, len(ranks), me)
                for itn in range(8):
                    for w, cnt in (('s', sn), ('r', rn)):
                        b = b''
                        for i in range(cnt):
                            b += concrete_value(model, (w, r, oi, itn, i), ty)
                        if b:
                            f.write('%d %d %d %s %s\n' % (r, oi, itn, w, b.hex()))


def concrete_value(model, key, ty):
    w, r, oi, itn, i = key
    nm = '%s_%d_%d_%d_%d' % key
    ts = spec.TS[ty]
    v = (model or {}).get(nm)
    fmt = {'double': '<d', 'float': '<f'}.get(ty)
    dflt = (r + 1) * 1000 + i * 17 + itn * 5 + oi * 3 + (500000 if w == 'r' else 0)
    if v is None:
        return struct.pack(fmt, dflt) if fmt else (dflt & ((1 << 8 * ts) - 1)).to_bytes(ts, 'little')
    if v[0] == 'f':
        return struct.pack(fmt, v[1])
    return (v[1] & ((1 << 8 * ts) - 1)).to_bytes(ts, 'little')


def native_run(cfg, model=None, delays='', tmp=None):
    """run the real library natively on concrete inputs; returns None if everything is as MPI promises, else a description"""
    d = tempfile.mkdtemp(prefix='vr', dir=tmp)
    try:
        inp = d + '/input.txt'
        write_inputs(inp, cfg, model, cfg['n'])
        c = dict(cfg)
        c['script'] = delays + cfg.get('script', 'S0 W0')
        c['timeout'] = 20
        p = subprocess.run(driver_args(c, d, 'real') + ['input=' + inp], capture_output=True, text=True)
        if p.returncode:
            return 'native run: rc=%d %s' % (p.returncode, p.stderr.strip()[-200:])
        mem = members(cfg)
        for r in range(cfg['n']):
            ranks, me = mem[r]
            for l in open('%s/res_%d.txt' % (d, r)):
                t = l.split()
                if t[0] not in ('recv', 'send'):
                    continue
                oi, itn = int(t[1]), int(t[2])
                b = bytes.fromhex(t[3]) if len(t) > 3 else b''
                op = cfg['ops'][oi]
                ty = op.get('type', 'long')
                ts = spec.TS[ty]
                val = lambda key: concrete_value(model, key, ty)
                if t[0] == 'send':
                    for i in range(len(b) // ts):
                        if b[i * ts:i * ts + ts] != val(('s', r, oi, itn, i)):
                            return 'native run: send buffer element %d of rank %d changed' % (i, me)
                    continue
                for i, srcs in spec.contributions(op, len(ranks), me):
                    got = b[i * ts:i * ts + ts]
                    vs = [val((w, ranks[q], oi, itn, j)) for q, w, j in srcs]
                    if len(vs) == 1:
                        ok = got == vs[0]
                    elif ty in ('double', 'float'):
                        f = '<d' if ty == 'double' else '<f'
                        tot = sum(struct.unpack(f, v)[0] for v in vs)
                        mag = sum(abs(struct.unpack(f, v)[0]) for v in vs)
                        ok = abs(struct.unpack(f, got)[0] - tot) <= 1e-5 * mag + 1e-30
                    else:
                        ok = int.from_bytes(got, 'little') == sum(int.from_bytes(v, 'little') for v in vs) & ((1 << 8 * ts) - 1)
                    if not ok:
                        return 'native run: rank %d operation %d start %d: element %d is %s, contributions are %s' % (me, oi, itn, i, got.hex(), [v.hex() for v in vs])
                for i in spec.untouched(op, len(ranks), me):
                    if b[i * ts:i * ts + ts] != val(('r', r, oi, itn, i)):
                        return 'native run: rank %d: element %d outside the result was overwritten' % (me, i)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_config(cfg, st=None, races=True, checks=('result', 'sendbuf', 'untouched'), bit=False, tmp=None, anystart=False):
    """-> None or Violation"""
    st = st if st is not None else Stats()
    vm._cons.clear()
    d = tempfile.mkdtemp(prefix='vc', dir=tmp)
    try:
        try:
            recs = record(cfg, d)
        except Setup as e:
            return Violation('setup', str(e))
        st.configs += 1
        try:
            shift = None
            if anystart:
                shift = Shift(Sim(cfg, recs).run())
            sims = []
            todo = [('first', ())]
            seen = 0
            while todo and seen < 48:
                anyp, dec = todo.pop(0)
                sim = Sim(cfg, recs, any_policy=anyp, decisions=dec, shift=shift).run()
                if seen == 0 and sim.ex.nany:
                    todo += [(a, ()) for a in ('last', 'mid', '0', '1', '2', '3')]
                todo += [(anyp, d) for d in sim.ex.pending]
                st.calls += sim.ncalls
                st.events += len(sim.ex.events)
                st.blocks += sum(R.ticks for R in sim.ex.R)
                st.funcs |= sim.ex.prog.encoded
                st.queries += sim.ex.queries
                st.solver_s += sim.ex.solver_s
                if sim.ncalls == 0 or not sim.results:
                    raise EngineError('nothing was executed')
                check_results(sim, st, checks)
                if bit:
                    check_bit_identical(sim, st)
                if shift:
                    check_counters(sim, st)
                if seen == 0 or dec:
                    sims.append(sim)
                seen += 1
            for sim in sims if races else []:
                for x, y, o, b in race_query(sim, st):
                    c = confirm_race(cfg, recs, sim, x, y, st)
                    if c:
                        v, hold, pol = c
                        raise Violation('race', 'accesses to %s+%d by rank %d and rank %d are not ordered; with the schedule %s (%s transfers): %s' % (
                            o.name, b, x[0], y[0], hold, pol, v), hold=hold, pol=pol, inner=v.kind, **{k: v.data[k] for k in v.data if k == 'model'})
                    st.benign += 1
        except Violation as v:
            return v
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build():
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run(['bash', ROOT + '/harness/build.sh', BUILD, REPO], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ir.compile_ll(REPO + '/src/mpi/ext_mpi_native_exec.c', BUILD + '/exec.ll', includes())
    # a variant in which the compiler has used that signed overflow is undefined, for the check of the counters
    ir.compile_ll(REPO + '/src/mpi/ext_mpi_native_exec.c', BUILD + '/exec_opt.ll', includes(), passes='mem2reg,instcombine<no-verify-fixpoint>,simplifycfg')
    p = subprocess.run(['gcc', '-w', '-x', 'c', '-', '-o', BUILD + '/offsets'] + ['-I' + i for i in includes()], input=OFFSETS, text=True, capture_output=True)
    open(BUILD + '/offsets.json', 'w').write(subprocess.run([BUILD + '/offsets'], capture_output=True, text=True).stdout if p.returncode == 0 else '{}')


if __name__ == '__main__':

    cfg = eval(sys.argv[1])
    if not os.path.exists(BUILD + '/driver') or '-b' in sys.argv:
        build()
    st = Stats()
    t = time.time()
    v = run_config(cfg, st, bit='-bit' in sys.argv)
    print(cfgname(cfg), '->', v or 'holds', '%.2fs' % (time.time() - t), {k: x for k, x in st.__dict__.items() if k != 'funcs'})
    if v:
        print('replay:', native_run(cfg, v.data.get('model')))
