"""Symbolic machine: executes the translated IR of the real executor for all ranks of a recorded configuration.
Values are Python ints (concrete) or T terms (symbolic bit-vectors); memory is byte-granular; inter-process shared
memory, flags (volatile accesses) and point-to-point messages are modelled; every synchronisation event and every data
access is logged for the happens-before queries."""
import bisect
import os
import struct
import sys
import mmap
import z3

import ir

sys.setrecursionlimit(10000)
M64 = (1 << 64) - 1


class Violation(Exception):
    def __init__(self, kind, msg, **kw):
        super().__init__(kind + ': ' + msg)
        self.kind = kind
        self.msg = msg
        self.data = kw


class EngineError(Exception):
    pass


# ------------------------------------------------------------------ terms
_cons = {}


class T:
    __slots__ = ('op', 'args', 'bits', 'h')

    def __add__(s, o):
        return mk('add', (s, o), s.bits)

    def __radd__(s, o):
        return mk('add', (o, s), s.bits)

    def __sub__(s, o):
        return mk('sub', (s, o), s.bits)

    def __rsub__(s, o):
        return mk('sub', (o, s), s.bits)

    def __mul__(s, o):
        return mk('mul', (s, o), s.bits)

    def __rmul__(s, o):
        return mk('mul', (o, s), s.bits)

    def __and__(s, o):
        if o.__class__ is int and o == (1 << s.bits) - 1:
            return s
        return mk('and', (s, o), s.bits)

    def __rand__(s, o):
        return s.__and__(o)

    def __or__(s, o):
        return mk('or', (s, o), s.bits)

    __ror__ = __or__

    def __xor__(s, o):
        return mk('xor', (s, o), s.bits)

    __rxor__ = __xor__

    def __bool__(s):
        raise EngineError('symbolic truth value')

    def __repr__(s):
        return show(s)


def show(t, d=6):
    if t.__class__ is int:
        return str(t)
    if t.op == 'var':
        return t.args[0]
    if d == 0:
        return '...'
    return t.op + '(' + ','.join(show(a, d - 1) if isinstance(a, (T, int)) else str(a) for a in t.args) + ')'


def mk(op, args, bits):
    if op == 'add' and args[1].__class__ is int and args[1] & ((1 << bits) - 1) == 0:
        return args[0]
    if op == 'add' and args[0].__class__ is int and args[0] & ((1 << bits) - 1) == 0:
        return args[1]
    if op == 'mul' and args[1].__class__ is int and args[1] == 1:
        return args[0]
    if op == 'sub' or op == 'add':
        a, b = args
        if op == 'sub' and b.__class__ is int and a.__class__ is T:
            return mk('add', (a, -b & ((1 << bits) - 1)), bits)
        if op == 'add' and a.__class__ is int and b.__class__ is T:
            return mk('add', (b, a), bits)
        if op == 'add' and b.__class__ is int and a.__class__ is T and a.op == 'add' and a.args[1].__class__ is int:
            return mk('add', (a.args[0], (a.args[1] + b) & ((1 << bits) - 1)), bits)
        if op == 'sub' and a.__class__ is T and b.__class__ is T:
            x, c = (a.args if a.op == 'add' and a.args[1].__class__ is int else (a, 0))
            y, d = (b.args if b.op == 'add' and b.args[1].__class__ is int else (b, 0))
            if x is y:
                return (c - d) & ((1 << bits) - 1)
    k = (op, args, bits)
    t = _cons.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.bits = op, args, bits
        _cons[k] = t
    return t


def var(name, bits):
    return mk('var', (name,), bits)


def sx(v, b, B):
    if v.__class__ is int:
        return v | (((1 << B) - 1) ^ ((1 << b) - 1)) if v >> (b - 1) & 1 else v
    return v if b == B else mk('sext', (v, B), B)


def zx(v, b, B):
    if v.__class__ is int:
        return v
    return v if b == B else mk('zext', (v, B), B)


def tr(v, b, B):
    if v.__class__ is int:
        return v & ((1 << B) - 1)
    return ext(v, 0, B)


def ext(v, lo, n):
    """n bits of v from bit lo"""
    if v.__class__ is int:
        return v >> lo & ((1 << n) - 1)
    if lo == 0 and n == v.bits:
        return v
    return mk('extract', (v, lo), n)


def s_(v, b):
    return v - (1 << b) if v >> (b - 1) & 1 else v


def _cmp(name, f, signed):
    def g(a, b, bits):
        if a.__class__ is int and b.__class__ is int:
            if signed:
                return 1 if f(s_(a, bits), s_(b, bits)) else 0
            return 1 if f(a, b) else 0
        return mk('icmp_' + name, (a, b), 1)
    return g


def _div(name):
    def g(R, a, b, bits):
        if a.__class__ is int and b.__class__ is int:
            m = (1 << bits) - 1
            if name in ('shl', 'lshr', 'ashr'):
                if b >= bits:
                    raise Violation('ub', 'shift amount %d' % b)
                if name == 'shl':
                    return a << b & m
                if name == 'lshr':
                    return a >> b
                return s_(a, bits) >> b & m
            if b == 0:
                raise Violation('ub', 'division by zero')
            if name == 'udiv':
                return a // b
            if name == 'urem':
                return a % b
            x, y = s_(a, bits), s_(b, bits)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if name == 'sdiv' else x - q * y) & m
        if name in ('udiv', 'sdiv', 'urem', 'srem'):
            R.ex.oblige(mk('icmp_ne', (b, 0), 1) if not isinstance(b, int) else (1 if b else 0), 'ub', 'division by zero')
        return mk(name, (a, b), bits)
    return g


NS = {'sx': sx, 'zx': zx, 'tr': tr}
for n, f, sg in (('eq', lambda a, b: a == b, 0), ('ne', lambda a, b: a != b, 0), ('ult', lambda a, b: a < b, 0), ('ule', lambda a, b: a <= b, 0),
                 ('ugt', lambda a, b: a > b, 0), ('uge', lambda a, b: a >= b, 0), ('slt', lambda a, b: a < b, 1), ('sle', lambda a, b: a <= b, 1),
                 ('sgt', lambda a, b: a > b, 1), ('sge', lambda a, b: a >= b, 1)):
    NS['cmp_' + n] = _cmp(n, f, sg)
for n in ('udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr'):
    NS['bop_' + n] = _div(n)


def fop(op, a, b, bits):
    if a.__class__ is int and b.__class__ is int:
        c = '<d' if bits == 64 else '<f'
        w = bits // 8
        x = struct.unpack(c, a.to_bytes(w, 'little'))[0]
        y = struct.unpack(c, b.to_bytes(w, 'little'))[0]
        r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
        return int.from_bytes(struct.pack(c, r), 'little')
    return mk(op, (a, b), bits)


def fcv(op, a, b, B):
    if a.__class__ is int and op == 'sitofp':
        return int.from_bytes(struct.pack('<d' if B == 64 else '<f', s_(a, b)), 'little')
    return mk(op, (a, B), B)


def fcmp(pr, a, b, bits):
    return mk('fcmp_' + pr, (a, b), 1)


NS.update(fop=fop, fcv=fcv, fcmp=fcmp)


class Z3Conv:
    """terms -> z3 (real=True: floating additions are exact additions over the reals, for value correctness;
    real=False: floating additions are an uninterpreted commutative function, for bit identity)."""

    def __init__(self, real=True):
        self.real = real
        self.memo = {}
        self.vars = {}

    def bv(self, t, bits=None):
        if t.__class__ is int:
            return z3.BitVecVal(t, bits)
        r = self.memo.get(t)
        if r is not None:
            return r
        op, a, n = t.op, t.args, t.bits
        if op == 'var':
            r = z3.BitVec(a[0], n)
            self.vars[a[0]] = r
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr'):
            x, y = self.bv(a[0], n), self.bv(a[1], n)
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'udiv': lambda: z3.UDiv(x, y), 'sdiv': lambda: x / y, 'urem': lambda: z3.URem(x, y), 'srem': lambda: z3.SRem(x, y),
                 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        elif op.startswith('icmp_'):
            k = a[0].bits if isinstance(a[0], T) else a[1].bits
            x, y = self.bv(a[0], k), self.bv(a[1], k)
            c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y),
                 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[op[5:]]()
            r = z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op == 'sext':
            x = self.bv(a[0])
            r = z3.SignExt(n - x.size(), x)
        elif op == 'zext':
            x = self.bv(a[0])
            r = z3.ZeroExt(n - x.size(), x)
        elif op == 'extract':
            r = z3.Extract(a[1] + n - 1, a[1], self.bv(a[0]))
        elif op == 'concat':
            r = z3.Concat(*[self.bv(p, 8) if isinstance(p, int) else self.bv(p) for p in a])
        elif op == 'ite':
            r = z3.If(self.bv(a[0]) == 1, self.bv(a[1], n), self.bv(a[2], n))
        else:
            f = z3.Function('%s_%d' % (op, n), *([z3.BitVecSort(n)] * 3)) if op.startswith('f') and len(a) == 2 else None
            if f is None:
                raise EngineError('no encoding of ' + op)
            x, y = self.bv(a[0], n), self.bv(a[1], n)
            if op in ('fadd', 'fmul') and str(x.sexpr()) > str(y.sexpr()):
                x, y = y, x
            r = f(x, y)
        self.memo[t] = r
        return r

    def val(self, t, ftype, bits):
        """value of t as element type (float types: real number)"""
        if not ftype:
            return self.bv(t, bits)
        key = ('R', t)
        r = self.memo.get(key)
        if r is not None:
            return r
        if t.__class__ is int:
            x = struct.unpack('<d' if bits == 64 else '<f', t.to_bytes(bits // 8, 'little'))[0]
            r = z3.RealVal(repr(x)) if x == x and abs(x) != float('inf') else z3.Real('nan!')
        elif t.op == 'var':
            r = z3.Real('R!' + t.args[0])
        elif t.op in ('fadd', 'fsub', 'fmul'):
            x, y = self.val(t.args[0], ftype, bits), self.val(t.args[1], ftype, bits)
            r = x + y if t.op == 'fadd' else x - y if t.op == 'fsub' else x * y
        else:
            r = z3.Real('junk!%d' % id(t))
        self.memo[key] = r
        return r


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('name', 'size', 'data', 'sym', 'kind', 'log', 'dead', 'id', 'owner', 'track')

    def __init__(self, name, size, kind, data=None, owner=None):
        self.name, self.size, self.kind = name, size, kind
        if size > 1 << 20:
            self.data = mmap.mmap(-1, size, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS)      # zero pages cost nothing
        else:
            self.data = bytearray(size)
        if data:
            self.data[0:len(data)] = bytes(data)
        self.sym = {}
        self.log = {}
        self.dead = False
        self.owner = owner
        self.track = kind in (1, 2, 3, 4)


class Loc:
    __slots__ = ('hist', 'seen', 'name', 'known', 'users', 'pos')

    def __init__(self, init, name):
        self.hist = [(init, None)]
        self.seen = {}
        self.known = {}
        self.name = name
        self.users = set()
        self.pos = None


class Rank:
    def __init__(self, ex, r):
        self.ex = ex
        self.r = r
        self.bases = []
        self.objs = []
        self.ro = {}
        self.cache = (1, 0, None, False)
        self.stack_top = 0x7ff000000000
        self.ev = 0                      # number of sync events so far
        self.ticks = 0
        self.frames = []
        self.gaddr = {}
        self.aggs = {}
        self.last_vld = None
        self.stale = False
        self.nspin = 0
        self.test_mode = False
        self.adv = set()
        self.failed_locs = set()
        self.comms = {}
        self.done = False
        self.blocked_on = ''
        self.code = 0                    # the byte code being executed

    # -- object management
    def map(self, base, obj, ro=False):
        i = bisect.bisect_left(self.bases, base)
        if i < len(self.bases) and self.bases[i] == base:
            self.objs[i] = obj
        else:
            self.bases.insert(i, base)
            self.objs.insert(i, obj)
        self.ro[base] = ro
        self.cache = (1, 0, None, False)

    def unmap(self, base):
        i = bisect.bisect_left(self.bases, base)
        if i < len(self.bases) and self.bases[i] == base:
            self.objs[i].dead = True
            del self.bases[i]
            del self.objs[i]
            self.cache = (1, 0, None, False)

    def find(self, addr, n, write=False):
        lo, hi, o, ro = self.cache
        if not (lo <= addr and addr + n <= hi):
            if addr.__class__ is not int:
                raise EngineError('symbolic address')
            i = bisect.bisect_right(self.bases, addr) - 1
            if i < 0:
                raise Violation('memory', 'rank %d accesses invalid address 0x%x (%d bytes) in %s' % (self.r, addr, n, self.where()), rank=self.r)
            lo = self.bases[i]
            o = self.objs[i]
            hi = lo + o.size
            ro = self.ro[lo]
            if addr + n > hi:
                raise Violation('memory', 'rank %d accesses %d bytes at %s+%d which is outside any object (%s has %d bytes) in %s' % (
                    self.r, n, o.name, addr - lo, o.name, o.size, self.where()), rank=self.r)
            self.cache = (lo, hi, o, ro)
        if write and ro:
            raise Violation('memory', 'rank %d writes %d bytes to %s+%d which it has mapped read-only, in %s' % (self.r, n, o.name, addr - lo, self.where()), rank=self.r)
        return o, addr - lo

    def where(self):
        return '/'.join(self.frames[-3:])

    # -- loads and stores
    def ld(self, a, n):
        if a.__class__ is not int:
            a = self.conc(a, 64)
        o, off = self.find(a, n)
        if o.track:
            k = (self.r, self.ev - 1, self.ev)
            L = o.log.get(k)
            if L is None:
                L = o.log[k] = (set(), set())
            L[0].add((off, n))
        if not o.sym:
            return int.from_bytes(o.data[off:off + n], 'little')
        return self.get(o, off, n)

    @staticmethod
    def get(o, off, n):
        sym = o.sym
        s0 = sym.get(off)
        if s0 is not None and s0[1] == 0 and s0[0].bits == 8 * n:
            t = s0[0]
            for k in range(1, n):
                s = sym.get(off + k)
                if s is None or s[0] is not t or s[1] != k:
                    break
            else:
                return t
        if s0 is None:
            for k in range(1, n):
                if off + k in sym:
                    break
            else:
                return int.from_bytes(o.data[off:off + n], 'little')
        parts = []
        for k in range(n - 1, -1, -1):
            s = sym.get(off + k)
            parts.append(o.data[off + k] if s is None else ext(s[0], 8 * s[1], 8))
        return parts[0] if n == 1 else mk('concat', tuple(parts), 8 * n)

    @staticmethod
    def put(o, off, n, v):
        if v.__class__ is int:
            o.data[off:off + n] = v.to_bytes(n, 'little')
            if o.sym:
                for k in range(off, off + n):
                    o.sym.pop(k, None)
        else:
            if v.bits != 8 * n:
                v = mk('zext', (v, 8 * n), 8 * n)
            for k in range(n):
                o.sym[off + k] = (v, k)

    def st(self, a, n, v):
        if a.__class__ is not int:
            a = self.conc(a, 64)
        o, off = self.find(a, n, True)
        if o.track:
            k = (self.r, self.ev - 1, self.ev)
            L = o.log.get(k)
            if L is None:
                L = o.log[k] = (set(), set())
            L[1].add((off, n))
        self.put(o, off, n, v)

    def log_access(self, o, off, n, w, key):
        if o.track and n:
            o.log.setdefault(key, (set(), set()))[w].add((off, n))

    def copy_out(self, a, n):
        """snapshot bytes (data, sym) without logging"""
        o, off = self.find(a, n)
        return bytes(o.data[off:off + n]), {k - off: o.sym[k] for k in range(off, off + n) if k in o.sym} if o.sym else {}

    def copy_in(self, a, n, blob):
        o, off = self.find(a, n, True)
        o.data[off:off + n] = blob[0][:n]
        if o.sym:
            for k in range(off, off + n):
                o.sym.pop(k, None)
        for k, v in blob[1].items():
            if k < n:
                o.sym[off + k] = v

    def ldagg(self, a, n):
        if n == 0:
            return ('agg', (b'', {}))
        o, off = self.find(a, n)
        self.log_access(o, off, n, 0, (self.r, self.ev - 1, self.ev))
        return ('agg', self.copy_out(a, n))

    def stagg(self, a, n, v):
        if n == 0:
            return
        o, off = self.find(a, n, True)
        self.log_access(o, off, n, 1, (self.r, self.ev - 1, self.ev))
        self.copy_in(a, n, (b'\0' * n, {}) if v == 0 else v[1])

    def xagg(self, v, off, n):
        o = Obj('tmp', len(v[1][0]), 0, v[1][0])
        o.sym = dict(v[1][1])
        return self.get(o, off, n)

    # -- volatile (inter-process flag) accesses
    def event(self, kind, info=''):
        e = (self.r, self.ev)
        self.ev += 1
        self.ex.events.append((e, kind, info))
        self.ex.progress += 1
        return e

    def vloc(self, a, n):
        o, off = self.find(a, n)
        key = (id(o), off, n)
        L = self.ex.locs.get(key)
        if L is None:
            L = self.ex.locs[key] = Loc(self.get(o, off, n), '%s+%d' % (o.name, off))
            L.pos = (o, off, n)
        L.users.add((self.r, self.code))
        return L, o, off

    def vst(self, a, n, v):
        self.find(a, n, True)
        L, o, off = self.vloc(a, n)
        self.last_vld = None
        h = L.hist[-1]
        if (h[0] is v or h[0].__class__ is int and v.__class__ is int and h[0] == v) and h[1] is not None and h[1][0] == self.r:
            return          # repeated store of the value already there by the same process: not a new event
        e = self.event('set', '%s=%s' % (L.name, v))
        L.hist.append((v, e))
        L.seen[self.r] = len(L.hist) - 1      # a process sees its own store
        self.put(o, off, n, v)
        yield from self.ex.after(self)

    def vld(self, a, n):
        """Weakest visibility: a load returns the value this process saw last; re-reading makes the next store visible
        (blocking when there is none yet).  Anything a stronger schedule could show is implied by the program order."""
        L, o, off = self.vloc(a, n)
        r = self.r
        k = k0 = L.seen.get(r, 0)
        if self.last_vld is L and self.stale:
            if self.test_mode:
                self.nspin += 1
                if k + 1 < len(L.hist):
                    k += 1
                elif self.nspin > 8:
                    raise Violation('blocking-test', 'a completion test of rank %d spins in %s waiting for flag %s instead of returning' % (r, self.where(), L.name), rank=r)
            else:
                while k + 1 == len(L.hist):
                    self.blocked_on = 'flag %s in %s' % (L.name, self.where())
                    yield 1
                self.blocked_on = ''
                k += 1
            self.stale = False
        else:
            if self.last_vld is not L:
                self.nspin = 0
            self.stale = True
            if self.test_mode and id(L) in self.adv:
                self.adv.discard(id(L))
                if k + 1 < len(L.hist):
                    k += 1
        if self.test_mode:
            self.failed_locs.add(id(L))
        self.last_vld = L
        v, e0 = L.hist[k]
        if k != k0 or (e0 is not None and e0[0] != r and k not in L.known.setdefault(r, set())):
            L.seen[r] = k
            L.known.setdefault(r, set()).add(k)
            e = self.event('see', '%s=%s' % (L.name, v))
            if e0 is not None and e0[0] != r:
                self.ex.edges.append((e0, e))
            yield from self.ex.after(self)
        return v

    def rmw(self, op, a, n, v):
        L, o, off = self.vloc(a, n)
        old, e0 = L.hist[-1]
        new = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v, 'or': lambda: old | v, 'and': lambda: old & v}[op]() & ((1 << 8 * n) - 1)
        e = self.event('rmw', '%s=%s' % (L.name, new))
        if e0 is not None and e0[0] != self.r:
            self.ex.edges.append((e0, e))
        L.hist.append((new, e))
        L.seen[self.r] = len(L.hist) - 1
        self.put(o, off, n, new)
        yield from self.ex.after(self)
        return old

    # -- control
    def tick(self):
        self.ticks += 1
        if self.ticks > self.ex.budget:
            raise Violation('hang', 'rank %d executes more than %d basic blocks without finishing (last in %s)' % (self.r, self.ex.budget, self.where()), rank=self.r)

    def br(self, c):
        if c.__class__ is int:
            return c
        return self.ex.branch(c)

    def conc(self, v, bits):
        if v.__class__ is int:
            return v
        return self.ex.concretise(v, bits)

    def sel(self, c, a, b, bits):
        if c.__class__ is int:
            return a if c else b
        if a.__class__ is int and b.__class__ is int and a == b:
            return a
        return mk('ite', (c, a, b), bits)

    def enter(self, name):
        self.frames.append(name)
        if len(self.frames) > 200:
            raise Violation('hang', 'recursion deeper than 200 in %s' % name, rank=self.r)
        return (len(self.frames) - 1, self.stack_top, [])

    def leave(self, fr):
        del self.frames[fr[0]:]
        top = fr[1]
        while self.stack_allocs and self.stack_allocs[-1] < top:
            self.unmap(self.stack_allocs.pop())
        self.stack_top = top

    stack_allocs = None

    def alloca(self, n):
        n = self.conc(n, 64)
        if self.stack_allocs is None:
            self.stack_allocs = []
        self.stack_top = (self.stack_top - n - 32) & ~15
        self.map(self.stack_top, Obj('stack of ' + self.frames[-1], n, 0, b'\xA5' * n))
        self.stack_allocs.append(self.stack_top)
        return self.stack_top

    def unreachable(self, fn):
        raise Violation('unreachable', 'rank %d reaches an unreachable point in %s' % (self.r, fn), rank=self.r)

    def ga(self, mod, name):
        k = (mod, name)
        a = self.gaddr.get(k)
        if a is None:
            a = self.gaddr[k] = self.ex.prog.symaddr(self, mod, name)
        return a

    def call(self, mod, name, *args):
        f = self.ex.prog.func(mod, name)
        if f is not None:
            return (yield from f(self, *args))
        h = getattr(self, 'x_' + name.replace('.', '_'), None)
        if h is None and name.startswith('llvm.'):
            for p in ('memcpy', 'memmove', 'memset', 'abs', 'smax', 'smin', 'umax', 'umin', 'stacksave', 'stackrestore', 'va_start', 'va_end', 'expect', 'ctlz', 'cttz'):
                if name.startswith('llvm.' + p):
                    h = getattr(self, 'x_' + p)
                    args = args + (name,)
                    break
        if h is None and name.startswith('PMPI_'):
            h = getattr(self, 'x_' + name[1:], None)
        if h is None:
            raise ir.Unsupported('call of external function ' + name)
        return (yield from h(*args))

    def icall(self, p, *args):
        p = self.conc(p, 64)
        mn = self.ex.prog.faddr.get(p)
        if mn is None:
            raise Violation('memory', 'indirect call of invalid address 0x%x' % p, rank=self.r)
        return (yield from self.call(mn[0], mn[1], *args))

    # -- library functions
    def x_memcpy(self, d, s, n, *_):
        if 0:
            yield
        n = self.conc(n, 64)
        if n == 0:
            return d
        if n >> 63:
            raise Violation('memory', 'rank %d copies a negative number of bytes in %s' % (self.r, self.where()), rank=self.r)
        o, off = self.find(s, n)
        self.log_access(o, off, n, 0, (self.r, self.ev - 1, self.ev))
        b = self.copy_out(s, n)
        o, off = self.find(d, n, True)
        self.log_access(o, off, n, 1, (self.r, self.ev - 1, self.ev))
        if s != d and s < d + n and d < s + n and 'memmove' not in str(_):
            raise Violation('memory', 'rank %d: memcpy on overlapping ranges in %s' % (self.r, self.where()), rank=self.r)
        self.copy_in(d, n, b)
        return d

    def x_memmove(self, d, s, n, *_):
        return (yield from self.x_memcpy(d, s, n, 'memmove'))

    def x_memset(self, d, c, n, *_):
        if 0:
            yield
        n = self.conc(n, 64)
        if n:
            o, off = self.find(d, n, True)
            self.log_access(o, off, n, 1, (self.r, self.ev - 1, self.ev))
            self.copy_in(d, n, (bytes([self.conc(c, 8) & 255]) * n, {}))
        return d

    def _intr(self, name, a, b):
        bits = int(name.split('.i')[-1])
        k = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[name.split('.')[1]]
        return self.sel(NS['cmp_' + k](a, b, bits), a, b, bits)

    def x_smax(self, a, b, name):
        if 0:
            yield
        return self._intr(name, a, b)
    x_smin = x_umax = x_umin = x_smax

    def x_abs(self, a, *r):
        if 0:
            yield
        name = r[-1] if r and isinstance(r[-1], str) else '.i32'
        bits = int(name.split('.i')[-1])
        if a.__class__ is int:
            return abs(s_(a, bits)) & ((1 << bits) - 1)
        return mk('ite', (NS['cmp_slt'](a, 0, bits), (0 - a), a), bits)

    def x_stacksave(self, *_):
        if 0:
            yield
        return self.stack_top

    def x_stackrestore(self, p, *_):
        if 0:
            yield
        while self.stack_allocs and self.stack_allocs[-1] < p:
            self.unmap(self.stack_allocs.pop())
        self.stack_top = p
        return 0

    def x_expect(self, a, *_):
        if 0:
            yield
        return a

    def x_malloc(self, n, *_):
        if 0:
            yield
        n = self.conc(n, 64)
        self.ex.heap += n + 64 + (-n % 16)
        p = 0x600000000000 + self.ex.heap
        self.map(p, Obj('heap', n, 0, b'\xA5' * n))
        return p

    def x_calloc(self, a, b, *_):
        p = yield from self.x_malloc(a * b)
        yield from self.x_memset(p, 0, a * b)
        return p

    def x_free(self, p, *_):
        if 0:
            yield
        if p:
            self.unmap(p)
        return 0

    def x_printf(self, *a):
        if 0:
            yield
        s = self.cstr(a[0])
        self.ex.prints.append((self.r, s))
        return 0
    x_puts = x_printf

    def x_fprintf(self, f, *a):
        return (yield from self.x_printf(*a))

    def x_putchar(self, *a):
        if 0:
            yield
        return 0

    def x_fflush(self, *a):
        if 0:
            yield
        return 0

    def x_sched_yield(self, *a):
        if 0:
            yield
        return 0
    x_usleep = x_sched_yield

    def cstr(self, a):
        s = b''
        while True:
            c = self.ld(a, 1)
            if c == 0 or len(s) > 500:
                return s.decode('latin1')
            s += bytes([c])
            a += 1

    def x_exit(self, c, *_):
        if 0:
            yield
        last = [s for r, s in self.ex.prints if r == self.r][-1:]
        raise Violation('abort', 'rank %d terminates the program with exit(%s) in %s %s' % (self.r, c, self.where(), last), rank=self.r)

    def x_abort(self, *_):
        yield from self.x_exit(-1)

    # -- MPI
    def dsize(self, dt):
        return self.ld(dt, 4)

    def comm(self, c):
        m = self.comms.get(c)
        if m is None:
            raise Violation('mpi', 'rank %d uses an invalid communicator in %s' % (self.r, self.where()), rank=self.r)
        return m

    def _post(self, kind, buf, cnt, dt, peer, tag, comm, reqp):
        cid, me, members = self.comm(comm)
        cnt, peer, tag = s_(self.conc(cnt, 32), 32), s_(self.conc(peer, 32), 32), s_(self.conc(tag, 32), 32)
        if cnt < 0:
            raise Violation('mpi', 'rank %d posts a %s of negative size %d' % (self.r, kind, cnt), rank=self.r)
        if not 0 <= peer < len(members):
            raise Violation('mpi', 'rank %d posts a %s with partner %d outside the communicator of size %d' % (self.r, kind, peer, len(members)), rank=self.r)
        n = cnt * self.dsize(dt)
        if n:
            self.find(buf, n, kind == 'recv')
        e = self.event('i' + kind, 'peer=%d tag=%d bytes=%d' % (members[peer], tag, n))
        q = Req(self, kind, buf, n, e)
        key = (cid, me, members.index(members[peer]) if 0 else peer, tag) if kind == 'send' else (cid, peer, me, tag)
        q.key = key
        self.ex.nreq += 1
        q.handle = 0x500000000000 + self.ex.nreq * 16
        self.ex.reqs[q.handle] = q
        if reqp is not None:
            self.st(reqp, 8, q.handle)
        sq, rq = self.ex.sendq.setdefault(key, []), self.ex.recvq.setdefault(key, [])
        (sq if kind == 'send' else rq).append(q)
        while sq and rq:
            s, r = sq.pop(0), rq.pop(0)
            s.peer, r.peer = r, s
            if s.n > r.n:
                raise Violation('mpi', 'message truncation: rank %d sends %d bytes to rank %d which receives at most %d' % (s.R.r, s.n, r.R.r, r.n), rank=r.R.r)
            if self.ex.policy == 'early':
                transfer(s, r)
        return q

    def x_MPI_Isend(self, buf, cnt, dt, dst, tag, comm, reqp):
        self._post('send', buf, cnt, dt, dst, tag, comm, reqp)
        yield from self.ex.after(self)
        return 0
    x_MPI_Issend = x_MPI_Isend

    def x_MPI_Irecv(self, buf, cnt, dt, src, tag, comm, reqp):
        self._post('recv', buf, cnt, dt, src, tag, comm, reqp)
        yield from self.ex.after(self)
        return 0

    def x_MPI_Recv(self, buf, cnt, dt, src, tag, comm, st):
        q = self._post('recv', buf, cnt, dt, src, tag, comm, None)
        yield from self._wait([q])
        return 0

    def x_MPI_Send(self, buf, cnt, dt, src, tag, comm):
        q = self._post('send', buf, cnt, dt, src, tag, comm, None)
        yield from self._wait([q])
        return 0

    def x_MPI_Sendrecv(self, sb, sc, sd, dst, stag, rb, rc, rd, src, rtag, comm, st):
        a = self._post('recv', rb, rc, rd, src, rtag, comm, None)
        b = self._post('send', sb, sc, sd, dst, stag, comm, None)
        yield from self._wait([a, b])
        return 0

    def _reqs(self, n, p):
        n = s_(self.conc(n, 32), 32)
        out = []
        for i in range(n):
            h = self.ld(p + 8 * i, 8)
            if h == 0:
                continue
            q = self.ex.reqs.get(h)
            if q is None:
                raise Violation('mpi', 'rank %d waits on an invalid request in %s' % (self.r, self.where()), rank=self.r)
            out.append((i, q))
        return out

    def _complete(self, qs):
        """qs all matched: sync event, edges, end of access windows"""
        for q in qs:
            if not q.moved:
                s, r = (q, q.peer) if q.kind == 'send' else (q.peer, q)
                transfer(s, r)
        e = self.event('wait', '')
        for q in qs:
            if q.kind == 'recv':
                self.ex.edges.append((q.peer.e, e))
                if q.n:
                    o, off = self.find(q.buf, q.n)
                    self.log_access(o, off, min(q.n, q.peer.n), 1, (self.r, q.e[1], e[1]))
            elif q.n:
                o, off = self.find(q.buf, q.n)
                self.log_access(o, off, q.n, 0, (self.r, q.e[1], e[1]))
            q.done = True
            q.we = e
        return e

    def _wait(self, qs):
        while not all(q.peer for q in qs):
            p = [q for q in qs if not q.peer][0]
            self.blocked_on = '%s (comm,src,dst,tag)=%s of %d bytes' % (p.kind, p.key, p.n)
            yield 1
        self.blocked_on = ''
        self._complete(qs)
        yield from self.ex.after(self)

    def x_MPI_Waitall(self, n, p, st):
        iq = self._reqs(n, p)
        if self.test_mode and any(not q.peer for _, q in iq):
            raise Violation('blocking-test', 'a completion test of rank %d blocks in MPI_Waitall' % self.r, rank=self.r)
        yield from self._wait([q for _, q in iq])
        for i, q in iq:
            self.st(p + 8 * i, 8, 0)
        return 0

    def x_MPI_Wait(self, p, st):
        yield from self.x_MPI_Waitall(1, p, st)
        return 0

    def x_MPI_Testall(self, n, p, flag, st):
        iq = self._reqs(n, p)
        if all(q.peer for _, q in iq):
            self._complete([q for _, q in iq])
            for i, q in iq:
                self.st(p + 8 * i, 8, 0)
            self.st(flag, 4, 1)
            yield from self.ex.after(self)
        else:
            self.st(flag, 4, 0)
        return 0

    def x_MPI_Test(self, p, flag, st):
        return (yield from self.x_MPI_Testall(1, p, flag, st))

    def x_MPI_Waitany(self, n, p, idx, st):
        iq = self._reqs(n, p)
        if not iq:
            self.st(idx, 4, 0xffff8000 & 0xffffffff)
            return 0
        tries = 0
        while True:
            ok = [(i, q) for i, q in iq if q.peer]
            if len(ok) == len(iq) or (ok and tries > 3):
                break
            tries += 1
            self.blocked_on = 'waitany'
            if ok:
                self.ex.progress += 1
            yield 1
        self.blocked_on = ''
        i, q = self.ex.choose(ok)
        self._complete([q])
        yield from self.ex.after(self)
        self.st(p + 8 * i, 8, 0)
        self.st(idx, 4, i)
        return 0


class Req:
    def __init__(self, R, kind, buf, n, e):
        self.R, self.kind, self.buf, self.n, self.e = R, kind, buf, n, e
        self.peer = None
        self.moved = False
        self.done = False
        self.we = None


def transfer(s, r):
    if s.n:
        r.R.copy_in(r.buf, s.n, s.R.copy_out(s.buf, s.n))
    s.moved = r.moved = True


# ------------------------------------------------------------------ program (translated functions)
class Program:
    """Lazily translated IR modules.  modules: name -> path of .ll; other: callable(function name) -> (modname, ll path) or None for
    functions that live in another source file of the library."""

    def __init__(self, modules, syms, rename=None, other=None):
        self.mods = {m: ir.Module(p, m) for m, p in modules.items()}
        self.syms = syms
        self.cache = {}
        self.faddr = {}
        self.other = other
        self.encoded = set()
        self.private = {}

    def func(self, mod, name):
        k = (mod, name)
        f = self.cache.get(k, 0)
        if f != 0:
            return f
        m = self.mods[mod]
        target = None
        if name in m.funcs:
            target = m
        else:
            for mm in self.mods.values():
                if name in mm.funcs and 'internal' not in mm.funcs[name][0]:
                    target = mm
            if target is None and self.other and not name.startswith(('llvm.', 'MPI_', 'PMPI_')):
                p = self.other(name)
                if p:
                    self.mods[p[0]] = target = ir.Module(p[1], p[0])
        if target is None:
            self.cache[k] = None
            return None
        src, _ = target.translate(name)
        ns = dict(NS)
        exec(compile(src, '<%s>' % name, 'exec'), ns)
        f = ns['F']
        self.cache[k] = f
        self.encoded.add(name)
        return f

    def symaddr(self, R, mod, name):
        m = self.mods[mod]
        if name in m.funcs or name in m.declared:
            for a, (mm, nn) in self.faddr.items():
                if (mm, nn) == (mod, name):
                    return a
            a = 0x400000000000 + 16 * len(self.faddr)
            self.faddr[a] = (mod, name)
            return a
        g = m.globals.get(name)
        if g and g['init'] is not None and (g['private'] or name not in self.syms):
            key = (R.r, mod, name)
            a = R.ex.private.get(key)
            if a is None:
                R.ex.heap += g['ty'].size + 64
                a = R.ex.private[key] = 0x600000000000 + (R.ex.heap & ~15)
                R.ex.heap += g['ty'].size + 64
                o = Obj('@' + name, g['ty'].size, 0)
                R.map(a, o)

                class V:
                    symaddr = staticmethod(lambda mo, nm: R.ga(mo.name, nm))
                for off, sz, v in m.const_bytes(g['ty'], g['init'], V)[0]:
                    o.data[off:off + sz] = int(v).to_bytes(sz, 'little')
            return a
        if name in self.syms:
            return self.syms[name]
        raise ir.Unsupported('symbol ' + name)


# ------------------------------------------------------------------ execution
class Exec:
    def __init__(self, prog, nranks, policy='early', holds=(), any_policy='first', budget=3000000, decisions=()):
        self.prog = prog
        self.R = [Rank(self, r) for r in range(nranks)]
        self.policy = policy
        self.holds = list(holds)          # (rank, event index it may not pass, other rank, event index that must be reached)
        self.any_policy = any_policy
        self.budget = budget
        self.events, self.edges, self.locs = [], [], {}
        self.sendq, self.recvq, self.reqs = {}, {}, {}
        self.nreq = 0
        self.heap = 0
        self.private = {}
        self.progress = 0
        self.prints = []
        self.decisions = list(decisions)
        self.dpos = 0
        self.pending = []
        self.pc = []
        self.conv = Z3Conv()
        self.obligations = []
        self.solver_s = 0
        self.queries = 0
        self.nany = 0

    # symbolic decisions
    def sat(self, extra):
        import time
        s = z3.Solver()
        s.add(*self.pc)
        s.add(*extra)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        return (r == z3.sat, s.model() if r == z3.sat else None)

    def branch(self, c):
        zc = self.conv.bv(c) == 1
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            t, f = self.sat([zc])[0], self.sat([z3.Not(zc)])[0]
            d = 1 if t else 0
            if t and f:
                self.pending.append(self.decisions + [0])
            self.decisions.append(d)
        self.dpos += 1
        self.pc.append(zc if d else z3.Not(zc))
        return d

    def concretise(self, v, bits):
        z = self.conv.bv(v, bits)
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            ok, m = self.sat([])
            d = m.eval(z, model_completion=True).as_long()
            if self.sat([z != d])[0]:
                raise EngineError('symbolic address or control value not unique: ' + show(v))
            self.decisions.append(d)
        self.dpos += 1
        self.pc.append(z == d)
        return d

    def oblige(self, c, kind, msg):
        if c.__class__ is int:
            if not c:
                raise Violation(kind, msg)
            return
        if self.sat([self.conv.bv(c) != 1])[0]:
            raise Violation(kind, msg)

    def choose(self, ok):
        self.nany += 1
        if self.any_policy == 'first':
            return ok[0]
        if self.any_policy == 'last':
            return ok[-1]
        if self.any_policy == 'mid':
            return ok[len(ok) // 2]
        return ok[(self.nany * 7 + int(self.any_policy)) % len(ok)]

    def after(self, R):
        """scheduling point right after a synchronisation event (and at the start); honours hold constraints"""
        for (r, ev, r2, ev2) in self.holds:
            if R.r == r and R.ev == ev + 1:
                while self.R[r2].ev <= ev2 and not self.R[r2].done:
                    R.blocked_on = 'schedule constraint'
                    yield 1
                R.blocked_on = ''
        if 0:
            yield

    def run(self, gens):
        live = dict(gens)
        while live:
            p0 = self.progress
            for r in list(live):
                try:
                    while True:
                        p1 = self.progress
                        next(live[r])
                        if self.progress == p1:
                            break
                except StopIteration:
                    self.R[r].done = True
                    self.progress += 1
                    del live[r]
            if self.progress == p0 and live:
                w = '; '.join('rank %d: %s' % (r, self.R[r].blocked_on) for r in live)
                raise Violation('deadlock', 'no rank can proceed: ' + w)
