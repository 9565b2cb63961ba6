"""Front end: C source -> clang -O0 + mem2reg LLVM IR -> Python generator functions that execute the IR on
symbolic values.  Regenerated from the current source on every run.  Every IR instruction of the function is
translated; an instruction the translator does not know raises Unsupported (never silently skipped)."""
import os
import re
import struct
import subprocess


class Unsupported(Exception):
    pass


CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w', '-DDEBUG', '-DM_MAP', '-ffp-contract=off']


def compile_ll(src, out, inc, defs=(), passes='mem2reg'):
    a = out + '.a.ll'
    subprocess.run(['clang'] + CFLAGS + list(defs) + ['-I' + i for i in inc] + ['-emit-llvm', '-S', '-o', a, src], check=True,
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    subprocess.run(['opt', '-passes=' + passes, '-S', a, '-o', out], check=True)
    os.unlink(a)
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'bits', 'n', 'el', 'fields', 'size', 'align', 'offs')

    def __init__(self, k, **kw):
        self.k = k
        self.bits = kw.get('bits', 0)
        self.n = kw.get('n', 0)
        self.el = kw.get('el')
        self.fields = kw.get('fields')
        self.offs = None
        if k == 'int':
            b = (self.bits + 7) // 8
            s = 1
            while s < b:
                s *= 2
            self.size = self.align = s
            if s > 8:
                self.align = 16
        elif k == 'ptr':
            self.size = self.align = 8
            self.bits = 64
        elif k == 'float':
            self.size = self.align = 4
            self.bits = 32
        elif k == 'double':
            self.size = self.align = 8
            self.bits = 64
        elif k == 'array':
            self.size = self.n * self.el.size
            self.align = self.el.align
        elif k == 'struct':
            o, al = 0, 1
            self.offs = []
            for f in self.fields:
                a = 1 if kw.get('packed') else f.align
                o = (o + a - 1) // a * a
                self.offs.append(o)
                o += f.size
                al = max(al, a)
            self.size = (o + al - 1) // al * al
            self.align = al
        else:
            self.size = 0
            self.align = 1


def tokenize_type(s, i, named):
    """parse a type at s[i:], return (Ty, next index)"""
    while s[i] == ' ':
        i += 1
    m = re.compile(r'i(\d+)').match(s, i)
    if m:
        return Ty('int', bits=int(m.group(1))), m.end()
    for w, k in (('ptr', 'ptr'), ('double', 'double'), ('float', 'float'), ('void', 'void'), ('metadata', 'meta'), ('label', 'label'), ('x86_fp80', 'void')):
        if s.startswith(w, i) and not (i + len(w) < len(s) and (s[i + len(w)].isalnum())):
            return Ty(k), i + len(w)
    if s[i] == '[' or (s[i] == '<' and s[i + 1] != '{'):
        m = re.compile(r'[\[<]\s*(\d+) x ').match(s, i)
        t, j = tokenize_type(s, m.end(), named)
        while s[j] == ' ':
            j += 1
        return Ty('array', n=int(m.group(1)), el=t), j + 1
    if s[i] == '{' or s.startswith('<{', i):
        packed = s[i] == '<'
        j = i + (2 if packed else 1)
        fs = []
        while True:
            while s[j] in ' ,':
                j += 1
            if s[j] == '}':
                j += 1
                break
            t, j = tokenize_type(s, j, named)
            fs.append(t)
        if packed:
            j += 1
        return Ty('struct', fields=fs, packed=packed), j
    if s[i] == '%':
        m = re.compile(r'%("[^"]*"|[\w.$-]+)').match(s, i)
        n = m.group(1)
        if n not in named:
            raise Unsupported('type %' + n)
        t = named[n]
        if isinstance(t, str):
            if t == 'opaque':
                return Ty('void'), m.end()
            t, _ = tokenize_type(t, 0, named)
            named[n] = t
        return t, m.end()
    raise Unsupported('type at ' + s[i:i + 40])


ATTR = re.compile(r'\b(noundef|signext|zeroext|nonnull|noalias|nocapture|writeonly|readonly|immarg|inreg|returned|readnone|'
                  r'allocptr|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^)]*\)|sret\([^)]*\))\s*')


class Module:
    """One translated .ll file."""

    def __init__(self, path, name):
        self.name = name
        self.named = {}
        self.globals = {}     # name -> dict(ty, init or None, private)
        self.funcs = {}       # name -> (params, rettype, lines)
        self.declared = set()
        self.code = {}
        self.lines = {}
        self.parse(open(path).read())

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'%("[^"]*"|[\w.$-]+) = type (.*)$', l)
            if m:
                self.named[m.group(1)] = m.group(2)
            m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
            if m:
                self.parse_global(m.group(1), m.group(2))
            if l.startswith('declare'):
                self.declared.add(re.search(r'@([\w.$]+)\(', l).group(1))
            if l.startswith('define'):
                m = re.match(r'define (.*?)@([\w.$]+)\((.*)\)([^()]*)\{$', l)
                name = m.group(2)
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self.funcs[name] = (m.group(1), m.group(3), body)
            i += 1

    def parse_global(self, name, rest):
        private = ' private ' in ' ' + rest or ' internal ' in ' ' + rest
        m = re.match(r'((?:[\w_]+(?:\([^)]*\))? )*?)(global|constant) (.*)$', rest)
        if not m:
            return
        t, j = tokenize_type(m.group(3), 0, self.named)
        init = None if 'external' in m.group(1) else m.group(3)[j:].strip()
        self.globals[name] = dict(ty=t, init=init, private=private)

    # -- constant expression evaluation (bytes written by callback)
    def const_bytes(self, ty, s, vm):
        """returns (bytes-like list of (offset, size, value)), rest of string"""
        s = s.lstrip()
        out = []

        def val(ty, s, off):
            s = s.lstrip()
            if s.startswith('zeroinitializer'):
                return s[15:]
            if s.startswith('undef') or s.startswith('poison'):
                return s[6 if s.startswith('poison') else 5:]
            if ty.k == 'array' and s.startswith('c"'):
                j, o = 2, 0
                while s[j] != '"':
                    if s[j] == '\\':
                        out.append((off + o, 1, int(s[j + 1:j + 3], 16)))
                        j += 3
                    else:
                        out.append((off + o, 1, ord(s[j])))
                        j += 1
                    o += 1
                return s[j + 1:]
            if ty.k in ('array', 'struct'):
                op = s[0]
                if s.startswith('<{'):
                    s = s[2:]
                else:
                    s = s[1:]
                k = 0
                while True:
                    s = s.lstrip(' ,')
                    if s[0] in '])}>':
                        s = s[1:]
                        if s.startswith('>') and op == '<':
                            s = s[1:]
                        return s
                    t, j = tokenize_type(s, 0, self.named)
                    s = val(t, s[j:], off + (k * ty.el.size if ty.k == 'array' else ty.offs[k]))
                    k += 1
            m = re.match(r'(null|true|false|-?\d+(?:\.\d+e[+-]\d+)?|0x[0-9A-Fa-f]+|@[\w.$]+)', s)
            if m:
                out.append((off, ty.size, self.scalar(ty, m.group(1), vm)))
                return s[m.end():]
            raise Unsupported('constant ' + s[:60])
        rest = val(ty, s, 0)
        return out, rest

    def scalar(self, ty, s, vm=None):
        if s in ('null', 'false', 'undef', 'poison', 'zeroinitializer', 'none'):
            return 0
        if s == 'true':
            return 1
        if ty.k in ('int', 'ptr') and re.fullmatch(r'-?\d+', s):
            return int(s) & ((1 << ty.bits) - 1)
        if ty.k in ('double', 'float'):
            if s.startswith('0x'):
                d = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
            else:
                d = float(s)
            return struct.unpack('<Q' if ty.k == 'double' else '<I', struct.pack('<d' if ty.k == 'double' else '<f', d))[0]
        if s.startswith('@') and vm is not None:
            return vm.symaddr(self, s[1:])
        raise Unsupported('scalar ' + s)

    # -- function translation
    def translate(self, fname):
        ret, params, body = self.funcs[fname]
        cx = FnTrans(self, fname, params, body)
        return cx.source(), cx.npar


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{<':
            d += 1
        if ch in ')]}>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class FnTrans:
    def __init__(self, mod, name, params, body):
        self.mod = mod
        self.name = name
        self.vars = {}
        self.params = []
        self.varargs = False
        for p in split_args(params):
            if p == '...':
                self.varargs = True
                continue
            self.params.append(self.v(p.split()[-1]))
        self.npar = len(self.params)
        self.body = body

    def v(self, s):
        if s not in self.vars:
            self.vars[s] = 'v%d' % len(self.vars)
        return self.vars[s]

    def opnd(self, ty, s):
        """operand text -> python expression"""
        s = s.strip()
        s = ATTR.sub('', s).strip()
        if s.startswith('%'):
            return self.v(s)
        if s.startswith('@'):
            return 'R.ga(%r,%r)' % (self.mod.name, s[1:])
        if s.startswith('getelementptr'):
            m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', s)
            return self.gep(m.group(1))
        m = re.match(r'(ptrtoint|inttoptr|bitcast|trunc|zext|sext) \((.*) to (.*)\)$', s)
        if m:
            t, j = tokenize_type(m.group(2), 0, self.mod.named)
            t2, _ = tokenize_type(m.group(3), 0, self.mod.named)
            e = self.opnd(t, m.group(2)[j:])
            return '(%s & %d)' % (e, (1 << t2.bits) - 1)
        return repr(self.mod.scalar(ty, s))

    def typed(self, s):
        t, j = tokenize_type(s, 0, self.mod.named)
        return t, self.opnd(t, s[j:])

    def gep(self, s):
        parts = split_args(s)
        t, _ = tokenize_type(parts[0], 0, self.mod.named)
        _, base = self.typed(parts[1])
        terms = []
        const = 0
        cur = t
        for k, p in enumerate(parts[2:]):
            it, e = self.typed(p)
            if k == 0:
                sz = t.size
            else:
                if cur.k == 'struct':
                    const += cur.offs[int(e)]
                    cur = cur.fields[int(e)]
                    continue
                cur = cur.el
                sz = cur.size
            if re.fullmatch(r'\d+', e):
                c = int(e)
                if c >> (it.bits - 1):
                    c -= 1 << it.bits
                const += c * sz
            elif it.bits == 64:
                terms.append('%s*%d' % (e, sz))
            else:
                terms.append('sx(%s,%d,64)*%d' % (e, it.bits, sz))
        if const:
            terms.append(str(const))
        if not terms:
            return base
        return '((%s+%s) & 0xffffffffffffffff)' % (base, '+'.join(terms))

    def source(self):
        # split into basic blocks
        blocks, order = {}, []
        # implicit entry label
        cur = None
        buf = None
        first = True
        merged = []
        acc = None
        for l in self.body:
            if acc is not None:
                acc += ' ' + l.strip()
                if l.strip() == ']' or l.strip().startswith(']'):
                    merged.append(acc)
                    acc = None
                continue
            if re.match(r'\s+switch .*\[$', l):
                acc = l
                continue
            merged.append(l)
        for l in merged:
            m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if m:
                cur = '%' + m.group(1)
                buf = blocks[cur] = []
                order.append(cur)
                first = False
                continue
            if not l.strip() or l.strip().startswith(';'):
                continue
            if first:
                cur = '%entry0'
                buf = blocks[cur] = []
                order.append(cur)
                first = False
            buf.append(l.strip())
        self.bid = {b: i for i, b in enumerate(order)}
        # unnamed entry block is referred to in phis by number = number of unnamed params
        if order[0] == '%entry0':
            n = sum(1 for p in self.vars if re.fullmatch(r'%\d+', p))
            self.bid['%%%d' % n] = 0
        # phis
        self.phis = {b: [] for b in order}
        for b in order:
            for l in blocks[b]:
                m = re.match(r'(%\S+) = phi (.*)$', l)
                if m:
                    t, j = tokenize_type(m.group(2), 0, self.mod.named)
                    inc = {}
                    for a, p in re.findall(r'\[ ([^\]]*?), (%[^\] ]+) \]', m.group(2)[j:]):
                        inc[self.bid[p]] = self.opnd(t, a)
                    self.phis[b].append((self.v(m.group(1)), inc))
        out = []
        va = ',*VA' if self.varargs else ''
        out.append('def F(R%s%s):' % (''.join(',' + p for p in self.params), va))
        out.append(' fr=R.enter(%r)' % self.name)
        out.append(' bb=0')
        out.append(' if 0: yield')
        out.append(' while 1:')
        out.append('  R.tick()')
        for bi, b in enumerate(order):
            out.append('  %s bb==%d:' % ('if' if bi == 0 else 'elif', bi))
            for l in blocks[b]:
                for s in self.instr(l, bi):
                    out.append('   ' + s)
        return '\n'.join(out) + '\n'

    def jump(self, frm, to):
        """statements for going from block index frm to label to (phi copies)"""
        ti = self.bid[to]
        ph = [(d, inc[frm]) for d, inc in self.phis[to]] if to in self.phis else []
        st = []
        if ph:
            st.append(','.join(d for d, _ in ph) + '=' + ','.join(e for _, e in ph))
        st.append('bb=%d' % ti)
        return ';'.join(st)

    def instr(self, l, bi):
        l = re.sub(r', ![\w.]+ !\d+', '', l)
        l = re.sub(r', align \d+$', '', l)
        l = re.sub(r'\s+;.*$', '', l)
        dst = None
        m = re.match(r'(%("[^"]*"|[\w.$-]+)) = (.*)$', l)
        if m:
            dst = self.v(m.group(1))
            l = m.group(3)
        l = re.sub(r'^(tail|musttail|notail) ', '', l)
        op = l.split()[0]
        rest = l[len(op):].strip()
        named = self.mod.named
        if op == 'phi':
            return []
        if op == 'br':
            m = re.match(r'label (%\S+)$', rest)
            if m:
                return [self.jump(bi, m.group(1))]
            m = re.match(r'i1 (\S+), label (%\S+), label (%\S+)$', rest)
            c = self.opnd(Ty('int', bits=1), m.group(1))
            return ['if R.br(%s): %s' % (c, self.jump(bi, m.group(2))), 'else: %s' % self.jump(bi, m.group(3))]
        if op == 'switch':
            m = re.match(r'(\S+) (\S+), label (%\S+) \[(.*)\]$', rest)
            t, _ = tokenize_type(m.group(1), 0, named)
            out = ['sw=R.conc(%s,%d)' % (self.opnd(t, m.group(2)), t.bits)]
            kw = 'if'
            for c, lab in re.findall(r'i\d+ (-?\d+), label (%[^\s\]]+)', m.group(4)):
                out.append('%s sw==%d: %s' % (kw, int(c) & ((1 << t.bits) - 1), self.jump(bi, lab)))
                kw = 'elif'
            out.append(('else: %s' if kw == 'elif' else 'if 1: %s') % self.jump(bi, m.group(3)))
            return out
        if op == 'ret':
            if rest == 'void':
                return ['R.leave(fr); return 0']
            _, e = self.typed(rest)
            return ['rv=%s; R.leave(fr); return rv' % e]
        if op == 'unreachable':
            return ['R.unreachable(%r)' % self.name]
        if op == 'alloca':
            parts = split_args(rest)
            t, _ = tokenize_type(parts[0], 0, named)
            n = '1'
            for p in parts[1:]:
                if not p.startswith('align'):
                    _, n = self.typed(p)
            return ['%s=R.alloca(%d*%s)' % (dst, t.size, n)]
        if op == 'load':
            vol = 0
            if rest.startswith('atomic '):
                rest = rest[7:]
                vol = 1
            if rest.startswith('volatile '):
                rest = rest[9:]
                vol = 1
            rest = re.sub(r' (unordered|monotonic|acquire|release|seq_cst)$', '', re.sub(r', align \d+$', '', rest))
            a, b = split_args(rest)[:2]
            t, _ = tokenize_type(a, 0, named)
            b = re.sub(r' (unordered|monotonic|acquire|release|seq_cst)$', '', b)
            _, p = self.typed(b)
            if t.k in ('array', 'struct'):
                return ['%s=R.ldagg(%s,%d)' % (dst, p, t.size)]
            if vol:
                return ['%s=yield from R.vld(%s,%d)' % (dst, p, t.size)]
            if t.k == 'int' and t.bits not in (8, 16, 32, 64):
                return ['%s=R.ld(%s,%d) & %d' % (dst, p, t.size, (1 << t.bits) - 1)]
            return ['%s=R.ld(%s,%d)' % (dst, p, t.size)]
        if op == 'store':
            vol = 0
            if rest.startswith('atomic '):
                rest = rest[7:]
                vol = 1
            if rest.startswith('volatile '):
                rest = rest[9:]
                vol = 1
            a, b = split_args(rest)[:2]
            b = re.sub(r' (unordered|monotonic|acquire|release|seq_cst)$', '', b)
            t, e = self.typed(a)
            _, p = self.typed(b)
            if t.k in ('array', 'struct'):
                return ['R.stagg(%s,%d,%s)' % (p, t.size, e)]
            if vol:
                return ['yield from R.vst(%s,%d,%s)' % (p, t.size, e)]
            return ['R.st(%s,%d,%s)' % (p, t.size, e)]
        if op == 'getelementptr':
            rest = re.sub(r'^(inbounds |nuw |nusw )+', '', rest)
            return ['%s=%s' % (dst, self.gep(rest))]
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            rest = re.sub(r'^((nsw|nuw|exact|disjoint) )+', '', rest)
            t, j = tokenize_type(rest, 0, named)
            a, b = split_args(rest[j:])
            a, b = self.opnd(t, a), self.opnd(t, b)
            M = (1 << t.bits) - 1
            if op in ('add', 'sub', 'mul'):
                return ['%s=(%s%s%s)&%d' % (dst, a, {'add': '+', 'sub': '-', 'mul': '*'}[op], b, M)]
            if op in ('and', 'or', 'xor'):
                return ['%s=%s%s%s' % (dst, a, {'and': '&', 'or': '|', 'xor': '^'}[op], b)]
            return ['%s=bop_%s(R,%s,%s,%d)' % (dst, op, a, b, t.bits)]
        if op == 'icmp':
            rest = re.sub(r'^samesign ', '', rest)
            pr = rest.split()[0]
            r2 = rest[len(pr):].strip()
            t, j = tokenize_type(r2, 0, named)
            a, b = split_args(r2[j:])
            return ['%s=cmp_%s(%s,%s,%d)' % (dst, pr, self.opnd(t, a), self.opnd(t, b), t.bits)]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            rest = re.sub(r'^((nneg|nuw|nsw) )+', '', rest)
            m = re.match(r'(.*) to (.*)$', rest)
            t, e = self.typed(m.group(1))
            t2, _ = tokenize_type(m.group(2), 0, named)
            if op == 'sext':
                return ['%s=sx(%s,%d,%d)' % (dst, e, t.bits, t2.bits)]
            if op == 'zext' or (op in ('ptrtoint', 'inttoptr') and t2.bits > t.bits):
                return ['%s=zx(%s,%d,%d)' % (dst, e, t.bits, t2.bits)]
            if t2.bits < t.bits:
                return ['%s=tr(%s,%d,%d)' % (dst, e, t.bits, t2.bits)]
            return ['%s=%s' % (dst, e)]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            rest = re.sub(r'^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+', '', rest)
            t, j = tokenize_type(rest, 0, named)
            a, b = split_args(rest[j:])
            return ['%s=fop(%r,%s,%s,%d)' % (dst, op, self.opnd(t, a), self.opnd(t, b), t.bits)]
        if op == 'fneg':
            t, e = self.typed(rest)
            return ['%s=%s^%d' % (dst, e, 1 << (t.bits - 1))]
        if op in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            m = re.match(r'(.*) to (.*)$', rest)
            t, e = self.typed(m.group(1))
            t2, _ = tokenize_type(m.group(2), 0, named)
            return ['%s=fcv(%r,%s,%d,%d)' % (dst, op, e, t.bits, t2.bits)]
        if op == 'fcmp':
            pr = rest.split()[0]
            r2 = rest[len(pr):].strip()
            t, j = tokenize_type(r2, 0, named)
            a, b = split_args(r2[j:])
            return ['%s=fcmp(%r,%s,%s,%d)' % (dst, pr, self.opnd(t, a), self.opnd(t, b), t.bits)]
        if op == 'select':
            c, a, b = split_args(rest)
            _, c = self.typed(c)
            t, a = self.typed(a)
            _, b = self.typed(b)
            return ['%s=R.sel(%s,%s,%s,%d)' % (dst, c, a, b, t.bits)]
        if op == 'freeze':
            _, e = self.typed(rest)
            return ['%s=%s' % (dst, e)]
        if op == 'fence':
            return ['pass']
        if op == 'call':
            rest = re.sub(r'^((fastcc|coldcc|ccc|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+', '', rest)
            rest = ATTR.sub('', rest)
            m = re.match(r'(.*?)\s*(@"?[\w.$]+"?|%[\w.$-]+)\((.*)\)([^()]*)$', rest)
            if not m:
                raise Unsupported('call ' + rest)
            fn = m.group(2)
            args = []
            for a in split_args(m.group(3)):
                if a.startswith('metadata'):
                    args.append('0')
                    continue
                args.append(self.typed(a)[1])
            d = dst or '_'
            if fn.startswith('%'):
                return ['%s=yield from R.icall(%s%s)' % (d, self.v(fn), ''.join(',' + a for a in args))]
            fn = fn[1:].strip('"')
            if fn.startswith('llvm.dbg') or fn.startswith('llvm.lifetime') or fn.startswith('llvm.assume'):
                return ['pass']
            return ['%s=yield from R.call(%r,%r%s)' % (d, self.mod.name, fn, ''.join(',' + a for a in args))]
        if op == 'atomicrmw':
            m = re.match(r'(?:volatile )?(\w+) (.*)$', rest)
            a, b = split_args(m.group(2))[:2]
            _, p = self.typed(a)
            b = re.sub(r' (unordered|monotonic|acquire|release|acq_rel|seq_cst)$', '', b)
            t, e = self.typed(b)
            return ['%s=yield from R.rmw(%r,%s,%d,%s)' % (dst, m.group(1), p, t.size, e)]
        if op == 'extractvalue':
            parts = split_args(rest)
            t, e = self.typed(parts[0])
            off = 0
            for k in parts[1:]:
                if t.k == 'struct':
                    off += t.offs[int(k)]
                    t = t.fields[int(k)]
                else:
                    off += int(k) * t.el.size
                    t = t.el
            return ['%s=R.xagg(%s,%d,%d)' % (dst, e, off, t.size)]
        raise Unsupported('instruction ' + l)
