"""WebAssembly semantics of a code fragment in the term language of absint.py, path by path.

Written from the WebAssembly core specification and include/pwart.h (frame layout, call convention), not
from the translator.
"""
from .absint import *
from .absint import fields, lowbit
from .gen import I32, I64, F32, F64, FUNC, REF, layout, tsize
from .lir import zext, trunc, sext, mand, shiftop, fsort

IBIN = ['add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'rotl', 'rotr']
ICMP = ['eq', 'ne', 'slt', 'ult', 'sgt', 'ugt', 'sle', 'ule', 'sge', 'uge']
FCMP = ['oeq', 'une', 'olt', 'ogt', 'ole', 'oge']
FUN = ['abs', 'neg', 'ceil', 'floor', 'trunc', 'rint', 'sqrt']
LOADS = {  # opcode: (result bits, memory bits, signed, type)
    0x28: (32, 32, 0, I32), 0x29: (64, 64, 0, I64), 0x2a: (32, 32, 0, F32), 0x2b: (64, 64, 0, F64),
    0x2c: (32, 8, 1, I32), 0x2d: (32, 8, 0, I32), 0x2e: (32, 16, 1, I32), 0x2f: (32, 16, 0, I32),
    0x30: (64, 8, 1, I64), 0x31: (64, 8, 0, I64), 0x32: (64, 16, 1, I64), 0x33: (64, 16, 0, I64), 0x34: (64, 32, 1, I64), 0x35: (64, 32, 0, I64)}
STORES = {0x36: 32, 0x37: 64, 0x38: 32, 0x39: 64, 0x3a: 8, 0x3b: 16, 0x3c: 8, 0x3d: 16, 0x3e: 32}
NAMES = {}
for k, n in enumerate("unreachable nop block loop if else".split()): NAMES[k] = n
NAMES.update({0xb: 'end', 0xc: 'br', 0xd: 'br_if', 0xe: 'br_table', 0xf: 'return', 0x10: 'call', 0x11: 'call_indirect', 0x12: 'return_call', 0x13: 'return_call_indirect',
              0x1a: 'drop', 0x1b: 'select', 0x1c: 'select t', 0x20: 'local.get', 0x21: 'local.set', 0x22: 'local.tee', 0x23: 'global.get', 0x24: 'global.set', 0x25: 'table.get', 0x26: 'table.set',
              0x3f: 'memory.size', 0x40: 'memory.grow', 0x41: 'i32.const', 0x42: 'i64.const', 0x43: 'f32.const', 0x44: 'f64.const', 0xd0: 'ref.null', 0xd1: 'ref.is_null', 0xd2: 'ref.func'})
for k, n in enumerate("i32.load i64.load f32.load f64.load i32.load8_s i32.load8_u i32.load16_s i32.load16_u i64.load8_s i64.load8_u i64.load16_s i64.load16_u i64.load32_s i64.load32_u i32.store i64.store f32.store f64.store i32.store8 i32.store16 i64.store8 i64.store16 i64.store32".split()): NAMES[0x28 + k] = n
_icn = "eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u".split()
for b, t in ((0x45, 'i32'), (0x50, 'i64')):
    NAMES[b] = t + '.eqz'
    for k, n in enumerate(_icn): NAMES[b + 1 + k] = t + '.' + n
for b, t in ((0x5b, 'f32'), (0x61, 'f64')):
    for k, n in enumerate("eq ne lt gt le ge".split()): NAMES[b + k] = t + '.' + n
for b, t in ((0x67, 'i32'), (0x79, 'i64')):
    for k, n in enumerate("clz ctz popcnt add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr".split()): NAMES[b + k] = t + '.' + n
for b, t in ((0x8b, 'f32'), (0x99, 'f64')):
    for k, n in enumerate("abs neg ceil floor trunc nearest sqrt add sub mul div min max copysign".split()): NAMES[b + k] = t + '.' + n
for k, n in enumerate("i32.wrap_i64 i32.trunc_f32_s i32.trunc_f32_u i32.trunc_f64_s i32.trunc_f64_u i64.extend_i32_s i64.extend_i32_u i64.trunc_f32_s i64.trunc_f32_u i64.trunc_f64_s i64.trunc_f64_u f32.convert_i32_s f32.convert_i32_u f32.convert_i64_s f32.convert_i64_u f32.demote_f64 f64.convert_i32_s f64.convert_i32_u f64.convert_i64_s f64.convert_i64_u f64.promote_f32 i32.reinterpret_f32 i64.reinterpret_f64 f32.reinterpret_i32 f64.reinterpret_i64 i32.extend8_s i32.extend16_s i64.extend8_s i64.extend16_s i64.extend32_s".split()): NAMES[0xa7 + k] = n
SUBN = {0: 'i32.trunc_sat_f32_s', 1: 'i32.trunc_sat_f32_u', 2: 'i32.trunc_sat_f64_s', 3: 'i32.trunc_sat_f64_u', 4: 'i64.trunc_sat_f32_s', 5: 'i64.trunc_sat_f32_u', 6: 'i64.trunc_sat_f64_s', 7: 'i64.trunc_sat_f64_u',
        8: 'memory.init', 9: 'data.drop', 10: 'memory.copy', 11: 'memory.fill', 12: 'table.init', 13: 'elem.drop', 14: 'table.copy', 15: 'table.grow', 16: 'table.size', 17: 'table.fill'}


def tbits(t): return 32 if t in (I32, F32) else 64


# sub-opcode table of conversions: op -> (kind, out type, out bits, in bits)
CONV = {0xa7: ('wrap', I32), 0xa8: ('fptosi', I32, 32), 0xa9: ('fptoui', I32, 32), 0xaa: ('fptosi', I32, 64), 0xab: ('fptoui', I32, 64),
        0xac: ('sext', I64, 32), 0xad: ('zext', I64, 32), 0xae: ('fptosi', I64, 32), 0xaf: ('fptoui', I64, 32), 0xb0: ('fptosi', I64, 64), 0xb1: ('fptoui', I64, 64),
        0xb2: ('sitofp', F32, 32), 0xb3: ('uitofp', F32, 32), 0xb4: ('sitofp', F32, 64), 0xb5: ('uitofp', F32, 64), 0xb6: ('fptrunc', F32, 64),
        0xb7: ('sitofp', F64, 32), 0xb8: ('uitofp', F64, 32), 0xb9: ('sitofp', F64, 64), 0xba: ('uitofp', F64, 64), 0xbb: ('fpext', F64, 32),
        0xbc: ('re', I32), 0xbd: ('re', I64), 0xbe: ('re', F32), 0xbf: ('re', F64),
        0xc0: ('ext', I32, 8), 0xc1: ('ext', I32, 16), 0xc2: ('ext', I64, 8), 0xc3: ('ext', I64, 16), 0xc4: ('ext', I64, 32)}


class SpecError(Exception):
    """the fragment itself is not valid"""


class Ctl:
    __slots__ = ('kind', 'height', 'nlabel', 'nres', 'start', 'end', 'els')

    def __init__(self, kind, height, nlabel, nres, start, end, els=None):
        self.kind = kind; self.height = height; self.nlabel = nlabel; self.nres = nres; self.start = start; self.end = end; self.els = els


class Spec:
    def copy(self):
        s = Spec.__new__(Spec)
        s.__dict__.update(self.__dict__)
        s.stack = list(self.stack); s.locals = list(self.locals); s.ctl = list(self.ctl)
        s.eff = list(self.eff); s.glob = dict(self.glob); s.marks = list(self.marks); s.conds = list(self.conds)
        return s

    def __init__(self, env, code):
        self.env = env
        self.code = code
        self.pc = 0
        self.stack = []
        po, _ = layout(env.params, env.align)
        self.locals = [('s', tbits(t), ('m', ('FP',), o)) for t, o in zip(env.params, po)]
        if env.pvals:
            self.locals = [v if p is None else p for v, p in zip(self.locals, env.pvals)]
        zero = env.misc & 2
        for k, t in enumerate(env.locals):
            self.locals.append(0 if zero else ('s', tbits(t), ('uninit-local', k)))
        self.ltypes = env.params + env.locals
        self.glob = {}
        self.gver = 0
        self.mver = 0
        self.ncall = 0
        self.eff = []
        self.marks = []
        self.conds = []
        self.end = None
        self.ctl = [Ctl('func', 0, len(env.results), len(env.results), 0, len(code), None)]
        self.match = blocks(code)
        self.pending = None
        self.k = 0; self.lastop = None; self.cur = 0; self.effchk = (0, 0)

    # ---- immediates ----
    def imm(self):
        s = self.code[self.pc]
        self.pc += 1
        if s[0] == 'imm': return s[1]
        if s[0] == 'b': return s[1] & 0x7f if s[1] < 0x80 else s[1]
        if s[0] == 'op': return s[1]
        raise SpecError("imm")

    def raw(self, n):
        v = self.code[self.pc][1]
        self.pc += n
        return v

    def push(self, t, v): self.stack.append((t, v))

    def pop(self):
        if not self.stack: raise SpecError("underflow")
        return self.stack.pop()[1]

    def ea(self, off, idx):
        return mkbin('add', 64, zext(idx), trunc64(off))

    def memarg(self):
        al = self.imm()
        k = 0
        if isinstance(al, int) and al & 0x40: k = self.imm()
        off = self.imm()
        return k, off

    def mregion(self, k):
        return ('N',) if self.env.memories[k] == 'raw' else ('M', k)

    def gget(self, k):
        t = self.env.globals[k]
        v = self.glob.get(k)
        return v if v is not None else ('s', tbits(t), ('glob', k, self.gver))

    def world(self):
        self.gver += 1; self.mver += 1; self.glob = {}

    def br(self, n):
        if n >= len(self.ctl): raise SpecError("label")
        c = self.ctl[-1 - n]
        if c.kind == 'func':
            self.end = ('return', self.stack[-len(self.env.results):] if self.env.results else [])
            return
        vals = self.stack[len(self.stack) - c.nlabel:] if c.nlabel else []
        del self.stack[c.height:]
        self.stack += vals
        if c.kind == 'loop':
            del self.ctl[len(self.ctl) - n:]
            self.pc = c.start
        else:
            del self.ctl[len(self.ctl) - 1 - n:]
            self.pc = c.end

    def call(self, ti, tgt, tail=False):
        P, R = self.env.types[ti]
        args = self.stack[len(self.stack) - len(P):] if P else []
        del self.stack[len(self.stack) - len(P):]
        self.eff.append(('call', tgt, tuple(v for _, v in args), tuple(P), tuple(sorted(self.glob.items())), self.gver, tail))
        if tail:
            self.end = ('tailcall',)
            return
        self.ncall += 1
        self.world()
        ro, _ = layout(R, self.env.align)
        for t, o in zip(R, ro):
            self.push(t, ('s', tbits(t), ('ret', self.ncall, o)))

    def tabent(self, k, idx):
        return ('ld', 64, ('T', k), mkbin('mul', 64, 8, zext(idx)), len(self.eff))

    # ---- one instruction; returns None, or (cond, then-closure) for a two-way split ----
    def step(self):
        code = self.code
        if self.pc >= len(code): raise SpecError("end of code")
        pc = self.pc
        op = code[pc][1]
        self.marks.append((pc, op, tuple(self.stack), tuple(self.locals), len(self.eff), dict(self.glob), self.gver))
        self.pc += 1
        push, pop = self.push, self.pop
        if op == 0x00: self.end = ('trap',)
        elif op == 0x01: pass
        elif op in (0x02, 0x03, 0x04):
            bt = self.imm()
            P, R = btype(self.env, bt)
            cond = pop() if op == 4 else None
            els, end = self.match[pc]
            c = Ctl({2: 'block', 3: 'loop', 4: 'if'}[op], len(self.stack) - len(P), len(P) if op == 3 else len(R), len(R), self.pc, end + 1, els)
            if op != 4:
                self.ctl.append(c)
                return

            def then(s, tr):
                if tr: s.ctl.append(c)
                elif els is not None:
                    s.ctl.append(c)
                    s.pc = els + 1
                else: s.pc = end + 1
            return mkicmp('ne', 32, cond, 0), then
        elif op == 0x05:
            c = self.ctl.pop()
            self.pc = c.end
        elif op == 0x0b:
            c = self.ctl.pop()
            if c.kind == 'func':
                self.end = ('return', self.stack[len(self.stack) - len(self.env.results):] if self.env.results else [])
        elif op == 0x0c: self.br(self.imm())
        elif op == 0x0d:
            n = self.imm()

            def then(s, tr):
                if tr: s.br(n)
            return mkicmp('ne', 32, pop(), 0), then
        elif op == 0x0e:
            cnt = self.imm()
            tg = [self.imm() for _ in range(cnt + 1)]
            idx = pop()
            return self.brtable(idx, tg, 0)
        elif op == 0x0f:
            self.end = ('return', self.stack[len(self.stack) - len(self.env.results):] if self.env.results else [])
        elif op in (0x10, 0x12):
            f = self.imm()
            ti, stub = self.env.funcs[f - 1] if f else (0, None)
            if stub:
                self.stub(stub)
                if op == 0x12: self.end = ('return', self.stack[len(self.stack) - len(self.env.results):])
                return
            self.call(ti, ('s', 64, ('fe', 8 * f)), op == 0x12)
        elif op in (0x11, 0x13):
            ti = self.imm()
            tb = self.imm()
            self.call(ti, self.tabent(tb, pop()), op == 0x13)
        elif op == 0x1a: pop()
        elif op in (0x1b, 0x1c):
            if op == 0x1c:
                for _ in range(self.imm()): self.imm()
            c = pop()
            b = self.stack.pop(); a = self.stack.pop()

            def then(s, tr): s.stack.append(a if tr else b)
            return mkicmp('ne', 32, c, 0), then
        elif op == 0x20:
            n = self.imm(); push(self.ltypes[n], self.locals[n])
        elif op in (0x21, 0x22):
            n = self.imm()
            v = self.stack[-1][1]
            self.locals[n] = v
            if op == 0x21: self.stack.pop()
        elif op == 0x23:
            n = self.imm(); push(self.env.globals[n], self.gget(n))
        elif op == 0x24:
            n = self.imm(); self.glob[n] = pop()
        elif op == 0x25:
            k = self.imm(); push(REF, self.tabent(k, pop()))
        elif op == 0x26:
            k = self.imm(); v = pop(); i = pop()
            self.eff.append(('st', 64, ('T', k), mkbin('mul', 64, 8, zext(i)), v))
        elif op in LOADS:
            rb, mb, sg, t = LOADS[op]
            k, off = self.memarg()
            v = ('ld', mb, self.mregion(k), self.ea(off, pop()), len(self.eff))
            if mb < rb: v = (sext if sg else zext)(v, mb, rb)
            push(t, v)
        elif op in STORES:
            k, off = self.memarg()
            v = pop(); i = pop()
            mb = STORES[op]
            fb = 64 if op in (0x37, 0x39, 0x3c, 0x3d, 0x3e) else 32
            self.eff.append(('st', mb, self.mregion(k), self.ea(off, i), trunc(v, fb, mb) if mb < fb else v))
        elif op == 0x3f:
            k = self.imm(); push(I32, ('s', 32, ('pages', k, self.mver)))
        elif op == 0x40:
            k = self.imm()
            d = pop()
            self.eff.append(('grow', k, d))
            self.mver += 1
            push(I32, ('s', 32, ('growres', len(self.eff))))
        elif op == 0x41: push(I32, trunc(self.imm(), 64, 32))
        elif op == 0x42: push(I64, self.imm())
        elif op == 0x43: push(F32, self.raw(4))
        elif op == 0x44: push(F64, self.raw(8))
        elif op in (0x45, 0x50):
            push(I32, zext(mkicmp('eq', 32 if op == 0x45 else 64, pop(), 0), 1, 32))
        elif 0x46 <= op <= 0x4f or 0x51 <= op <= 0x5a:
            b = pop(); a = pop()
            w, k = (32, op - 0x46) if op < 0x50 else (64, op - 0x51)
            push(I32, zext(mkicmp(ICMP[k], w, a, b), 1, 32))
        elif 0x5b <= op <= 0x66:
            b = pop(); a = pop()
            w, k = (32, op - 0x5b) if op < 0x61 else (64, op - 0x61)
            push(I32, zext(fcmpn(FCMP[k], w, a, b), 1, 32))
        elif op in (0x67, 0x68, 0x69, 0x79, 0x7a, 0x7b):
            w, t = (32, I32) if op < 0x79 else (64, I64)
            push(t, bitcount((op - 0x67) % 18, w, pop()))
        elif 0x6a <= op <= 0x78 or 0x7c <= op <= 0x8a:
            b = pop(); a = pop()
            w, t, k = (32, I32, op - 0x6a) if op < 0x79 else (64, I64, op - 0x7c)
            n = IBIN[k]
            if n in ('shl', 'lshr', 'ashr', 'rotl', 'rotr'): push(t, shiftop(n, w, a, mand(w, w - 1, b)))
            elif n == 'and': push(t, mand(w, a, b))
            else: push(t, mkbin(n, w, a, b))
        elif 0x8b <= op <= 0x91 or 0x99 <= op <= 0x9f:
            w, t, k = (32, F32, op - 0x8b) if op < 0x99 else (64, F64, op - 0x99)
            x = pop()
            n = FUN[k]
            push(t, ('fabs', w, x) if n == 'abs' else ('fneg', w, x) if n == 'neg' else ('fcall', w, n, x))
        elif 0x92 <= op <= 0x98 or 0xa0 <= op <= 0xa6:
            w, t, k = (32, F32, op - 0x92) if op < 0x99 else (64, F64, op - 0xa0)
            b = pop(); a = pop()
            n = ['fadd', 'fsub', 'fmul', 'fdiv', 'fmin', 'fmax', 'copysign'][k]
            push(t, fsort(n, w, a, b))
        elif op in CONV:
            c = CONV[op]
            x = pop()
            t = c[1]
            w = tbits(t)
            if c[0] == 'wrap': v = trunc(x, 64, 32)
            elif c[0] == 're': v = x
            elif c[0] == 'ext': v = sext(trunc(x, w, c[2]), c[2], w)
            elif c[0] == 'sext': v = sext(x, 32, 64)
            elif c[0] == 'zext': v = zext(x, 32, 64)
            elif c[0] in ('fpext', 'fptrunc'): v = (c[0], w, x)
            else: v = (c[0], w, x, c[2])
            push(t, v)
        elif op == 0xd0:
            self.imm(); push(REF, 0)
        elif op == 0xd1: push(I32, zext(mkicmp('eq', 64, pop(), 0), 1, 32))
        elif op == 0xd2:
            f = self.imm(); push(FUNC, ('s', 64, ('fe', 8 * f)))
        elif op == 0xfc:
            sub = self.imm()
            if sub <= 7:
                t = I32 if sub < 4 else I64
                push(t, ('satui' if sub & 1 else 'satsi', tbits(t), pop(), 64 if sub & 2 else 32))
            elif sub == 10:
                dk = self.imm(); sk = self.imm()
                n = pop(); s = pop(); d = pop()
                self.copyeff(self.mregion(dk), zext(d), self.mregion(sk), zext(s), self.count(n))
            elif sub == 11:
                k = self.imm()
                n = pop(); v = pop(); d = pop()
                self.eff.append(('fill', self.mregion(k), zext(d), v, self.count(n)))
            elif sub == 14:
                dk = self.imm(); sk = self.imm()
                n = pop(); s = pop(); d = pop()
                self.copyeff(('T', dk), mkbin('mul', 64, 8, zext(d)), ('T', sk), mkbin('mul', 64, 8, zext(s)), zext(mkbin('mul', 32, 8, n)))   # tables have fewer than 2^29 entries
            elif sub == 15:
                self.imm(); pop(); pop()
                push(I32, mask(32))     # a table never grows here, which a host may decide
            elif sub == 16:
                k = self.imm(); push(I32, ('s', 32, ('tsize', k)))
            elif sub == 17:
                k = self.imm()
                n = pop(); v = pop(); i = pop()
                if not isinstance(n, int):
                    self.eff.append(('tfill', ('T', k), mkbin('mul', 64, 8, zext(i)), v, self.count(n)))
                    return None
                for j in range(n):
                    self.eff.append(('st', 64, ('T', k), mkbin('add', 64, mkbin('mul', 64, 8, zext(i)), 8 * j), v))
            else: raise SpecError("0xfc %d" % sub)
        else:
            raise SpecError("opcode %#x" % op)
        return None

    def count(self, n):
        # documented limit: counts of memory.copy/fill are 32 bits wide also for 64-bit memories
        return zext(n if bitsof_(n) == 32 else mkcast('trunc', 64, 32, n)) if not isinstance(n, int) else n & 0xffffffff

    def copyeff(self, dr, d, sr, s, n):
        self.eff.append(('copy', dr, d, sr, s, n))

    def stub(self, stub):
        if stub == 'get_self_runtime_context': self.push(REF, ('p', ('RC',), 0))
        elif stub == 'ref_from_index':
            i = self.pop(); k = self.pop()
            if not isinstance(k, int): raise SpecError("ref_from_index: the memory index is not a constant")
            r = self.mregion(k)
            self.push(REF, self.ea(0, i) if r == ('N',) else ('p', ('MB', k, self.mver if self.env.memories[k] == 'grow' else 0), self.ea(0, i)))
        elif stub in ('ref_from_i64',): self.push(REF, self.pop())
        elif stub == 'i64_from_ref': self.push(I64, self.pop())
        else: raise SpecError("stub")

    def brtable(self, idx, tg, k):
        if k == len(tg) - 1:
            self.br(tg[k])
            return None

        def then(s, tr):
            if tr:
                s.br(tg[k])
                return None
            return s.brtable(idx, tg, k + 1)
        return mkicmp('eq', 32, idx, k), then


def trunc64(off):
    if isinstance(off, int): return off & 0xffffffff
    return off


def bitcount(k, w, x):
    """clz / ctz / popcnt, exact on the value classes of classes.py"""
    if isinstance(x, int):
        return w - x.bit_length() if k == 0 else (w if x == 0 else lowbit(x).bit_length() - 1) if k == 1 else bin(x).count('1')
    if k == 0:
        lo, hi = urange(x)
        if lo.bit_length() == hi.bit_length(): return w - lo.bit_length()
    if k == 1 and x[0] == 'lin' and x[2] and all(lowbit(c) > lowbit(x[2]) for _, c in x[3]): return lowbit(x[2]).bit_length() - 1
    if k == 2:
        fs = fields(x, w)
        if fs and len(set(e for e, _, _ in fs)) == len(fs) and all(hi == 1 for _, _, hi in fs):
            return mklin(w, 0, [(t, 1) for _, t, _ in fs])
    return (['clz', 'ctz', 'popcnt'][k], w, x)


def fcmpn(pred, w, a, b):
    kind, rel = pred[0], pred[1:]
    if rel in ('gt', 'ge'):
        a, b, rel = b, a, {'gt': 'lt', 'ge': 'le'}[rel]
    elif rel in ('eq', 'ne') and repr(b) < repr(a): a, b = b, a
    return ('fcmp', 1, kind + rel, w, a, b)


def btype(env, bt):
    if bt == 0x40: return [], []
    if bt in (I32, I64, F32, F64, FUNC, REF): return [], [bt]
    return env.types[bt]


def iplen(code, pc):
    """number of code slots of the instruction at pc"""
    op = code[pc][1]
    v = lambda k: code[pc + k][1]
    if op in (2, 3, 4, 0xc, 0xd, 0x10, 0x12, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x3f, 0x40, 0x41, 0x42, 0xd0, 0xd2): return 2
    if op == 0xe: return 3 + v(1)
    if op in (0x11, 0x13): return 3
    if op == 0x1c: return 2 + v(1)
    if op in LOADS or op in STORES: return 4 if isinstance(v(1), int) and v(1) & 0x40 else 3
    if op == 0x43: return 5
    if op == 0x44: return 9
    if op == 0xfc:
        s = v(1)
        return 2 if s <= 7 else {8: 4, 9: 3, 10: 4, 11: 3, 12: 4, 13: 3, 14: 4, 15: 3, 16: 3, 17: 3}[s]
    return 1


def blocks(code):
    """pc of block/loop/if -> (else pc, end pc)"""
    out = {}
    st = []
    pc = 0
    while pc < len(code):
        op = code[pc][1]
        if op in (2, 3, 4): st.append([pc, None])
        elif op == 5: st[-1][1] = pc
        elif op == 0xb and st:
            p, e = st.pop()
            out[p] = (e, pc)
        pc += iplen(code, pc)
    return out


def bitsof_(t): return bitsof(t)
