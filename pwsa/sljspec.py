"""Meaning of the sljit LIR operations as sljitLir.h describes them, over the terms of absint.py.

An operation is a tuple (kind, name, ...); operands are ('r', n) integer register, ('f', n) floating point register, ('i', value),
('m0', address), ('m1', base register, offset), ('m2', base register, index register, shift), ('pair', n, n)."""
from .absint import mkbin, mkicmp, mknot, mask, sgn, aspair, Broken
from .x86 import T, Z, S, sel, b_or, b_and, b_xor, not1, mulov, fold, hi32, cat32, _cnt, _rot

SZ = {'MOV': 64, 'MOV_P': 64, 'MOV_U8': 8, 'MOV32_U8': 8, 'MOV_S8': 8, 'MOV32_S8': 8, 'MOV_U16': 16, 'MOV32_U16': 16, 'MOV_S16': 16, 'MOV32_S16': 16,
      'MOV_U32': 32, 'MOV_S32': 32, 'MOV32': 32, 'REV_U16': 16, 'REV32_U16': 16, 'REV_S16': 16, 'REV32_S16': 16, 'REV_U32': 32, 'REV_S32': 32}

NEGATED = {'NOT_EQUAL': 'EQUAL', 'GREATER_EQUAL': 'LESS', 'LESS_EQUAL': 'GREATER', 'SIG_GREATER_EQUAL': 'SIG_LESS', 'SIG_LESS_EQUAL': 'SIG_GREATER',
           'NOT_OVERFLOW': 'OVERFLOW', 'NOT_CARRY': 'CARRY', 'ATOMIC_NOT_STORED': 'ATOMIC_STORED'}
# float conditions -> predicate; 'p..' has no meaning for unordered operands
FP = {'F_EQUAL': 'peq', 'F_NOT_EQUAL': 'pne', 'F_LESS': 'plt', 'F_GREATER_EQUAL': 'pge', 'F_GREATER': 'pgt', 'F_LESS_EQUAL': 'ple', 'UNORDERED': 'uno', 'ORDERED': 'ord',
      'ORDERED_EQUAL': 'oeq', 'UNORDERED_OR_NOT_EQUAL': 'une', 'ORDERED_LESS': 'olt', 'UNORDERED_OR_GREATER_EQUAL': 'uge', 'ORDERED_GREATER': 'ogt', 'UNORDERED_OR_LESS_EQUAL': 'ule',
      'UNORDERED_OR_EQUAL': 'ueq', 'ORDERED_NOT_EQUAL': 'one', 'UNORDERED_OR_LESS': 'ult', 'ORDERED_GREATER_EQUAL': 'oge', 'UNORDERED_OR_GREATER': 'ugt', 'ORDERED_LESS_EQUAL': 'ole'}
FSET = {'F_EQUAL': 'F_EQUAL', 'F_NOT_EQUAL': 'F_EQUAL', 'F_LESS': 'F_LESS', 'F_GREATER_EQUAL': 'F_LESS', 'F_GREATER': 'F_GREATER', 'F_LESS_EQUAL': 'F_GREATER', 'UNORDERED': 'UNORDERED', 'ORDERED': 'UNORDERED',
        'ORDERED_EQUAL': 'ORDERED_EQUAL', 'UNORDERED_OR_NOT_EQUAL': 'ORDERED_EQUAL', 'ORDERED_LESS': 'ORDERED_LESS', 'UNORDERED_OR_GREATER_EQUAL': 'ORDERED_LESS',
        'ORDERED_GREATER': 'ORDERED_GREATER', 'UNORDERED_OR_LESS_EQUAL': 'ORDERED_GREATER', 'UNORDERED_OR_EQUAL': 'UNORDERED_OR_EQUAL', 'ORDERED_NOT_EQUAL': 'UNORDERED_OR_EQUAL',
        'UNORDERED_OR_LESS': 'UNORDERED_OR_LESS', 'ORDERED_GREATER_EQUAL': 'UNORDERED_OR_LESS', 'UNORDERED_OR_GREATER': 'UNORDERED_OR_GREATER', 'ORDERED_LESS_EQUAL': 'UNORDERED_OR_GREATER'}
ICOND = ['EQUAL', 'NOT_EQUAL', 'LESS', 'GREATER_EQUAL', 'GREATER', 'LESS_EQUAL', 'SIG_LESS', 'SIG_GREATER_EQUAL', 'SIG_GREATER', 'SIG_LESS_EQUAL', 'OVERFLOW', 'NOT_OVERFLOW', 'CARRY', 'NOT_CARRY']
IPRED = {'LESS': 'ult', 'GREATER': 'ugt', 'SIG_LESS': 'slt', 'SIG_GREATER': 'sgt'}


def setof(cond):
    """the flag an operation has to set for a condition"""
    if cond in FSET: return FSET[cond]
    c = NEGATED.get(cond, cond)
    return 'Z' if c == 'EQUAL' else c


class Lir:
    def __init__(self, st, sp):
        self.st = st
        self.r = {}
        self.f = {}
        self.sp = sp
        self.z = self.c = None
        self.flags = {}        # condition name -> term
        self.low = set()       # registers of which only the low 32 bits are defined
        self.flow = set()
        self.nanfree = set()   # float registers / cells whose NaN payload is not defined
        self.log = []
        self.need = []         # conditions that must hold for the operation to be defined
        self.clob = set()
        self.msk = {}          # memory cells that hold a float result

    def addr(self, o):
        if o[0] == 'm0': return o[1] & mask(64)
        if o[0] == 'm1': return mkbin('add', 64, self.r[o[1]], o[2] & mask(64))
        x = self.r[o[2]]
        return mkbin('add', 64, self.r[o[1]], mkbin('shl', 64, x, o[3] & 3) if o[3] & 3 else x)

    def src(self, o, w):
        if o[0] == 'r': return T(self.r[o[1]], w)
        if o[0] == 'i': return o[1] & mask(w)
        if o[0] == 'f':
            if w == 32: self.flow.add(o[1])      # a register used by a 32 bit operation holds a 32 bit value
            return T(self.f[o[1]], w)
        return self.load(self.addr(o), w)

    def load(self, a, w):
        b, off = aspair(a)
        self.log.append(('r', b, off, w // 8))
        return self.st.get(b, off, w // 8)

    def store(self, a, w, v, nan=False):
        b, off = aspair(a)
        self.log.append(('w', b, off, w // 8))
        self.st.put(b, off, w // 8, v)
        self.msk[(b, off, w // 8)] = nan

    def dst(self, o, w, v, low=False):
        """w: width of the value; low: a 32 bit operation on a register"""
        if o[0] == 'r':
            self.r[o[1]] = Z(v, w, 64)
            (self.low.add if low else self.low.discard)(o[1])
        else: self.store(self.addr(o), w, v)

    def fdst(self, o, w, v, nan):
        if o[0] == 'f':
            old = self.f[o[1]]
            self.f[o[1]] = v if w == 64 else cat32(v, hi32(old))
            (self.flow.add if w == 32 else self.flow.discard)(o[1])
            (self.nanfree.add if nan else self.nanfree.discard)(o[1])
        else: self.store(self.addr(o), w, v, nan)

    def cond(self, t):
        n = NEGATED.get(t)
        if n: return not1(self.cond(n))
        if t in FP:
            k = self.flags.get('fcmp')
            if k is None or k[0] != FSET[t]: raise Broken("flag %s is not set" % t)
            return ('fcmp', 1, FP[t], k[1], k[2], k[3])
        v = self.flags.get('Z' if t == 'EQUAL' else t)
        if v is None: raise Broken("flag %s is not set" % t)
        return v

    # ---- operations ------------------------------------------------------------------------------
    def run(self, ops):
        for o in ops: getattr(self, 'o_' + o[0])(*o[1:])
        return self

    def o_op0(self, op):
        a, b = self.r[1], self.r[2]
        if op in ('NOP', 'MEMORY_BARRIER', 'ENDBR'): return
        w = 32 if op.endswith('32') else 64
        self.flags = {}
        a, b = T(a, w), T(b, w)
        if op.startswith('LMUL'):
            self.r[1] = mkbin('mul', 64, a, b)
            self.r[2] = fold('mulhu' if op.endswith('UW') else 'mulhs', 64, a, b)
            return
        s = 's' if '_S' in op else 'u'
        self.dst(('r', 1), w, mkbin(s + 'div', w, a, b), w == 32)
        if 'MOD' in op: self.dst(('r', 2), w, mkbin(s + 'rem', w, a, b), w == 32)

    def o_op1(self, op, dst, src):
        n = SZ.get(op)
        if op.startswith('MOV'):
            v = self.src(src, n)
            if dst[0] != 'r': return self.dst(dst, n, v)
            t = 32 if op.startswith('MOV32') else 64
            v = (S if '_S' in op else Z)(v, n, t) if t != n else v
            return self.dst(dst, t, v, t == 32)
        self.flags = {}
        w = 32 if '32' in op and n is None or op.startswith('REV32_') else 64
        if op.startswith('REV'):
            if n is None:
                return self.dst(dst, w, fold('bswap', w, self.src(src, w)), w == 32)
            v = self.src(src, n)
            v = fold('bswap', n, v)
            if dst[0] != 'r': return self.dst(dst, n, v)
            return self.dst(dst, w, (S if '_S' in op else Z)(v, n, w), w == 32)
        self.dst(dst, w, _cnt('clz' if op.startswith('CLZ') else 'ctz', w, self.src(src, w)), w == 32)

    def arith(self, op, flags, a, b, w):
        """-> result; sets the flags"""
        base = op[:-2] if op.endswith('32') else op
        fl = {}
        if base == 'ADD':
            r = mkbin('add', w, a, b)
            fl['CARRY'] = mkicmp('ult', w, r, a)
            fl['OVERFLOW'] = mkicmp('slt', w, mkbin('and', w, mkbin('xor', w, a, r), mkbin('xor', w, b, r)), 0)
        elif base == 'SUB':
            r = mkbin('sub', w, a, b)
            for c, p in IPRED.items(): fl[c] = mkicmp(p, w, a, b)
            fl['CARRY'] = fl['LESS']
            fl['OVERFLOW'] = mkicmp('slt', w, mkbin('and', w, mkbin('xor', w, a, b), mkbin('xor', w, a, r)), 0)
        elif base in ('ADDC', 'SUBC'):
            cy = self.flags.get('CARRY')
            if cy is None: raise Broken("carry is not set")
            c = Z(cy, 1, w)
            k = 'add' if base == 'ADDC' else 'sub'
            r1 = mkbin(k, w, a, b)
            r = mkbin(k, w, r1, c)
            fl['CARRY'] = b_or(mkicmp('ult', w, r1, a), mkicmp('ult', w, r, r1)) if k == 'add' else b_or(mkicmp('ult', w, a, b), mkicmp('ult', w, r1, c))
        elif base == 'MUL':
            r = mkbin('mul', w, a, b)
            fl['OVERFLOW'] = mulov(a, b, w)
        elif base in ('AND', 'OR', 'XOR'): r = mkbin(base.lower(), w, a, b)
        else:
            m = base.startswith('M') or base.startswith('ROT')
            if m: b = mkbin('and', w, b, w - 1)
            else: self.need.append((mkicmp('ult', w, b, w), True))
            k = base[1:] if base[0] == 'M' else base
            if k in ('ROTL', 'ROTR'):
                r = _rot(int(k == 'ROTR'), w, a, b) if isinstance(a, int) and isinstance(b, int) else mkbin(k.lower(), w, a, b)
            else: r = mkbin(k.lower(), w, a, b)
        fl['Z'] = mkicmp('eq', w, a, b) if base == 'SUB' else mkicmp('eq', w, r, 0)
        self.flags = {f: fl[f] for f in flags}
        return r

    def o_op2(self, op, flags, dst, a, b):
        w = 32 if op.endswith('32') else 64
        x, y = self.src(a, w), self.count(op, b, w)
        r = self.arith(op, flags, x, y, w)
        self.dst(dst, w, r, w == 32)

    def count(self, op, b, w):
        """second operand; an immediate shift count is masked"""
        if b[0] == 'i' and op.rstrip('32') in ('SHL', 'LSHR', 'ASHR', 'MSHL', 'MLSHR', 'MASHR', 'ROTL', 'ROTR'): return b[1] & w - 1
        return self.src(b, w)

    def o_op2u(self, op, flags, a, b):
        w = 32 if op.endswith('32') else 64
        self.arith(op, flags, self.src(a, w), self.count(op, b, w), w)

    def o_op2r(self, op, dst, a, b):
        w = 32 if op.endswith('32') else 64
        self.flags = {}
        self.dst(dst, w, mkbin('add', w, T(self.r[dst[1]], w), mkbin('mul', w, self.src(a, w), self.src(b, w))), w == 32)

    def o_shift_into(self, op, nz, dst, a, b, c):
        w = 32 if op.endswith('32') else 64
        self.flags = {}
        base = op[:-2] if w == 32 else op
        x, y, n = self.src(a, w), self.src(b, w), c[1] & w - 1 if c[0] == 'i' else self.src(c, w)
        if base[0] == 'M': n = mkbin('and', w, n, w - 1)
        else: self.need.append((mkicmp('ult', w, n, w), True))
        if nz: self.need.append((mkicmp('eq', w, n, 0), False))
        k = base[-3:] if base.endswith('SHL') else 'LSHR'
        m = mkbin('xor', w, n, w - 1)
        if k == 'SHL': r = mkbin('or', w, mkbin('shl', w, x, n), mkbin('lshr', w, mkbin('lshr', w, y, 1), m))
        else: r = mkbin('or', w, mkbin('lshr', w, x, n), mkbin('shl', w, mkbin('shl', w, y, 1), m))
        self.dst(dst, w, r, w == 32)

    def o_op_flags(self, op, setz, dst, t):
        w = 32 if op.endswith('32') else 64
        v = Z(self.cond(t), 1, w)
        if op.startswith('MOV'): return self.dst(dst, w, v, w == 32)
        base = op[:-2] if w == 32 else op
        r = mkbin(base.lower(), w, self.src(dst, w), v)
        self.flags = {'Z': mkicmp('eq', w, r, 0)} if setz else {}
        self.dst(dst, w, r, w == 32)

    def o_select(self, t, is32, dst, a, b):
        w = 32 if is32 else 64
        c = self.cond(t)
        x = self.src(a, w)
        self.dst(dst, w, sel(c, w, x, self.src(b, w)), is32)

    def o_fselect(self, t, is32, dst, a, b):
        w = 32 if is32 else 64
        c = self.cond(t)
        self.fdst(dst, w, sel(c, w, self.src(a, w), self.src(b, w)), False)

    def o_fop1(self, op, flag, dst, src):
        w = 32 if op.endswith('F32') else 64
        if op.startswith('MOV'): return self.fdst(dst, w, self.src(src, w), False)
        if op.startswith('CMP'):
            self.flags = {'fcmp': (flag, w, self.src(dst, w), self.src(src, w))}
            return
        if op.startswith('NEG'): return self.fdst(dst, w, mkbin('xor', w, self.src(src, w), 1 << w - 1), False)
        if op.startswith('ABS'): return self.fdst(dst, w, mkbin('and', w, self.src(src, w), mask(w - 1)), False)
        self.flags = {} if '_FROM_U' in op else self.flags
        to, fr = op[5:].split('_FROM_')
        if to[0] == 'F' and fr[0] == 'F':
            tw, fw = int(to[1:]), int(fr[1:])
            return self.fdst(dst, tw, ('fptrunc' if tw == 32 else 'fpext', tw, self.src(src, fw)), True)
        if to[0] == 'F':
            tw = int(to[1:])
            iw = 64 if fr[1] == 'W' else 32
            v = self.src(src, iw)
            from .val import i2f
            u = fr[0] == 'U'
            return self.fdst(dst, tw, i2f(tw, v if u else sgn(v, iw)) if isinstance(v, int) else ('uitofp' if u else 'sitofp', tw, v, iw), False)
        fw = int(fr[1:])
        iw = 64 if to[1] == 'W' else 32
        self.dst(dst, iw, ('fptosi', iw, self.src(src, fw), fw), iw == 32)

    def o_fop2(self, op, dst, a, b):
        w = 32 if op.endswith('F32') else 64
        k = {'ADD': 'fadd', 'SUB': 'fsub', 'MUL': 'fmul', 'DIV': 'fdiv'}[op[:3]]
        self.fdst(dst, w, (k, w, self.src(a, w), self.src(b, w)), True)

    def o_fop2r(self, op, dst, a, b):
        w = 32 if op.endswith('F32') else 64
        x, y = self.src(a, w), self.src(b, w)
        self.fdst(dst, w, mkbin('or', w, mkbin('and', w, x, mask(w - 1)), mkbin('and', w, y, 1 << w - 1)), False)

    def o_fset32(self, f, v): self.fdst(('f', f), 32, v, False)

    def o_fset64(self, f, v): self.fdst(('f', f), 64, v, False)

    def o_fcopy(self, op, f, r):
        w = 32 if '32' in op else 64
        if 'TO' in op: self.fdst(('f', f), w, T(self.r[r[1]], w), False)
        else: self.dst(r, w, T(self.f[f], w), w == 32)

    def o_mem(self, op, store, reg, mem, al=''):
        a = self.addr(mem)
        if reg[0] == 'pair':
            if store:
                self.store(a, 64, self.r[reg[1]]); self.store(mkbin('add', 64, a, 8), 64, self.r[reg[2]])
            else:
                x, y = self.load(a, 64), self.load(mkbin('add', 64, a, 8), 64)
                self.r[reg[1]], self.r[reg[2]] = x, y
            return
        if store: self.store(a, SZ[op], self.src(reg, SZ[op]))
        else: self.o_op1(op, reg, mem)

    def o_fmem(self, op, store, f, mem, al=''):
        w = 32 if op.endswith('F32') else 64
        if store: self.store(self.addr(mem), w, T(self.f[f], w))
        else: self.fdst(('f', f), w, self.src(mem, w), False)

    # jumps over one move of a marker
    def mark(self, c, reg):
        self.flags = {}
        self.r[reg] = sel(c, 64, self.r[reg], 0x77)

    def o_cmp(self, t, is32, a, b, reg):
        w = 32 if is32 else 64
        x, y = self.src(a, w), self.src(b, w)
        n = NEGATED.get(t, t)
        c = mkicmp('eq' if n == 'EQUAL' else IPRED[n], w, x, y)
        self.mark(not1(c) if n != t else c, reg)

    def o_fcmp(self, t, is32, a, b, reg):
        w = 32 if is32 else 64
        self.mark(('fcmp', 1, FP[t], w, self.src(a, w), self.src(b, w)), reg)

    def o_jump(self, t, reg): self.mark(1 if t == 'JUMP' else self.cond(t), reg)

    def o_op2cmpz(self, op, flags, zero, dst, a, b, reg):
        self.o_op2(op, tuple(flags) + ('Z',), dst, a, b)
        z = self.flags['Z']
        self.mark(z if zero else not1(z), reg)
