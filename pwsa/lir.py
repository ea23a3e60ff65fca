"""Meaning of the emitted sljit LIR (x86-64 instantiation of sljitLir.h's documented contract), as value
terms, path by path, and the comparison with the WebAssembly semantics of the translated fragment.
"""
from . import absint
from .absint import *
from .gen import I32, I64, F32, F64, FUNC, REF, TNAME, tsize, layout


class Unknown(Exception):
    """the analysis has no meaning for a construct: nothing is concluded"""


class Wrong(Exception):
    """definite contradiction"""
    def __init__(self, kind, msg, site=None):
        Exception.__init__(self, msg)
        self.kind = kind
        self.site = site


def zext(v, f=32, t=64):
    if f == t: return v
    return mkcast('zext', f, t, v)


def trunc(v, f, t):
    if isinstance(v, int): return v & mask(t)
    if v[0] == 'and' and isinstance(v[2], int) and v[2] & mask(t) == mask(t):
        return trunc(v[3], f, t)
    return mkcast('trunc', f, t, v)


def sext(v, f, t):
    if f == t: return v
    return mkcast('sext', f, t, v)


def mand(bits, a, b):
    r = mkbin('and', bits, a, b)
    if isinstance(r, tuple) and r[0] == 'and' and isinstance(r[2], int):
        for k in (8, 16, 32):
            if r[2] == mask(k) and k < bits and r[3][0] != 'p':
                return zext(trunc(r[3], bits, k), k, bits)
    return r


def fsort(op, w, a, b):
    if op in ('fadd', 'fmul') and repr(b) < repr(a): a, b = b, a
    return (op, w, a, b)


class Machine:
    """LIR state along one path"""

    def copy(self):
        m = Machine.__new__(Machine)
        m.__dict__.update(self.__dict__)
        m.reg = dict(self.reg); m.freg = dict(self.freg)
        m.st = self.st.copy()
        m.eff = list(self.eff); m.dec = dict(self.dec); m.declist = list(self.declist)
        m.calls = list(self.calls); m.marks = list(self.marks); m.visits = dict(self.visits)
        m.origin = dict(self.origin)
        return m


class Lir:
    def __init__(self, prog, helpers, maxvisit=2):
        self.p = prog
        self.c = prog.c
        c = prog.c
        self.helpers = helpers
        self.maxvisit = maxvisit
        N = c['SLJIT_NUMBER_OF_REGISTERS']
        self.SP = c['SLJIT_SP']
        self.S0 = c['SLJIT_S0']
        self.first_saved = c['SLJIT_FIRST_SAVED_REG']
        self.nscratch = c['SLJIT_NUMBER_OF_SCRATCH_REGISTERS']
        self.ffirst_saved = c['SLJIT_FIRST_SAVED_FLOAT_REG']
        f32 = c['SLJIT_32']
        self.op2 = {}
        for nm, t in (('ADD', 'add'), ('SUB', 'sub'), ('MUL', 'mul'), ('AND', 'and'), ('OR', 'or'), ('XOR', 'xor'), ('SHL', 'shl'), ('MSHL', 'shl'),
                      ('LSHR', 'lshr'), ('MLSHR', 'lshr'), ('ASHR', 'ashr'), ('MASHR', 'ashr'), ('ROTL', 'rotl'), ('ROTR', 'rotr')):
            self.op2[c['SLJIT_' + nm]] = (t, 64)
            self.op2[c['SLJIT_' + nm] | f32] = (t, 32)
        self.mov = {}
        for nm, sz, sg in (('MOV', 64, 0), ('MOV_U8', 8, 0), ('MOV_S8', 8, 1), ('MOV_U16', 16, 0), ('MOV_S16', 16, 1), ('MOV_U32', 32, 0), ('MOV_S32', 32, 1), ('MOV_P', 64, 0)):
            self.mov[c['SLJIT_' + nm]] = (sz, sg, 64)
        for nm, sz, sg in (('MOV32', 32, 0), ('MOV32_U8', 8, 0), ('MOV32_S8', 8, 1), ('MOV32_U16', 16, 0), ('MOV32_S16', 16, 1)):
            self.mov[c['SLJIT_' + nm]] = (sz, sg, 32)
        self.icc = {}
        for nm, p in (('EQUAL', 'eq'), ('NOT_EQUAL', 'ne'), ('LESS', 'ult'), ('GREATER_EQUAL', 'uge'), ('GREATER', 'ugt'), ('LESS_EQUAL', 'ule'),
                      ('SIG_LESS', 'slt'), ('SIG_GREATER_EQUAL', 'sge'), ('SIG_GREATER', 'sgt'), ('SIG_LESS_EQUAL', 'sle')):
            self.icc[c['SLJIT_' + nm]] = p
        self.fcc = {}
        for nm, p in (('F_EQUAL', 'peq'), ('F_NOT_EQUAL', 'pne'), ('F_LESS', 'plt'), ('F_GREATER_EQUAL', 'pge'), ('F_GREATER', 'pgt'), ('F_LESS_EQUAL', 'ple'),
                      ('UNORDERED', 'uno'), ('ORDERED', 'ord'), ('ORDERED_EQUAL', 'oeq'), ('UNORDERED_OR_NOT_EQUAL', 'une'), ('ORDERED_LESS', 'olt'),
                      ('UNORDERED_OR_GREATER_EQUAL', 'uge'), ('ORDERED_GREATER', 'ogt'), ('UNORDERED_OR_LESS_EQUAL', 'ule'), ('UNORDERED_OR_EQUAL', 'ueq'),
                      ('ORDERED_NOT_EQUAL', 'one'), ('UNORDERED_OR_LESS', 'ult'), ('ORDERED_GREATER_EQUAL', 'oge'), ('UNORDERED_OR_GREATER', 'ugt'), ('ORDERED_LESS_EQUAL', 'ole')):
            self.fcc[c['SLJIT_' + nm]] = p
        self.setmask = ~(f32 | 0xff)

    # ---- operands -----------------------------------------------------------------
    def reg(self, m, r):
        if r == self.SP: return ('p', ('SP',), 0)
        v = m.reg.get(r)
        if v is None:
            raise Wrong('undef-reg', 'register %s is read although nothing defined is in it' % self.rn(r))
        return v

    def rn(self, r):
        if r == self.SP: return 'SP'
        if r >= self.first_saved: return 'S%d' % (self.S0 - r)
        return 'R%d' % (r - self.c['SLJIT_R0'])

    def addr(self, m, op, w):
        MEM = self.c['SLJIT_MEM']
        r1 = op & 0x7f
        r2 = (op >> 8) & 0x7f
        if r2: raise Unknown("two register address")
        if isinstance(w, int): w &= MASK[64]
        if r1 == 0: return w
        b = self.reg(m, r1)
        return padd(b, sgn(w, 64) if isinstance(w, int) else w)

    def get(self, m, op, w, bits, isf=False):
        """raw operand bits"""
        c = self.c
        if not isinstance(op, int): raise Unknown("operand")
        if op & c['SLJIT_MEM']:
            return self.load(m, self.addr(m, op, w), bits)
        if op == c['SLJIT_IMM']:
            if isf: raise Wrong('imm-float', 'floating operand is an immediate')
            return trunc(w, 64, bits) if bits < 64 else (w & MASK[64] if isinstance(w, int) else w)
        if isf:
            v = m.freg.get(op)
            if v is None: raise Wrong('undef-reg', 'float register FR%d is read although nothing defined is in it' % (op - c['SLJIT_FR0']))
            if v[0] != bits: raise Wrong('width', 'float register FR%d holds a %d-bit value, read as %d-bit' % (op - c['SLJIT_FR0'], v[0], bits))
            return v[1]
        v = self.reg(m, op)
        return trunc(v, 64, bits) if bits < 64 else v

    def put(self, m, op, w, bits, v, isf=False):
        """bits<64 into a register: zero extended (x86-64)"""
        c = self.c
        if op & c['SLJIT_MEM']:
            self.store(m, self.addr(m, op, w), bits, v)
            return
        if op == c['SLJIT_IMM'] or op == 0: raise Wrong('dst', 'destination operand is an immediate')
        if isf:
            if op >= c['SLJIT_FR0'] + c['SLJIT_NUMBER_OF_FLOAT_REGISTERS']: raise Wrong('dst', 'float register out of range')
            m.freg[op] = (bits, v)
            return
        if op > c['SLJIT_NUMBER_OF_REGISTERS']: raise Wrong('dst', 'register out of range')
        if op == self.S0: raise Wrong('frame-clobber', 'frame pointer register S0 is overwritten')
        m.reg[op] = zext(v, bits, 64) if bits < 64 else v

    # ---- memory ---------------------------------------------------------------------
    def region(self, m, a):
        if isinstance(a, int): return ('abs',), a
        b, o = aspair(a)
        return b, o

    def load(self, m, a, bits):
        b, o = self.region(m, a)
        st = m.st
        n = bits // 8
        if b == ('FP',) or b == ('SP',):
            if not isinstance(o, int): raise Unknown("frame access")
            if b == ('SP',):
                self.spcheck(m, o, n)
                d = st.mem.get(b, {})
                if not any(x < o + n and o < x + c[0] for x, c in d.items() if isinstance(x, int)):
                    return ('s', bits, ('uninit-sp', o))
                return st.get(b, o, n)        # bytes never written stay unknown (None) in the result
            c = st.mem[b].get(o)
            if c is not None or any(x < o + n and o < x + cc[0] for x, cc in st.mem[b].items()):
                return self.fill(st.get(b, o, n), m, o)
            for num, fo in reversed(m.calls):
                if o >= fo: return ('s', bits, ('ret', num, o - fo))
            return ('s', bits, ('m', ('FP',), o))
        if b[0] == 'GLB':
            if o != 0: raise Wrong('global-addr', 'global storage accessed at offset %r' % (o,))
            c = st.mem.get(b, {})
            if c: return st.get(b, 0, n)
            return ('s', bits, ('glob', b[1], m.gver))
        if b[0] == 'MEM':
            P = self.p
            if o == P.off('Memory', 'bytes') and bits == 64:
                k = m.kinds[b[1]]
                if k == 'raw': return 0
                return ('p', ('MB', b[1], m.mver if k == 'grow' else 0), 0)
            if o == P.off('Memory', 'pages'):
                return ('s', bits, ('pages', b[1], m.mver))
            raise Wrong('mem-field', 'unexpected field of a memory object is read')
        if b[0] == 'TAB':
            P = self.p
            if o == P.off('Table', 'entries') and bits == 64: return ('p', ('TE', b[1]), 0)
            if o == P.off('Table', 'size') and bits == 32: return ('s', 32, ('tsize', b[1]))
            raise Wrong('tab-field', 'unexpected field of a table object is read')
        if b[0] == 'FE':
            return ('s', bits, ('fe', o))
        if b[0] == 'MB' and len(b) == 2: b = ('MB', b[1], 0)
        if b[0] == 'TE' or b[0] == 'MB':
            if b[0] == 'MB':
                self.stale(m, b)
                return ('ld', bits, ('M', b[1]), o, len(m.eff))
            return ('ld', bits, ('T', b[1]), o, len(m.eff))
        if b[0] in ('d', 'abs'):
            # native memory: the address is a plain number
            full = o if b[0] == 'abs' else (padd(a, 0) if not isinstance(a, int) else a)
            return ('ld', bits, ('N',), self.num(a), len(m.eff))
        raise Unknown("load from %r" % (b,))

    def fill(self, t, m, o):
        """bytes of a frame slot that the emitted code has not written keep their old content"""
        if not (isinstance(t, tuple) and t[0] == 'cat'): return t
        out = []
        for i, p in t[2]:
            if p[0] is None:
                old = ('m', ('FP',), o + i)
                for num, fo in reversed(m.calls):
                    if o + i >= fo: old = ('ret', num, o + i - fo); break
                p = (('s', 8, old), 0)
            out.append((i, p))
        return ('cat', t[1], tuple(out))

    def num(self, a):
        if isinstance(a, int): return a
        b, o = aspair(a)
        if b == ('abs',): return o
        if b[0] == 'd':
            return mkbin('add', 64, b[1], o & MASK[64] if isinstance(o, int) else o)
        return a

    def stale(self, m, b):
        if m.kinds[b[1]] == 'grow' and b[2] != m.mver:
            raise Wrong('stale-base', 'memory %d is accessed through a base address read before the last call; the memory may have moved' % b[1])

    def spcheck(self, m, o, n):
        if o < 0 or o + n > m.spsize:
            raise Wrong('sp-range', 'local storage [SP+%d,%d) lies outside the %d bytes reserved at function entry' % (o, o + n, m.spsize))

    def store(self, m, a, bits, v):
        b, o = self.region(m, a)
        st = m.st
        n = bits // 8
        if b == ('FP',) or b == ('SP',):
            if not isinstance(o, int): raise Unknown("frame access")
            if o < 0: raise Wrong('sp-range', 'frame store below the frame base')
            if b == ('SP',): self.spcheck(m, o, n)
            st.put(b, o, n, v)
            return
        if b[0] == 'GLB':
            if o != 0: raise Wrong('global-addr', 'global storage accessed at offset %r' % (o,))
            st.put(b, 0, n, v)
            m.gst = dict(m.gst); m.gst[b[1]] = bits
            return
        if b[0] == 'MB' and len(b) == 2: b = ('MB', b[1], 0)
        if b[0] == 'MB':
            self.stale(m, b)
            m.eff.append(('st', bits, ('M', b[1]), o, v))
            return
        if b[0] == 'TE':
            m.eff.append(('st', bits, ('T', b[1]), o, v))
            return
        if b[0] in ('d', 'abs'):
            m.eff.append(('st', bits, ('N',), self.num(a), v))
            return
        raise Wrong('wild-store', 'store into %r' % (b,))

    # ---- conditions -----------------------------------------------------------------
    def fnorm(self, m, pred, w, a, b):
        """floating comparison under the path's knowledge about NaN"""
        swap = {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge', 'eq': 'eq', 'ne': 'ne', 'no': 'no', 'rd': 'rd'}
        if pred in ('uno', 'ord'):
            x, y = (a, b) if repr(a) <= repr(b) else (b, a)
            t = ('fcmp', 1, 'uno', w, x, y)
            d = m.dec.get(t)
            if d is not None: return int(d == (pred == 'uno'))
            return t if pred == 'uno' else mknot(t)
        kind, rel = pred[0], pred[1:]
        if rel in ('gt', 'ge'):
            a, b, rel = b, a, swap[rel]
        elif rel in ('eq', 'ne') and repr(b) < repr(a):
            a, b = b, a
        x, y = (a, b) if repr(a) <= repr(b) else (b, a)
        u = m.dec.get(('fcmp', 1, 'uno', w, x, y))
        if a == b and u is False:
            return int(rel in ('eq', 'le'))
        if u is True:
            if kind == 'o': return 0
            if kind == 'u': return 1
            return ('fcmp', 1, 'p' + rel, w, a, b)
        if u is False: return self.bare(m, rel, w, a, b)
        return ('fcmp', 1, kind + rel, w, a, b)

    def bare(self, m, rel, w, a, b):
        if rel == 'ne': return mknot(('fcmp', 1, 'eq', w, a, b))
        return ('fcmp', 1, rel, w, a, b)

    def cond(self, m, cc):
        """i1 term of condition code cc under the current flags"""
        c = self.c
        cc &= ~c['SLJIT_REWRITABLE_JUMP']
        fl = m.flags
        if fl is None:
            raise Wrong('flags', 'condition flags are used although no instruction since the last label, call or flag-changing operation sets them')
        if cc in self.icc:
            p = self.icc[cc]
            if fl[0] != 'int': raise Wrong('flags', 'integer condition %s is used after a floating comparison' % p)
            kind, bits, a, b, sets = fl[1:]
            if p in ('eq', 'ne'):
                if not sets & c['SLJIT_SET_Z']: raise Wrong('flags', 'equality is tested but the preceding operation does not request the zero flag')
                if kind == 'sub': return mkicmp(p, bits, a, b)
                return mkicmp(p, bits, a, 0)
            want = (cc & ~1) << 10
            got = (sets & ~c['SLJIT_SET_Z'])
            if got != want:
                raise Wrong('flags', 'condition %s is tested but the preceding operation does not request that flag' % p)
            if kind != 'sub': raise Unknown("flags of " + kind)
            return mkicmp(p, bits, a, b)
        if cc in self.fcc:
            p = self.fcc[cc]
            if fl[0] != 'float': raise Wrong('flags', 'floating condition %s is used after an integer comparison' % p)
            _, w, a, b, sets = fl
            want = (cc & ~1) << 10
            if sets != want: raise Wrong('flags', 'floating condition %s is tested but the preceding comparison requests another flag' % p)
            return self.fnorm(m, p, w, a, b)
        raise Unknown("condition code %d" % cc)

    def split(self, m, t):
        """[(machine, truth)]"""
        if isinstance(t, int): return [(m, bool(t))]
        neg = False
        k = t
        if t[0] == 'not': k, neg = t[2], True
        elif t[0] == 'icmp' and t[2] in ('ne', 'uge', 'ugt', 'sge', 'sgt') :
            k, neg = mknot(t), True
        if t[0] == 'icmp':
            d = m.st.decide(t)
            if d is not None: return [(m, d)]
        d = m.dec.get(k)
        if d is not None: return [(m, d != neg)]
        out = []
        m2 = m.copy()
        for x, tr in ((m, True), (m2, False)):
            if k[0] == 'icmp' and not x.st.assume(k, tr): continue
            x.dec[k] = tr
            x.declist.append((k, tr))
            out.append((x, tr != neg))
        return out

    # ---- program ----------------------------------------------------------------------
    def run(self, events, env, locals_):
        """all LIR paths; each finished Machine has .end and .marks"""
        prog = []
        lab = {}
        jump = {}
        for e in events:
            if e[0] == 'op':
                prog.append(e)
            elif e[0] == 'lir':
                n, a, r = e[1], e[2], e[3]
                if n == 'sljit_emit_label': lab[r[1]] = len(prog)
                elif n == 'sljit_set_label':
                    if not (isinstance(a[0], tuple) and isinstance(a[1], tuple)): raise Wrong('dangling', 'sljit_set_label with a null jump or label', e)
                    jump[a[0][1]] = a[1][1]
                    continue
                prog.append(e)
        self.prog = prog
        self.locals_ = locals_
        m = Machine()
        m.reg = {self.S0: ('p', ('FP',), 0)}
        m.freg = {}
        m.st = State()
        m.st.obj(('FP',), 'lazy'); m.st.obj(('SP',), 'lazy')
        m.eff = []; m.dec = {}; m.declist = []; m.calls = []; m.marks = []; m.visits = {}; m.origin = {}
        m.flags = None; m.gver = 0; m.mver = 0; m.ncall = 0; m.spsize = 0; m.kinds = env.memories; m.gst = {}
        m.pc = 0; m.end = None
        if env.pvals:
            po, _ = layout(env.params, env.align)
            for t, o, v in zip(env.params, po, env.pvals):
                if v is not None: m.st.put(('FP',), o, tsize(t), v)
        out = []
        work = self.work = [m]
        n = 0
        while work:
            m = work.pop()
            n += 1
            if n > 400: raise Unknown("too many paths")
            try:
                self.path(m, prog, lab, jump, work, env)
            except Wrong as w:
                m.end = ('wrong', w)
                w.site = w.site or (prog[m.pc] if m.pc < len(prog) else None)
            except Unknown as u:
                m.end = ('unknown', str(u))
            if m.end: out.append(m)
        return out

    def target(self, lab, jump, j):
        l = jump.get(j[1])
        if l is None:
            raise Wrong('dangling', 'a jump is emitted but never given a target label')
        if l not in lab: raise Unknown('label')
        return lab[l]

    def path(self, m, prog, lab, jump, work, env):
        c = self.c
        while True:
            if m.pc >= len(prog):
                m.end = ('fallthrough',)
                return
            e = prog[m.pc]
            if e[0] == 'op':
                m.marks.append((e, self.view(m, e)))
                m.pc += 1
                if len(m.marks) > 200: m.end = ('cut',); return
                continue
            n, a, r = e[1], e[2], e[3]
            if n == 'sljit_emit_label':
                m.flags = None
                k = m.visits[m.pc] = m.visits.get(m.pc, 0) + 1
                if k > self.maxvisit:
                    m.end = ('cut',)
                    return
            elif n == 'sljit_emit_enter':
                m.spsize = a[5] if len(a) > 5 else a[-1]
            elif n == 'sljit_emit_op0': self.op0(m, a)
            elif n == 'sljit_emit_op1': self.op1(m, a)
            elif n in ('sljit_emit_op2', 'sljit_emit_op2u'):
                if n == 'sljit_emit_op2': op, dst, dw, s1, w1, s2, w2 = a
                else: op, s1, w1, s2, w2 = a; dst = None; dw = 0
                self.op2x(m, op, dst, dw, s1, w1, s2, w2)
            elif n == 'sljit_emit_op_flags':
                op, dst, dw, cc = a
                t = self.cond(m, cc)
                if not isinstance(t, int):
                    d = m.st.decide(t)
                    if d is not None: t = int(d)
                o = op & (0xff | c['SLJIT_32'])
                v = zext(t, 1, 64)
                if o == c['SLJIT_MOV']: self.put(m, dst, dw, 64, v)
                elif o == c['SLJIT_MOV32']: self.put(m, dst, dw, 32, trunc(v, 64, 32))
                else: raise Unknown("op_flags %d" % op)
            elif n == 'sljit_emit_fop1': self.fop1(m, a)
            elif n == 'sljit_emit_fop2': self.fop2(m, a)
            elif n == 'sljit_emit_jump':
                ty = a[0] & ~c['SLJIT_REWRITABLE_JUMP']
                if ty == c['SLJIT_JUMP']:
                    m.pc = self.target(lab, jump, r)
                    continue
                if ty > c['SLJIT_JUMP']: raise Unknown("jump type")
                if self.branch(m, self.cond(m, ty), lab, jump, r, work): return
                continue
            elif n == 'sljit_emit_cmp':
                ty, s1, w1, s2, w2 = a
                bits = 32 if ty & c['SLJIT_32'] else 64
                cc = ty & ~c['SLJIT_32'] & ~c['SLJIT_REWRITABLE_JUMP']
                if cc not in self.icc: raise Unknown("cmp type")
                t = mkicmp(self.icc[cc], bits, self.get(m, s1, w1, bits), self.get(m, s2, w2, bits))
                m.flags = None
                if self.branch(m, t, lab, jump, r, work): return
                continue
            elif n == 'sljit_emit_fcmp':
                ty, s1, w1, s2, w2 = a
                bits = 32 if ty & c['SLJIT_32'] else 64
                cc = ty & ~c['SLJIT_32'] & ~c['SLJIT_REWRITABLE_JUMP']
                if cc not in self.fcc: raise Unknown("fcmp type")
                t = self.fnorm(m, self.fcc[cc], bits, self.get(m, s1, w1, bits, True), self.get(m, s2, w2, bits, True))
                m.flags = None
                if self.branch(m, t, lab, jump, r, work): return
                continue
            elif n == 'sljit_emit_icall':
                if self.icall(m, a, e): return
            elif n == 'sljit_emit_return_void' or n == 'sljit_emit_return':
                m.end = ('return',)
                return
            else:
                raise Unknown(n)
            m.pc += 1

    def branch(self, m, t, lab, jump, r, work):
        pc = m.pc
        tgt = self.target(lab, jump, r)
        outs = self.split(m, t)
        for x, tr in outs: x.pc = tgt if tr else pc + 1
        for x, tr in outs:
            if x is not m: work.append(x)
        return not any(x is m for x, _ in outs)

    def op0(self, m, a):
        c = self.c
        op = a[0]
        tab = {}
        for sfx, sg, bits in (('UW', 'u', 64), ('U32', 'u', 32), ('SW', 's', 64), ('S32', 's', 32)):
            tab[c['SLJIT_DIV_' + sfx]] = (sg, bits, False)
            tab[c['SLJIT_DIVMOD_' + sfx]] = (sg, bits, True)
        if op not in tab: raise Unknown("op0 %d" % op)
        sg, bits, mod = tab[op]
        R0, R1 = c['SLJIT_R0'], c['SLJIT_R1']
        x = self.get(m, R0, 0, bits); y = self.get(m, R1, 0, bits)
        q = mkbin(sg + 'div', bits, x, y)
        self.put(m, R0, 0, bits, q)
        if mod:
            self.put(m, R1, 0, bits, mkbin(sg + 'rem', bits, x, y))
        m.flags = None

    def op1(self, m, a):
        op, dst, dw, src, sw = a
        if op not in self.mov: raise Unknown("op1 %d" % op)
        sz, sg, w = self.mov[op]
        v = self.get(m, src, sw, sz)
        if dst & self.c['SLJIT_MEM']:
            self.put(m, dst, dw, sz, v)
        else:
            v = (sext if sg else zext)(v, sz, w)
            self.put(m, dst, dw, w, v)

    def op2x(self, m, op, dst, dw, s1, w1, s2, w2):
        c = self.c
        o = op & (0xff | c['SLJIT_32'])
        sets = op & ~(0xff | c['SLJIT_32'])
        if o not in self.op2: raise Unknown("op2 %d" % op)
        t, bits = self.op2[o]
        x = self.get(m, s1, w1, bits); y = self.get(m, s2, w2, bits)
        if t in ('shl', 'lshr', 'ashr', 'rotl', 'rotr'):
            y2 = mand(bits, bits - 1, y)
            v = shiftop(t, bits, x, y2)
        elif t == 'and': v = mand(bits, x, y)
        else: v = mkbin(t, bits, x, y)
        if dst is not None: self.put(m, dst, dw, bits, v)
        if sets:
            if t == 'sub': m.flags = ('int', 'sub', bits, x, y, sets)
            elif t in ('and', 'or', 'xor', 'add') and not sets & ~c['SLJIT_SET_Z']: m.flags = ('int', 'res', bits, v, 0, sets)
            else: m.flags = ('int', 'other', bits, v, 0, sets)
        else:
            m.flags = None

    def fop1(self, m, a):
        c = self.c
        op, dst, dw, src, sw = a
        f32 = c['SLJIT_32']
        o = op & (0xff | f32)
        sets = op & ~(0xff | f32)
        for w, sfx in ((32, 'F32'), (64, 'F64')):
            if o == c['SLJIT_CMP_' + sfx]:
                x = self.get(m, dst, dw, w, True); y = self.get(m, src, sw, w, True)
                m.flags = ('float', w, x, y, sets)
                return
            if o == c['SLJIT_MOV_' + sfx]:
                self.put(m, dst, dw, w, self.get(m, src, sw, w, True), True); return
            if o == c['SLJIT_NEG_' + sfx]:
                self.put(m, dst, dw, w, ('fneg', w, self.get(m, src, sw, w, True)), True); return
            if o == c['SLJIT_ABS_' + sfx]:
                self.put(m, dst, dw, w, ('fabs', w, self.get(m, src, sw, w, True)), True); return
            for iw, isfx in ((64, 'SW'), (32, 'S32')):
                if o == c['SLJIT_CONV_%s_FROM_%s' % (isfx, sfx)]:
                    self.put(m, dst, dw, iw, ('fptosi', iw, self.get(m, src, sw, w, True), w)); m.flags = None; return
                if o == c['SLJIT_CONV_%s_FROM_%s' % (sfx, isfx)]:
                    self.put(m, dst, dw, w, ('sitofp', w, self.get(m, src, sw, iw), iw), True); m.flags = None; return
        if o == c['SLJIT_CONV_F64_FROM_F32']:
            self.put(m, dst, dw, 64, ('fpext', 64, self.get(m, src, sw, 32, True)), True); return
        if o == c['SLJIT_CONV_F32_FROM_F64']:
            self.put(m, dst, dw, 32, ('fptrunc', 32, self.get(m, src, sw, 64, True)), True); return
        raise Unknown("fop1 %d" % op)

    def fop2(self, m, a):
        c = self.c
        op, dst, dw, s1, w1, s2, w2 = a
        for w, sfx in ((32, 'F32'), (64, 'F64')):
            for nm, t in (('ADD', 'fadd'), ('SUB', 'fsub'), ('MUL', 'fmul'), ('DIV', 'fdiv')):
                if op == c['SLJIT_%s_%s' % (nm, sfx)]:
                    self.put(m, dst, dw, w, fsort(t, w, self.get(m, s1, w1, w, True), self.get(m, s2, w2, w, True)), True)
                    return
        raise Unknown("fop2 %d" % op)

    def killscratch(self, m):
        for r in list(m.reg):
            if r < self.first_saved: del m.reg[r]
        for r in list(m.freg):
            if r < self.ffirst_saved: del m.freg[r]
        m.flags = None

    def icall(self, m, a, e):
        c = self.c
        ty, args, src, sw = a
        R0 = c['SLJIT_R0']
        if src & c['SLJIT_MEM']: tgt = self.load(m, self.addr(m, src, sw), 64)
        elif src == c['SLJIT_IMM']: tgt = sw
        else: tgt = self.reg(m, src)
        fp = m.reg.get(R0)
        if fp is None: raise Wrong('call-frame', 'call without a frame pointer argument in R0')
        b, o = aspair(fp)
        if b != ('FP',) or not isinstance(o, int):
            raise Wrong('call-frame', 'call passes %r as the frame pointer' % (fp,))
        tail = bool(ty & c['SLJIT_CALL_RETURN'])
        if isinstance(tgt, tuple) and tgt[0] == 'p' and tgt[1][0] == 'g':
            name = tgt[1][1]
            outs = self.helpers.apply(self, m, name, o, e)
            for x in outs:
                self.killscratch(x)
                if x is not m:
                    x.pc = m.pc + 1
                    self.work.append(x)
            if not any(x is m for x in outs):
                return True
            return False
        m.eff.append(('call', tgt, o, m.st.copy(), tuple(m.calls), tail, dict(m.gst), e, m.gver))
        if tail:
            m.end = ('tailcall',)
            return True
        m.ncall += 1
        self.clobber_frame(m, o)
        m.calls.append((m.ncall, o))
        self.killscratch(m)
        self.world(m)
        return False

    def world(self, m):
        """a wasm or host function ran: globals, memories may have changed"""
        m.gver += 1
        m.mver += 1
        for b in list(m.st.mem):
            if b[0] == 'GLB': m.st.mem[b] = {}; m.st.own.add(b)

    def clobber_frame(self, m, o):
        d = m.st.wr(('FP',))
        for x in list(d):
            if x + d[x][0] > o:
                n, v = d.pop(x)
                if x < o and o - x in (1, 2, 4) and n in (2, 4, 8): d[x] = (o - x, mkcast('trunc', 8 * n, 8 * (o - x), v))      # what is left of a cell written before

    # ---- operand stack view --------------------------------------------------------------
    def slot(self, m, s):
        """value of a StackValue snapshot"""
        wt, jt, fo, op, ow = s
        c = self.c
        if not all(isinstance(x, int) for x in (wt, jt, op)): raise Unknown("stack slot")
        bits = 32 if wt in (I32, F32) else 64
        if jt == c['SVT_CMP']:
            return zext(self.cond(m, op), 1, bits)
        if jt == c['SVT_DUMMY']: return ('dummy', bits)
        if jt != c['SVT_GENERAL']: raise Unknown("jit type %d" % jt)
        op = op & 0xffffffff
        isf = wt in (F32, F64) and not op & c['SLJIT_MEM']
        if isf and op == c['SLJIT_IMM']:
            return trunc(ow, 64, bits) if bits < 64 else ow
        return self.get(m, op, ow, bits, isf)

    def view(self, m, e):
        """values of all operand stack slots and locals at an opcode boundary (lazy errors)"""
        sp, slots = e[2]
        out = []
        for s in slots:
            try:
                out.append((s[0], self.slot(m, s)))
            except Wrong as w:
                out.append((s[0], ('WRONG', w)))
            except Unknown as u:
                out.append((s[0], ('UNKNOWN', str(u))))
        loc = []
        for s in self.locals_:
            wt, jt, op, ow = s
            try:
                loc.append(self.slot(m, (wt, jt, 0, op, ow)))
            except Wrong as w:
                loc.append(('WRONG', w))
            except Unknown as u:
                loc.append(('UNKNOWN', str(u)))
        return out, loc, len(m.eff), dict(m.gst), {b[1]: dict(d) for b, d in m.st.mem.items() if b[0] == 'GLB'}, len(m.declist)


def shiftop(t, bits, x, y):
    if t in ('rotl', 'rotr'):
        if isinstance(x, int) and isinstance(y, int):
            k = y % bits
            if t == 'rotr': k = (bits - k) % bits
            return ((x << k) | (x >> (bits - k))) & mask(bits) if k else x
        if y == 0 and isinstance(y, int): return x
        if isinstance(y, int):
            k = y % bits
            if t == 'rotr': k = bits - k
            return mkbin('or', bits, mkbin('shl', bits, x, k), mkbin('lshr', bits, x, bits - k))
        return (t, bits, x, y)
    return mkbin(t, bits, x, y)
