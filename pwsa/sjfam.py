"""Families of LIR operation sequences for P21 (sjprops.py): which operations, operand kinds, aliases and sizes are analysed.
The choices that steer sljit's code selection are enumerated; register and memory contents stay symbolic."""
from .sjprops import Case, FULL, BASE
from .sljspec import ICOND, FP, FSET, NEGATED, setof

R0, R1, R2, R3, R4, R5, R6, S5, S4, S3, S2, S1, S0, SP = range(1, 15)      # rax rsi rdi rcx r8 r11 r10 r12 rbp r13 r14 r15 rbx rsp on the pinned tree
r = lambda n: ('r', n)
i = lambda v: ('i', v)
f = lambda n: ('f', n)
NAME = {R0: 'R0', R1: 'R1', R2: 'R2', R3: 'R3', R4: 'R4', R5: 'R5', R6: 'R6', S5: 'S5', S4: 'S4', S3: 'S3', S2: 'S2', S1: 'S1', S0: 'S0', SP: 'SP'}

IMM = [0, 1, -1, 5, 0x7f, 0x80, -0x80, -0x81, 0x7fffffff, 0x80000000, 0xffffffff, -0x80000000, -0x80000001, 0x123456789abcdef0]
ABS32, ABS64, ABSNEG = 0x5345678, 0x123456789abc, -0x1000


def sh(o):
    if o[0] == 'r': return NAME[o[1]]
    if o[0] == 'i': return '#%d' % o[1] if -1000 < o[1] < 1000 else '#%#x' % o[1]
    if o[0] == 'f': return 'FR%d' % (o[1] - 1)
    if o[0] == 'm0': return '[%#x]' % o[1]
    if o[0] == 'm1': return '[%s%+d]' % (NAME[o[1]], o[2])
    if o[0] == 'm2': return '[%s+%s<<%d]' % (NAME[o[1]], NAME[o[2]], o[3])
    if o[0] == 'pair': return '%s:%s' % (NAME[o[1]], NAME[o[2]])
    return str(o)


def show(ops):
    out = []
    for o in ops:
        out.append(' '.join(sh(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('r', 'i', 'f', 'm0', 'm1', 'm2', 'pair') else '|'.join(x) if isinstance(x, tuple) else str(x) for x in o if x not in (None, ())))
    return '; '.join(out)


class Fam:
    def __init__(self): self.seen, self.out = set(), []

    def add(self, fam, *ops, cpu=FULL):
        key = (ops, cpu)
        if key in self.seen: return
        self.seen.add(key)
        self.out.append(Case('%s: %s%s' % (fam, show(ops), '' if cpu is FULL else ' (no extensions)'), list(ops), cpu))


MEMS = [('m1', S0, 0), ('m1', S5, 0), ('m1', S5, 8), ('m1', S4, 0), ('m1', S3, 0), ('m1', S3, 0x1234), ('m1', S1, 0x7f), ('m1', S1, 0x80), ('m1', R1, -0x80), ('m1', R4, -0x81),
        ('m1', R2, 0x7fffffff), ('m1', R2, 0x80000000), ('m1', S2, -0x80000000), ('m1', S2, -0x80000001), ('m1', R5, 0x123456789abc), ('m1', SP, 0), ('m1', SP, 8), ('m1', SP, 200),
        ('m2', S0, S1, 0), ('m2', S5, R1, 1), ('m2', S4, R2, 2), ('m2', S3, S5, 3), ('m2', R4, S4, 0), ('m2', S5, S4, 0), ('m2', S4, S5, 0), ('m2', S3, R4, 0), ('m2', R6, S3, 3), ('m2', R0, R3, 2), ('m2', R3, R0, 1),
        ('m0', ABS32), ('m0', ABS64), ('m0', ABSNEG)]
MEMF = [('m1', S0, 0), ('m1', S5, 8), ('m1', S4, 0), ('m2', S3, S5, 3), ('m1', R5, 0x123456789abc), ('m0', ABS64), ('m1', SP, 8), ('m2', S4, R2, 2)]
REGS = [R0, R1, R3, R4, S5, S4, S3, S0]

MOVS = ['MOV', 'MOV_U8', 'MOV32_U8', 'MOV_S8', 'MOV32_S8', 'MOV_U16', 'MOV32_U16', 'MOV_S16', 'MOV32_S16', 'MOV_U32', 'MOV_S32', 'MOV32', 'MOV_P']
OP2 = {'ADD': ['OVERFLOW', 'CARRY'], 'SUB': ['LESS', 'GREATER', 'SIG_LESS', 'SIG_GREATER', 'OVERFLOW', 'CARRY'], 'MUL': ['OVERFLOW'], 'AND': [], 'OR': [], 'XOR': [],
       'SHL': [], 'MSHL': [], 'LSHR': [], 'MLSHR': [], 'ASHR': [], 'MASHR': [], 'ROTL': [], 'ROTR': []}
SHIFTS = ['SHL', 'MSHL', 'LSHR', 'MLSHR', 'ASHR', 'MASHR', 'ROTL', 'ROTR']


def conds_of(flag): return [c for c in ICOND if setof(c) == flag]


# a marker: a condition can be read by any of the consumers
def consumers(c, thorough=True):
    yield ('op_flags', 'MOV', 0, r(S1), c)
    if thorough:
        yield ('jump', c, S1)
        yield ('select', c, 0, r(S1), r(R5), r(R6))


def moves(F, T):
    """data transfer: every type, every pair of operand kinds"""
    for op in MOVS:
        for d in REGS:
            for s in (REGS if T or op in ('MOV_U8', 'MOV_S8', 'MOV32') else (R0, R4, S4, d)): F.add('mov', ('op1', op, r(d), r(s)))
        for v in IMM:
            for d in (R0, R4, S5, S0): F.add('mov', ('op1', op, r(d), i(v)))
            for m in MEMF if not T else MEMS: F.add('mov', ('op1', op, m, i(v)))
        for m in MEMS:
            for d in (R0, R3, R4, S4): F.add('mov', ('op1', op, r(d), m))
            for s in (R0, R1, R2, R3, R4, S4, S5, S0): 
                if s not in m[1:]: F.add('mov', ('op1', op, m, r(s)))
        for m in (('m1', S0, 8), ('m2', S5, R1, 1), ('m1', R0, 0), ('m1', R3, 0x1234)): F.add('mov', ('op1', op, r(m[1]), m))
        F.add('mov', ('op1', op, r(R1), ('m2', S5, R1, 1)))
        for m, q in ((MEMS[0], ('m1', S5, 16)), (('m2', S4, R2, 2), ('m1', S1, 0x7f)), (('m0', ABS32), ('m1', SP, 8)), (('m1', SP, 16), ('m0', ABS64)), (('m1', R5, 0x123456789abc), ('m1', S5, 16)),
                     (('m1', S5, 16), ('m1', R5, 0x123456789abc)), (('m0', ABS64), ('m0', ABS64 + 0x1000)), (('m2', S4, R2, 2), ('m0', ABS64)), (('m1', R5, 0x123456789abc), ('m2', S4, R2, 2)), (('m1', S2, 0x7fffffffff), ('m1', R5, 0x123456789abc)),
                     (('m2', S4, R2, 2), ('m2', S5, R2, 1)), (('m1', S0, 0), ('m1', S0, 8))):
            F.add('mov', ('op1', op, m, q))
        # the flags survive
        for c in ('EQUAL', 'SIG_LESS', 'CARRY'):
            fl = setof(c)
            for d, s in ((r(S2), r(S3)), (r(S2), i(0)), (r(S2), i(0x123456789abc)), (('m1', S0, 8), i(0)), (('m1', S0, 8), i(0x123456789abc)), (r(S2), ('m1', S0, 8)), (('m1', S0, 8), r(R1)), (('m1', S4, 8), ('m1', S0, 0)), (r(S2), ('m0', ABS64)), (('m1', R5, 0x123456789abc), r(R4)), (r(S2), ('m2', S5, R3, 2))):
                F.add('mov between', ('op2u', 'SUB', (fl,), r(R0), r(R2)), ('op1', op, d, s), ('op_flags', 'MOV', 0, r(S1), c))
                if op == 'MOV': F.add('mov between', ('op2u', 'SUB', (fl,), r(R0), r(R2)), ('op1', op, d, s), ('jump', c, S1))


def bits(F, T):
    for op in ('CLZ', 'CLZ32', 'CTZ', 'CTZ32'):
        for cpu in (FULL, BASE):
            for d, s in ((r(R0), r(R1)), (r(R0), r(R0)), (r(R4), r(S5)), (r(S4), r(R3)), (r(S5), r(S5)), (r(S5), r(R6)), (r(R2), ('m1', S4, 8)), (r(S3), ('m2', S3, S5, 3)), (('m1', S5, 0), r(R1)), (('m1', S5, 0), ('m1', S0, 8)), (('m0', ABS64), r(R0)), (r(R0), ('m0', ABS64)),
                         (('m1', R5, 0x123456789abc), r(S0)), (r(R5), ('m1', R5, 0x123456789abc)), (('m1', SP, 8), ('m1', SP, 8))):
                F.add('count', ('op1', op, d, s), cpu=cpu)
    for op in ('REV', 'REV32', 'REV_U16', 'REV32_U16', 'REV_S16', 'REV32_S16', 'REV_U32', 'REV_S32'):
        for d in REGS:
            for s in REGS: F.add('reverse', ('op1', op, r(d), r(s)))
        for m in MEMF + [('m1', S3, 0)]:
            for d in (R0, S5, S4): F.add('reverse', ('op1', op, r(d), m))
            for s in (R0, R1, R4, S4): F.add('reverse', ('op1', op, m, r(s)))
            F.add('reverse', ('op1', op, m, ('m1', S1, 64)))


def op0(F, T):
    for op in ('LMUL_UW', 'LMUL_SW', 'DIVMOD_UW', 'DIVMOD_U32', 'DIVMOD_SW', 'DIVMOD_S32', 'DIV_UW', 'DIV_U32', 'DIV_SW', 'DIV_S32', 'NOP', 'MEMORY_BARRIER', 'ENDBR'):
        F.add('op0', ('op0', op))
        F.add('op0', ('op1', 'MOV', r(S1), i(9)), ('op0', op), ('op1', 'MOV', r(S2), r(R1)))
    for op in ('NOP', 'MEMORY_BARRIER', 'ENDBR'):
        F.add('op0', ('op2u', 'SUB', ('LESS',), r(R0), r(R2)), ('op0', op), ('op_flags', 'MOV', 0, r(S1), 'LESS')) if op == 'NOP' else 0


def arith(F, T):
    """two operand operations: operand kinds x aliases x flags"""
    D = [r(R0), r(S4), r(R4)]
    memd = [('m1', S0, 0), ('m1', S5, 8), ('m2', S3, S5, 3), ('m0', ABS64), ('m1', R5, 0x123456789abc), ('m1', SP, 8)]
    for base, flags in OP2.items():
        shift = base in SHIFTS
        imms = [0, 1, 3, 31, 32, 63, 64, -1] if shift else IMM
        for op in (base, base + '32'):
            zs = [()] if base in ('ROTL', 'ROTR') else [(), ('Z',)] if base != 'MUL' else [()]
            fsets = zs + [(x,) for x in flags] + ([('Z', x) for x in flags] if base in ('ADD', 'SUB') else [])
            srcs = [r(R1), r(R3), r(S5), ('m1', S0, 8), ('m2', S5, R1, 1), ('m0', ABS64)]
            pairs = []
            for d in D + memd:
                regs = [r(R1), r(R3), r(S4), r(R0), r(S5)]
                for a in regs + ([d] if d not in regs else []):
                    for b in regs + ([d] if d not in regs else []): pairs.append((d, a, b))
                for v in imms:
                    for a in (r(R1), d, ('m1', S1, 0x80)):
                        pairs.append((d, a, i(v)))
                        if a == r(R1) or v in (0, 1, 5, -1, 0x7fffffff, 0x123456789abcdef0, 0x80): pairs.append((d, i(v), a))
                for m in (('m1', S1, 0x80), ('m2', S3, S5, 3), ('m0', ABS64), ('m1', R5, 0x123456789abc), ('m1', SP, 16)):
                    for a in (r(R1), r(R3), d): pairs += [(d, a, m), (d, m, a)]
                    pairs.append((d, m, ('m1', S0, 24)))
                    pairs.append((d, m, m))
                pairs += [(d, i(7), i(3)), (d, i(0x123456789ab), i(5))]
            for d, a, b in ((r(R3), r(R3), r(R0)), (r(R3), r(R0), r(R3)), (r(R3), r(R0), r(R1)), (r(R3), r(R3), r(R3)), (r(R3), r(R0), ('m1', S0, 0)), (r(R3), ('m1', S0, 0), r(R1)), (r(R3), r(R0), i(3)), (r(R3), r(R3), ('m1', R3, 0)), (r(R0), r(R1), ('m1', R3, 8)),
                             (('m1', R3, 8), r(R0), r(R1)), (('m2', R0, R3, 2), r(R1), r(R4)), (('m2', R0, R3, 2), ('m2', R0, R3, 2), r(R4)), (('m2', R3, R0, 1), r(R1), r(R4)), (('m1', R3, 8), ('m1', R3, 8), r(S5)), (('m1', R3, 0x123456789), r(R0), r(R1)),
                             (r(S5), r(S5), r(S4)), (r(S5), r(S4), r(S5)), (r(S3), r(S3), r(S3)), (r(S0), r(R0), ('m1', S4, 0)), (r(R6), ('m1', R6, 0), r(R0)), (r(R6), r(R0), ('m1', R6, 0)), (r(R6), ('m2', R6, R0, 1), ('m2', R6, R0, 1))):
                pairs.append((d, a, b))
            for d in (R0, R3, R4, R6, S5, S4):
                ms = (('m1', d, 0), ('m1', d, 0x123456789abc), ('m2', d, R2, 2), ('m2', S3, d, 1))
                for m in ms:
                    for a in (r(R1), r(R3), i(0), i(3), i(0x123456789ab), ('m1', S0, 8)) + ((r(d),) if m[0] == 'm2' and m[2] == d else ()): pairs += [(r(d), a, m), (r(d), m, a)]
                    pairs += [(r(d), m, m), (m, r(R1), r(R3)), (m, m, r(R1)), (m, r(R1), m), (m, m, m)]
            for k, (d, a, b) in enumerate(pairs):
                full = fsets if T or k % 3 == 0 or d == r(R0) and not shift else [fsets[k % len(fsets)]]
                for fs in full:
                    ops = [('op2', op, fs, d, a, b)]
                    if fs:
                        cs = [c for x in fs for c in conds_of(x)]
                        for c in (cs if T else [cs[k % len(cs)]]):
                            used = {S1}
                            if d == r(S1): continue
                            F.add('arith', *ops, ('op_flags', 'MOV', 0, r(S2), c))
                    else: F.add('arith', *ops)
                if fsets != [()] and k % 2 == 0:
                    fs = [x for x in fsets if x][k % len([x for x in fsets if x])]
                    cs = [c for x in fs for c in conds_of(x)]
                    F.add('arith', ('op2u', op, fs, a, b), ('op_flags', 'MOV', 0, r(S2), cs[k // 2 % len(cs)]))
            if shift:
                for cpu in (BASE,):
                    for d, a, b in pairs[::5]: F.add('arith', ('op2', op, (), d, a, b), cpu=cpu)
    # every condition after every operation that sets its flag, by every consumer
    for base, flags in OP2.items():
        for op in (base, base + '32'):
            for x in flags + (['Z'] if base not in ('MUL', 'ROTL', 'ROTR') else []):
                for c in conds_of(x):
                    for cons in consumers(c):
                        for u in (0, 1):
                            for a, b in ((r(R0), r(R4)), (r(R4), i(3)), (r(R0), i(-1)), (('m1', S0, 0), r(R1)), (r(R1), ('m2', S5, R3, 3)), (r(R0), i(0)), (r(R2), r(R2))):
                                F.add('flags', ('op2u', op, (x,), a, b) if u else ('op2', op, (x,), r(R3), a, b), cons)
    # carry chains
    for w in ('', '32'):
        for k, (a, b, d, e) in enumerate(((r(R0), r(R1), r(R2), r(R3)), (r(R0), i(1), r(R2), i(0)), (('m1', S0, 0), r(R1), ('m1', S0, 8), r(R4)), (r(R0), ('m1', S0, 0), r(R2), ('m1', S0, 8)), (r(S5), i(-1), r(S4), i(-1)), (r(R0), r(R0), r(R0), r(R0)), (r(R0), i(0x123456789ab), r(R2), i(0x123456789ab)), (r(R0), r(R1), i(0), r(R4)), (r(R0), r(R1), ('m0', ABS64), r(R4)))):
            for x in ('ADD', 'SUB'):
                for td in (r(R0), r(S3), ('m1', S1, 16)):
                    for te in (r(R2), r(S4), r(R3), ('m1', S1, 24), ('m0', ABS32)):
                        F.add('carry', ('op2', x + w, ('CARRY',), td, a, b), ('op2', x + 'C' + w, (), te, d, e))
                        F.add('carry', ('op2', x + w, ('CARRY',), td, a, b), ('op2', x + 'C' + w, ('CARRY',), te, d, e), ('op2', x + 'C' + w, ('CARRY',), r(S2), r(S5), r(R5)), ('op_flags', 'MOV', 0, r(S0), 'CARRY')) if te != r(S2) and 'm' not in (td[0][0], te[0][0]) else 0
                        F.add('carry', ('op2', x + w, ('CARRY',), td, a, b), ('op1', 'MOV', r(S2), i(0)), ('op2', x + 'C' + w, ('CARRY',), te, d, e), ('op_flags', 'MOV', 0, r(S0), 'NOT_CARRY')) if td[0] == 'r' and te[0] == 'r' else 0
    for op in ('MULADD', 'MULADD32'):
        for d, a, b in ((r(R0), r(R1), r(R2)), (r(R0), r(R0), r(R0)), (r(S5), ('m1', S0, 8), r(R1)), (r(R0), i(5), r(R3)), (r(R0), r(R3), i(0x123456789ab)), (r(S4), ('m1', S0, 0), ('m2', S5, R1, 2)), (r(R3), ('m0', ABS64), i(7)), (r(R0), r(R0), r(R1)), (r(R0), r(R1), r(R0))):
            F.add('muladd', ('op2r', op, d, a, b))


def shifts_into(F, T):
    for base in ('SHL', 'MSHL', 'LSHR', 'MLSHR'):
        for op in (base, base + '32'):
            for nz in (0, 1):
                for d in (R0, R3, S5):
                    for a in (R0, R1, R3, S5):
                        for b in (R1, R3, S4):
                            if d == b: continue
                            for c in (r(R2), r(R3), r(R0), i(1), i(17), i(31), i(0), ('m1', S0, 0), ('m2', S3, R4, 1), ('m0', ABS64), r(d), r(b), ('m1', d, 8), ('m2', S3, d, 1), ('m1', R6, 0x123456789abc), ('m1', d, 0x123456789abc)):
                                if nz and c == i(0): continue
                                F.add('shift into', ('shift_into', op, nz, r(d), r(a), r(b), c))
            if op.endswith('32') is False: F.add('shift into', ('shift_into', op, 1, r(R0), r(R1), r(R2), i(40)))


def flags(F, T):
    """materialising conditions"""
    for c in ICOND:
        fl = setof(c)
        pre = ('op2u', 'SUB', (fl,), r(R5), r(R6))
        if c in ('OVERFLOW', 'CARRY', 'NOT_CARRY'): pre = ('op2u', 'ADD', (fl,), r(R5), r(R6))
        for op in ('MOV', 'MOV32', 'AND', 'AND32', 'OR', 'OR32', 'XOR', 'XOR32'):
            for d in [r(x) for x in (R0, R1, R2, R3, R4, S5, S4, S0)] + MEMF:
                F.add('condition', pre, ('op_flags', op, 0, d, c))
                if op[0] != 'M':
                    F.add('condition', pre, ('op_flags', op, 1, d, c), ('op_flags', 'MOV', 0, r(S2), 'EQUAL' if len(c) % 2 else 'NOT_EQUAL')) if d != r(S2) else 0
        for is32 in (0, 1):
            for cpu in (FULL, ('sse2',)):
                for d, a, b in ((R0, r(R1), R2), (R0, r(R0), R2), (R0, r(R1), R0), (R0, r(R0), R0), (S5, r(S4), S3), (S5, ('m1', S0, 8), S4), (S4, ('m1', S4, 8), S4), (R4, i(0), R1), (R4, i(0x123456789ab), R4), (R4, i(-1), R0), (R3, ('m0', ABS64), R3), (R3, ('m2', S3, S5, 3), R2), (R0, ('m1', R0, 8), R3), (R3, ('m1', R5 if False else S0, 0x123456789ab), R3)):
                    F.add('select', pre, ('select', c, is32, r(d), a, r(b)), cpu=cpu)
                for d, a, b in ((1, f(2), 3), (1, f(1), 3), (1, f(2), 1), (1, f(1), 1), (9, ('m1', S0, 8), 10), (9, ('m0', ABS64), 9), (3, ('m2', S3, S5, 3), 15)):
                    F.add('fselect', pre, ('fselect', c, is32, f(d), a, f(b)), cpu=cpu)


def floats(F, T):
    FR = [f(1), f(2), f(4), f(9), f(15)]
    FM = [('m1', S0, 0), ('m1', S5, 8), ('m1', S4, 0), ('m2', S3, S5, 3), ('m1', R5, 0x123456789abc), ('m0', ABS64), ('m0', ABS32), ('m1', SP, 8)]
    for w in ('64', '32'):
        for op in ('MOV', 'NEG', 'ABS'):
            for cpu in (FULL, BASE):
                for d in FR:
                    for s in FR: F.add('float', ('fop1', '%s_F%s' % (op, w), None, d, s), cpu=cpu)
                for m in FM + (MEMS if T else []):
                    for x in (f(1), f(9)):
                        F.add('float', ('fop1', '%s_F%s' % (op, w), None, x, m), cpu=cpu)
                        F.add('float', ('fop1', '%s_F%s' % (op, w), None, m, x), cpu=cpu)
                    F.add('float', ('fop1', '%s_F%s' % (op, w), None, m, ('m1', S1, 64)), cpu=cpu)
        for op in ('ADD', 'SUB', 'MUL', 'DIV'):
            for cpu in (FULL, BASE):
                for d in FR + FM[::2]:
                    for a in FR[:4] + FM[1::2]:
                        for b in FR[:4] + FM[::3]: F.add('float', ('fop2', '%s_F%s' % (op, w), d, a, b), cpu=cpu)
        for d in FR:
            for a in FR + FM[1::2]:
                for b in FR + FM[::3]: F.add('float', ('fop2r', 'COPYSIGN_F%s' % w, d, a, b))
        # conversions
        conv = ['CONV_F%s_FROM_%s' % (w, x) for x in ('SW', 'S32', 'UW', 'U32')]
        for op in conv:
            for cpu in (FULL, BASE):
                for d in (f(1), f(9), ('m1', S0, 0), ('m0', ABS64), ('m1', R5, 0x123456789abc)):
                    for s in (r(R0), r(R4), r(S5), r(R3), i(0), i(5), i(-7), i(0x7fffffff), i(0x80000000), i(0x123456789abcdef0), ('m1', S1, 0x80), ('m0', ABS32), ('m2', S4, R2, 2)):
                        F.add('convert', ('fop1', op, None, d, s), cpu=cpu)
        for op in ('CONV_SW_FROM_F%s' % w, 'CONV_S32_FROM_F%s' % w):
            for d in (r(R0), r(R4), r(S5), r(S4), ('m1', S0, 0), ('m0', ABS64)):
                for s in (f(1), f(9), ('m1', S1, 0x80), ('m2', S4, R2, 2), ('m0', ABS32)): F.add('convert', ('fop1', op, None, d, s))
        op = 'CONV_F%s_FROM_F%s' % (w, '32' if w == '64' else '64')
        for cpu in (FULL, BASE):
            for d in FR[:4] + FM[:4]:
                for s in FR[:4] + FM[::2]: F.add('convert', ('fop1', op, None, d, s), cpu=cpu)
        # comparisons
        for c in FP:
            for cpu in (FULL, BASE):
                for a, b in ((f(1), f(2)), (f(9), f(1)), (f(1), f(9)), (f(3), ('m1', S0, 8)), (('m1', S0, 8), f(3)), (('m1', S0, 8), ('m2', S4, R2, 2)), (f(4), f(4)), (('m0', ABS64), f(10))):
                    pre = ('fop1', 'CMP_F%s' % w, FSET[c], a, b)
                    F.add('compare', ('fcmp', c, w == '32', a, b, S1), cpu=cpu)
                    F.add('compare', pre, ('op_flags', 'MOV', 0, r(S1), c), cpu=cpu)
                    F.add('compare', pre, ('jump', c, S1), cpu=cpu)
                pre = ('fop1', 'CMP_F%s' % w, FSET[c], f(1), f(2))
                for d in (r(R0), r(R4), r(R2), ('m1', S0, 0), ('m0', ABS64)):
                    for op in ('MOV32', 'AND', 'OR32', 'XOR'): F.add('compare', pre, ('op_flags', op, 0, d, c), cpu=cpu)
                for is32 in (0, 1):
                    for d, a, b in ((R0, r(R1), R2), (R0, r(R0), R2), (R0, r(R1), R0), (S5, ('m1', S0, 8), S4), (R4, i(0x123456789ab), R4), (R3, i(7), R2), (R3, ('m0', ABS64), R3)):
                        F.add('select', pre, ('select', c, is32, r(d), a, r(b)), cpu=cpu)
                    for d, a, b in ((3, f(4), 5), (3, f(3), 5), (3, f(5), 3), (1, f(2), 3), (9, ('m1', S0, 8), 10), (9, ('m0', ABS64), 9)):
                        F.add('fselect', pre, ('fselect', c, is32, f(d), a, f(b)), cpu=cpu)
                # moves in between keep the flags
                F.add('compare', pre, ('op1', 'MOV', r(R0), i(0)), ('fop1', 'MOV_F64', None, f(4), ('m1', S0, 8)), ('op_flags', 'MOV', 0, r(S1), c), cpu=cpu)
    for x in (0, 1, 0x80000000, 0x3f800000, 0x7fc00000, 0xffffffff, 0x12345678):
        for d in (1, 9): F.add('constant', ('fset32', d, x))
    for x in (0, 1, 1 << 63, 0x3ff0000000000000, 0x7ff8000000000000, mask64(), 0x123456789abcdef0, 0x80000000, 0x12345678, 0xffffffff00000000, 0xffffffff80000000):
        for d in (1, 9): F.add('constant', ('fset64', d, x))
    for op in ('COPY_TO_F64', 'COPY32_TO_F32', 'COPY_FROM_F64', 'COPY32_FROM_F32'):
        for x in (1, 9):
            for y in (R0, R4, S5, S4): F.add('copy', ('fcopy', op, x, r(y)))


def mask64(): return (1 << 64) - 1


def compares(F, T):
    """compare and jump"""
    S = [(r(R0), r(R1)), (r(R0), r(R0)), (r(S5), r(S4)), (r(S4), r(R3)), (('m1', S0, 0), r(R1)), (r(R1), ('m1', S0, 0)), (('m2', S4, R2, 2), r(R0)), (('m0', ABS64), r(R0)), (r(R0), ('m0', ABS32)), (('m1', S0, 8), ('m1', S5, 8)), (('m0', ABS64), ('m1', S5, 8)),
         (('m1', R5, 0x123456789abc), ('m0', ABS64)), (('m1', R5, 0x123456789abc), i(4)), (i(4), i(5)), (('m1', R5, 0x123456789abc), i(0x123456789abc)), (('m2', S4, R2, 2), i(0))]
    for c in ICOND[:10]:
        for is32 in (0, 1):
            for a, b in S: F.add('compare', ('cmp', c, is32, a, b, S1))
            for v in IMM:
                for a in (r(R0), r(R1), r(R4), ('m1', S0, 8)):
                    F.add('compare', ('cmp', c, is32, a, i(v), S1))
                    F.add('compare', ('cmp', c, is32, i(v), a, S1))
    for base in ('ADD', 'SUB', 'AND', 'OR', 'XOR', 'SHL', 'LSHR', 'ASHR', 'MSHL'):
        for w in ('', '32'):
            for z in (0, 1):
                for d, a, b in ((r(R0), r(R1), r(R2)), (r(R0), r(R0), i(1)), (('m1', S0, 8), ('m1', S0, 8), i(-1)), (r(S5), ('m1', S4, 0), r(R3)), (r(R0), r(R1), i(0)), (r(R0), r(R0), r(R0)), (('m0', ABS64), r(R1), i(5))):
                    F.add('compare', ('op2cmpz', base + w, (), z, d, a, b, S1))
    F.add('jump', ('jump', 'JUMP', S1))


def memory(F, T):
    """sljit_emit_mem, sljit_emit_fmem: unaligned accesses and register pairs"""
    for m in MEMS:
        for a, b in ((R0, R1), (S5, S4), (R3, R2), (S3, S0), (m[1] if m[0] != 'm0' and m[1] != SP else R4, S2), (R6, m[1] if m[0] != 'm0' and m[1] != SP else R4), (m[2] if m[0] == 'm2' else R4, S2), (S2, m[2] if m[0] == 'm2' else R0)):
            if a != b:
                F.add('pair', ('mem', 'MOV', 0, ('pair', a, b), m))
                F.add('pair', ('mem', 'MOV', 1, ('pair', a, b), m)) if not {a, b} & set(m[1:3]) else 0
        for op in ('MOV_U16', 'MOV_S16', 'MOV_S32', 'MOV', 'MOV32', 'MOV32_U16'):
            for st in (0, 1):
                for al in ('MEM_UNALIGNED', 'MEM_ALIGNED_16'):
                    if '16' in op and '16' in al: continue
                    for x in (R0, S4): F.add('unaligned', ('mem', op, st, r(x), m, al)) if not st or x not in m[1:] else 0
        for op in ('MOV_F64', 'MOV_F32'):
            for st in (0, 1):
                for x in (1, 9): F.add('unaligned', ('fmem', op, st, x, m, 'MEM_UNALIGNED'))


def sequences(F, T):
    """several operations in a row: nothing is assumed about registers between them"""
    F.add('sequence', ('op2', 'ADD', (), r(R0), r(R0), i(1)), ('op2', 'SUB', (), r(R1), r(R0), r(R1)), ('op2', 'SHL', (), r(R3), r(R1), r(R3)), ('op2', 'MUL', (), r(R0), r(R3), ('m1', S0, 0)), ('op1', 'MOV', ('m1', S0, 8), r(R0)))
    for d in (R0, R3, S5, S4):
        F.add('sequence', ('op2', 'SHL', (), r(d), r(R1), r(R2)), ('op2', 'LSHR', (), r(d), r(d), r(R2)), ('op2', 'ROTL', (), r(S2), r(d), r(R3)))
        F.add('sequence', ('op1', 'MOV', r(d), ('m1', S0, 0)), ('op2u', 'SUB', ('Z', 'SIG_LESS'), r(d), ('m1', S0, 8)), ('select', 'SIG_LESS', 0, r(d), ('m1', S0, 16), r(d)), ('op1', 'MOV', ('m1', S0, 24), r(d))) if d != R0 else 0
        F.add('sequence', ('fop1', 'CONV_F64_FROM_SW', None, f(1), r(d)), ('fop2', 'ADD_F64', f(1), f(1), f(2)), ('fop1', 'CONV_F32_FROM_F64', None, f(3), f(1)), ('fop1', 'MOV_F32', None, ('m1', S1, 0), f(3)))


def cases(tier):
    T = tier != 'quick'
    F = Fam()
    for g in (moves, bits, op0, arith, shifts_into, flags, floats, compares, memory, sequences): g(F, T)
    return F.out
