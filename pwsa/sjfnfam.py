"""Families of whole functions for P22 (sjfunc.py)."""
import itertools, random
from .sjfunc import Fn
from .sjfam import R0, R1, R2, R3, R4, R5, R6, S5, S4, S3, S2, S1, S0, SP, r, i, f, sh, NAME
from .sjmach import FULL, BASE, EXLO

NR, NS = 13, 6
EN, EF, E64 = 0x20001230, 0xfffa0010, 0x7fff12345000       # near the code; 32 bit address out of reach; 64 bit address
E2 = 0x20004560
T0 = frozenset((EN, EF, E64, E2))
HI = 0x7ffe00000000
OUT = 0x5345678                                            # results are stored here


def put(reg, k, op='MOV'): return ('op1', op, ('m0', OUT + 16 * k), r(reg))
def fput(fr, k, w='64'): return ('fop1', 'MOV_F' + w, None, ('m0', OUT + 16 * k), f(fr))
def ent(ret, args, nr=NR - NS, ns=NS, nf=15, loc=0, opts=()): return ('enter', tuple(opts), ret, tuple(args), nr, ns, nf, loc)
def S(n): return 14 - 1 - n
def mov(d, s): return ('op1', 'MOV', d, s)


def frames(T):
    """register counts x size of the local area"""
    locs = [0, 8, 1, 24, 40, 100, 120, 128, 136, 4096, 65536, 1048576]
    n = 0
    for nr in range(0, NR + 1):
        for ns in range(0, min(NS, NR - nr) + 1):
            for loc in (locs if T else [locs[(n + 4 * j) % len(locs)] for j in range(3)]):
                n += 1
                regs = [1 + k for k in range(nr)]
                sav = [13 - k for k in range(ns)]
                body = []
                for k, x in enumerate(regs + sav): body.append(mov(r(x), i(0x1000 + k)))
                if loc >= 8:
                    body += [mov(('m1', SP, 0), i(0x5151)), mov(('m1', SP, loc - 8), i(0x6161))]
                    if loc >= 24: body.append(mov(('m1', SP, 8), i(0x7171)))
                elif loc: body.append(('op1', 'MOV_U8', ('m1', SP, 0), i(0x51)))
                body.append(('icall', 'CALL', None, (), i(EN)))
                for k, x in enumerate(sav): body.append(put(x, k))
                if loc >= 8:
                    body += [mov(('m0', OUT + 0x200), ('m1', SP, loc - 8))]
                    if loc >= 16: body += [mov(('m0', OUT + 0x210), ('m1', SP, 0))]
                yield Fn('frame: %d scratch, %d saved, %d bytes' % (nr, ns, loc), [ent('W', (), nr, ns, 15 if nr % 2 else 0, loc)] + body + [('ret', 'MOV', i(n))], targets=T0) if nr else None
    # a function that only returns
    for nr in range(0, NR + 1):
        for ns in range(0, min(NS, NR - nr) + 1):
            yield Fn('frame: %d scratch, %d saved, empty' % (nr, ns), [ent(None, (), nr, ns, 0, 0)] + [mov(r(x), i(x)) for x in list(range(1, nr + 1)) + [13 - k for k in range(ns)]] + [('retvoid',)])


ATYPES = ['W', 'W_R', '32', '32_R', 'F64', 'F32', 'P']


def stores(types, base=0):
    out, sn, wn, fn = [], 0, 0, 0
    for k, t in enumerate(types):
        if t[0] == 'F':
            fn += 1
            out.append(fput(fn, base + k, t[1:]))
        else:
            x = 1 + wn if t.endswith('_R') else 13 - sn
            if not t.endswith('_R'): sn += 1
            wn += 1
            out.append(put(x, base + k, 'MOV32' if t.startswith('32') else 'MOV'))
    return out


def arguments(T):
    """parameters arrive in the documented registers"""
    rng = random.Random(7)
    seqs = [()]
    for n in range(1, 5): seqs += list(itertools.product(ATYPES if n < 3 else ATYPES[:6], repeat=n))
    for n, types in enumerate(seqs):
        if not T and len(types) == 4 and n % 2: continue
        nw = sum(t[0] != 'F' for t in types)
        ret = [None, 'W', '32', 'F64', 'F32', 'P'][n % 6]
        nr, ns = [(7, 6), (4, 4), (9, 4), (max(4, nw), 4)][n % 4]
        end = [('retvoid',)] if ret is None else [('ret', 'MOV' if ret == 'W' else 'MOV_P' if ret == 'P' else 'MOV32' if ret == '32' else 'MOV_' + ret, f(1) if ret[0] == 'F' and any(t == ret for t in types) and [t for t in types if t[0] == 'F'][0] == ret else i(n + 5) if ret[0] != 'F' else ('m0', OUT))]
        yield Fn('parameters: %s -> %s' % (' '.join(types) or 'none', ret), [ent(ret, types, nr, ns, 15, [0, 8, 64][n % 3])] + stores(types) + end, [None] * len(types))


def returns(T):
    """every result type from every kind of operand"""
    srcs = [r(R0), r(R1), r(R3), r(S0), r(S5), r(S3), i(0), i(-1), i(0x7fffffff), i(0x80000000), i(0x123456789abcdef0), ('m1', S0, 8), ('m1', R1, 0), ('m1', SP, 8), ('m2', S0, R3, 1), ('m0', OUT), ('m1', S0, 0x123456789)]
    for op in ('MOV', 'MOV_U8', 'MOV_S8', 'MOV_U16', 'MOV_S16', 'MOV_U32', 'MOV_S32', 'MOV32', 'MOV_P', 'MOV32_U8', 'MOV32_S16'):
        for s in srcs:
            yield Fn('return: %s %s' % (op, sh(s)), [ent('32' if '32' in op and op[3:5] == '32' else 'P' if op == 'MOV_P' else 'W', ('P', 'P_R', 'W', 'W_R'), 7, 6, 0, 16), mov(r(R0), r(S1)), mov(r(S5), r(S1)), mov(r(S3), r(R3)),
                                                      mov(('m1', SP, 8), r(S1)), mov(r(R3), i(0x44)) if s[0] == 'm2' else mov(r(R4), i(1)), ('ret', op, s)], [('ptr', {}), ('ptr', {}), None, None])
    for w in ('64', '32'):
        for s in (f(1), f(2), f(9), f(15), ('m1', S0, 8), ('m0', OUT), ('m1', SP, 8), ('m2', S0, R3, 1)):
            yield Fn('return: MOV_F%s %s' % (w, sh(s)), [ent('F' + w, ('P', 'F' + w, 'F' + w), 7, 6, 15, 16), ('fop1', 'MOV_F' + w, None, f(9), f(2)), ('fop1', 'MOV_F' + w, None, f(15), f(2)), ('fop1', 'MOV_F' + w, None, ('m1', SP, 8), f(2)), mov(r(R3), i(0x44)), ('ret', 'MOV_F' + w, s)],
                     [('ptr', {}), None, None])


CT = ['W', '32', 'F64', 'F32']


def calls(T):
    """C functions called with every argument list from every kind of target"""
    seqs = [s for n in range(0, 5) for s in itertools.product(CT, repeat=n)] + [('P',), ('P', 'W'), ('W', 'P', 'P', 'P')]
    kinds = ['imm', 'far', 'far64', R0, R1, R2, R3, R4, S0, S5, S3, ('m1', S4, 8), ('m1', R0, 8), ('m1', R3, 8), ('m1', R2, 8), ('m1', R1, 0x8), ('m2', S4, R6, 1), ('m1', SP, 16), ('m0', OUT + 0x800), ('m2', R2, R6, 2), ('m1', R4, 8)]
    n = 0
    for types in seqs:
        nw = sum(t[0] != 'F' for t in types)
        for kd in (kinds if T or len(types) <= 1 else [kinds[(n + 5 * j) % len(kinds)] for j in range(5)] if len(types) < 4 else [kinds[(n + 7 * j) % len(kinds)] for j in range(2)]):
            n += 1
            ret = [None, 'W', '32', 'F64', 'F32', 'P'][n % 6]
            tail = n % 4 == 3
            pre, args, par = [], [], []
            vals = {}
            for k in range(4):
                x = 1 + k
                par.append('W_R')
                if kd == x: args.append(EN if n % 2 else E64)
                elif isinstance(kd, tuple) and kd[0] != 'm0' and kd[1] == x: args.append(('ptr', {(kd[2] if kd[0] == 'm1' else 0x10 << kd[3]): E64 if n % 2 else EN}))
                else: args.append(None)
            if kd == 'imm': src = i(EN)
            elif kd == 'far': src = i(EF)
            elif kd == 'far64': src = i(E64)
            elif isinstance(kd, int):
                src = r(kd)
                if kd > 4: pre.append(mov(r(kd), i(EF if n % 2 else E64)))
            else:
                src = kd
                if kd[0] == 'm2': pre.append(mov(r(R6), i(0x10)))
                if kd[0] == 'm0': pre.append(mov(kd, i(E64)))
                elif kd[1] == SP: pre.append(mov(kd, i(E64)))
                elif kd[1] in (S4, R4):
                    pre.append(mov(r(kd[1]), i(OUT + 0x900)))
                    pre.append(mov(('m0', OUT + 0x900 + (kd[2] if kd[0] == 'm1' else 0x10 << kd[3])), i(EN)))
            keep = [S1, S2]
            pre += [mov(r(S1), i(0xa1)), mov(r(S2), i(0xa2))]
            fl = [t for t in types if t[0] == 'F']
            pre += [('fop1', 'MOV_F64' if t == 'F64' else 'MOV_F32', None, f(k + 1), ('m0', OUT + 0x300 + 16 * k)) for k, t in enumerate(fl)]
            post = [put(S1, 1), put(S2, 2)]
            if ret is None: post += [('ret', 'MOV', r(S1))]
            elif ret[0] == 'F': post += [fput(1, 3, ret[1:]), ('ret', 'MOV', i(3))]
            else: post += [('ret', 'MOV32' if ret == '32' else 'MOV_P' if ret == 'P' else 'MOV', r(R0))]
            if tail: yield Fn('tail call: %s %s' % (' '.join(types), sh(src)), [ent(ret, par, 7, 6, 15, [0, 24, 40][n % 3] if kd != ('m1', SP, 16) else 40)] + pre + [('icall', 'CALL', ret, types, src, 'tail')], args, targets=T0)
            fr = 'W' if ret is None or ret[0] == 'F' else ret
            yield Fn('call: %s %s -> %s' % (' '.join(types), sh(src), ret), [ent(fr, par, 7, 6, 15, [32, 24, 40][n % 3])] + pre + [('icall', 'CALL', ret, types, src)] + post, args, targets=T0)
    # calls through a jump record, and several in a row
    for n, types in enumerate(((), ('W',), ('W', 'W'), ('W', 'F64', 'W'), ('W', 'W', 'W', 'W'), ('F32', 'F64'))):
        for tgt in (EN, EF, E64):
            for fl in ((), ('rw',), ('tail',), ('rw', 'tail')):
                for frame in ((7, 6, 16), (4, 0, 0), (4, 1, 8), (9, 4, 0)):
                    yield Fn('call record: %s %#x %s %s' % (' '.join(types), tgt, ' '.join(fl), frame), [ent('W', ('W_R',) * 4, frame[0], frame[1], 15, frame[2])] + [('fop1', 'MOV_F64', None, f(k + 1), ('m0', OUT + 16 * k)) for k in range(2)] + [('call', 'CALL', 'W', types, tgt) + fl] +
                             ([('op2', 'ADD', (), r(R0), r(R0), i(1)), ('ret', 'MOV', r(R0))] if 'tail' not in fl else []), [None] * 4, targets=T0)
    for hi in (EXLO, HI):
        e = hi + 0x3000000
        yield Fn('calls: three in a row %#x' % hi, [ent('W', ('W', 'W'), 4, 4, 0, 16), mov(r(R0), r(S0)), ('icall', 'CALL', 'W', ('W',), i(e)), mov(r(S2), r(R0)), mov(r(R0), r(S1)), mov(r(R1), r(S2)), ('icall', 'CALL', 'W', ('W', 'W'), i(EF)), mov(('m1', SP, 8), r(R0)),
                                               mov(r(R2), ('m1', SP, 8)), mov(r(R0), i(4)), mov(r(R1), r(S0)), mov(r(R3), r(S1)), ('icall', 'CALL', '32', ('W', 'W', 'W', 'W'), i(E64)), ('op2', 'ADD32', (), r(R0), r(R0), ('m1', SP, 8)), ('op1', 'MOV_U32', r(R0), r(R0)), ('ret', 'MOV', r(R0))], [None, None], targets={e, EF, E64}, exlo=hi)
    # exact ends of the reach of a relative call or jump
    for hi in (EXLO, HI):
        for d in [(1 << 31) + x for x in range(-48, 48, 1 if T else 3)] + [-(1 << 31) + x for x in range(-48, 48, 1 if T else 3)]:
            e = hi + 0x4000 + d
            if e <= 0 or e >= 1 << 47: continue
            for kind in (('icall', 'CALL', 'W', ('W',), i(e)), ('call', 'CALL', 'W', ('W',), e), ('jmp', 'JUMP', e), ('jmp', 'EQUAL', e), ('ijump', 'JUMP', i(e))):
                j = kind[0] in ('jmp', 'ijump')
                yield Fn('reach: %s %s code%+d' % (kind[0], kind[1], e - hi), [ent('W', ('W_R', 'W'), 4, 4, 0, 0), ('op2u', 'SUB', ('Z',), r(R0), r(S0)), kind] + [('ret', 'MOV', i(2))], [None, None], targets={e}, exlo=hi)


def jumps(T):
    """labels at every distance, forward and backward, several jumps over each other"""
    mark = [0]

    def blk(l, v): return [('label', l), ('op2', 'ADD', (), r(R0), r(R0), i(v))]
    near = list(range(96, 140)) if T else list(range(112, 134))
    kinds = [('jmp', 'JUMP'), ('jmp', 'EQUAL'), ('jmp', 'SIG_LESS'), ('cmpj', 'LESS', 0, r(R0), r(S0)), ('cmpj', 'NOT_EQUAL', 1, r(R0), i(7)), ('fcmpj', 'F_EQUAL', 0, f(1), f(2)), ('fcmpj', 'UNORDERED_OR_NOT_EQUAL', 0, f(1), f(2)), ('fcmpj', 'ORDERED_EQUAL', 1, f(1), f(2))]
    A, AV = ('W', 'W_R', 'F64', 'F64'), [None] * 4

    def jm(kd, l, *fl):
        if kd[0] == 'jmp': return [('op2u', 'SUB', ('Z' if kd[1] == 'EQUAL' else kd[1],), r(R1), r(S0))] * (kd[1] != 'JUMP') + [kd + (l,) + fl]
        return [kd + (l,)]
    start = [ent('W', A, 7, 6, 15, 0), mov(r(R0), i(1))]
    for n in near + ([0, 1, 2, 5, 300, 5000] if True else []):
        for kd in kinds if T or n in (0, 300) else kinds[:3] + [kinds[3 + n % 5]]:
            yield Fn('jump: %s over %d bytes' % (' '.join(str(x) for x in kd[:2]), n), start + jm(kd, 'a') + [('pad', n)] + [('op2', 'ADD', (), r(R0), r(R0), i(16))] + blk('a', 2) + [('ret', 'MOV', r(R0))], AV)
            if kd[0] == 'jmp': yield Fn('jump: rewritable %s over %d bytes' % (kd[1], n), start + jm(kd, 'a', 'rw') + [('pad', n), ('op2', 'ADD', (), r(R0), r(R0), i(16))] + blk('a', 2) + [('ret', 'MOV', r(R0))], AV)
    # backward: a loop of three rounds with a body of n bytes
    for n in near + [0, 1, 300, 5000]:
        yield Fn('loop: %d bytes' % n, start + [mov(r(S3), i(3)), ('label', 'a'), ('op2', 'ADD', (), r(R0), r(R0), r(S0)), ('pad', n), ('op2', 'SUB', ('Z',), r(S3), r(S3), i(1)), ('jmp', 'NOT_EQUAL', 'a'), ('ret', 'MOV', r(R0))], AV)
        yield Fn('loop: exit in the middle, %d bytes' % n, start + [mov(r(S3), i(3)), ('label', 'a'), ('cmpj', 'EQUAL', 0, r(S3), i(0), 'b'), ('pad', n), ('op2', 'ADD', (), r(R0), r(R0), r(S0)), ('op2', 'SUB', (), r(S3), r(S3), i(1)), ('jmp', 'JUMP', 'a'), ('pad', n), ('label', 'b'), ('ret', 'MOV', r(R0))], AV)
        yield Fn('loop: fast call back over %d bytes' % n, start + [mov(r(S3), i(0)), ('jmp', 'JUMP', 'm'), ('label', 'p'), ('fast_enter', r(S4)), ('op2', 'ADD', (), r(R0), r(R0), i(8)), ('fast_return', r(S4)), ('pad', n), ('label', 'm'), ('jmp', 'FAST_CALL', 'p'), ('op2', 'ADD', (), r(R0), r(R0), i(1)), ('jmp', 'FAST_CALL', 'p'), ('ret', 'MOV', r(R0))], AV)
    # crossing jumps: shortening one brings the other within reach
    rng = random.Random(11)
    for n in range(900 if T else 260):
        k = rng.choice([2, 3, 4, 6])
        tot = rng.choice([118, 122, 124, 126, 127, 128, 130, 240, 60])
        ops = []
        labs = ['l%d' % j for j in range(k + 1)]
        for j in range(k):
            ops += [('label', labs[j])] if rng.random() < 0.9 else [('label', labs[j]), ('label', labs[j] + 'x')]
            ops.append(('op2', 'ADD', (), r(R0), r(R0), i(1 << j)))
            fwd = rng.choice(labs[j + 1:])
            kd = rng.choice(kinds[:5])
            if kd[1] == 'JUMP':
                ops += [('cmpj', 'EQUAL', 0, r(S0), i(j), fwd)]
                if rng.random() < 0.3: ops += [('jmp', 'JUMP', fwd)]
            else: ops += jm(kd, fwd)
            ops.append(('pad', max(0, tot - rng.randint(0, 40)) // rng.choice([1, 1, 2, 3])))
        ops += [('label', labs[k]), ('op2', 'ADD', (), r(R0), r(R0), i(0x1000)), ('ret', 'MOV', r(R0))]
        yield Fn('jumps: crossing #%d (%d blocks)' % (n, k), start + ops, AV)
    for n in range(300 if T else 100):
        # backward jumps guarded by a counter
        k = rng.choice([2, 3])
        tot = rng.choice([100, 110, 118, 122, 126, 130])
        ops = [mov(r(S3), i(3))]
        labs = ['l%d' % j for j in range(k)]
        for j in range(k):
            ops += [('label', labs[j]), ('op2', 'ADD', (), r(R0), r(R0), i(1 << 4 * j)), ('pad', max(0, tot - rng.randint(0, 60)) // k)]
        for j in range(k):
            ops += [('op2', 'SUB', ('Z', 'SIG_LESS'), r(S3), r(S3), i(1)), ('jmp', rng.choice(['NOT_EQUAL', 'SIG_GREATER_EQUAL']) if False else 'NOT_EQUAL', labs[rng.randrange(k)])] if j == 0 else [('cmpj', 'SIG_GREATER', 0, r(S3), i(0), labs[rng.randrange(k)])]
            ops += [('pad', rng.randint(0, 9))]
        yield Fn('jumps: backward #%d' % n, start + ops + [('ret', 'MOV', r(R0))], AV)
    # computed jumps
    for hi in (EXLO, HI):
        for d in (r(R1), r(S4), r(R3), ('m1', SP, 0), ('m0', OUT + 0x400), ('m1', R4, 8), ('m2', R4, R6, 2)):
            pre = [mov(r(R4), i(OUT + 0x500)), mov(r(R6), i(4))] if d[0] in ('m1', 'm2') and d[1] == R4 else []
            for typ in ('JUMP', 'FAST_CALL'):
                tail = [('ret', 'MOV', r(R0)), ('label', 'a'), ('op2', 'ADD', (), r(R0), r(R0), i(4))]
                if typ == 'FAST_CALL': tail[2:] = [('fast_enter', r(S2)), ('op2', 'ADD', (), r(R0), r(R0), i(4)), ('fast_return', r(S2))]
                else: tail += [('ret', 'MOV', r(R0))]
                for op in ('MOV_ADDR', 'MOV_ABS_ADDR'):
                    yield Fn('computed: %s %s %s %#x' % (typ, op, sh(d), hi), [ent('W', A, 7, 6, 15, 16), mov(r(R0), i(1))] + pre + [('addr', op, d, 'a'), ('ijump', typ, d), ('op2', 'ADD', (), r(R0), r(R0), i(32))] + tail, AV, exlo=hi)
                yield Fn('computed: %s before %s %#x' % (typ, sh(d), hi), [ent('W', A, 7, 6, 15, 16), mov(r(R0), i(1))] + pre + [('jmp', 'JUMP', 'm')] + ([('label', 'a'), ('fast_enter', r(S2)), ('op2', 'ADD', (), r(R0), r(R0), i(4)), ('fast_return', r(S2))] if typ == 'FAST_CALL' else [('label', 'a'), ('ret', 'MOV', i(77))]) +
                         [('label', 'm'), ('addr', 'MOV_ADDR', d, 'a'), ('ijump', typ, d), ('ret', 'MOV', r(R0))], AV, exlo=hi)
        for e in (EN, EF, E64, hi + 0x5000000):
            for d in (r(R0), r(S4), r(R4), ('m1', S1, 8), ('m1', SP, 8), ('m0', OUT)):
                for op in ('MOV_ADDR', 'MOV_ABS_ADDR', 'ADD_ABS_ADDR'):
                    yield Fn('address: %s %s %#x %#x' % (op, sh(d), e, hi), [ent('W', ('W', 'P'), 7, 6, 15, 16), mov(d, r(S0)), ('addr', op, d, e), ('ret', 'MOV', d)], [None, ('ptr', {})], exlo=hi)
                    if d[0] != 'm0': yield Fn('address: of a label, %s %s %#x %#x' % (op, sh(d), e, hi), [ent('W', ('W', 'P'), 7, 6, 15, 16), mov(d, r(S0)), ('addr', op, d, 'q'), ('pad', 5), ('label', 'q'), ('op2', 'ADD', (), r(R1), r(R1), i(1)), ('ret', 'MOV', d)], [None, ('ptr', {})], exlo=hi) if e == EN else None
    # the label right after the place that takes an address, and jumps back to it
    for n in (0, 1, 60) + tuple(range(118, 132)):
        for op, tgt in (('MOV_ADDR', 'q'), ('MOV_ABS_ADDR', 'q'), ('MOV_ABS_ADDR', EN), ('ADD_ABS_ADDR', EF)):
            for d in (r(R1), r(R4)):
                yield Fn('address before a label: %s %s %s, %d bytes, then a jump back' % (op, sh(d), tgt if isinstance(tgt, str) else hex(tgt), n), [ent('W', A, 7, 6, 15, 0), mov(r(R0), i(0)), mov(r(S4), i(3)), mov(d, i(0)), ('addr', op, d, tgt), ('label', 'q'), ('op2', 'ADD', (), r(R0), r(R0), i(1)), ('cmpj', 'SIG_GREATER', 0, r(R0), r(S4), 'x'), ('pad', n), ('jmp', 'JUMP', 'q'), ('label', 'x'), ('ret', 'MOV', r(R0))], AV)
    for al in range(5):
        for n in (0, 1, 3, 7, 10, 15):
            yield Fn('aligned label: %d after %d' % (al, n), [ent('W', A, 7, 6, 15, 0), mov(r(R0), i(1)), ('cmpj', 'EQUAL', 0, r(S0), i(3), 'b'), ('jmp', 'JUMP', 'a'), ('pad', n), ('alabel', 'a', al), ('op2', 'ADD', (), r(R0), r(R0), i(4)), ('label', 'b'), ('ret', 'MOV', r(R0))], AV)
            yield Fn('aligned label: %d reached, after %d' % (al, n), [ent('W', A, 7, 6, 15, 0), mov(r(R0), i(1)), ('pad', n), ('alabel', 'a', al), ('op2', 'ADD', (), r(R0), r(R0), i(4)), ('cmpj', 'SIG_LESS', 0, r(R0), i(9), 'a'), ('ret', 'MOV', r(R0))], AV)


def fastcalls(T):
    """light calls, return address in every kind of place"""
    for d in (r(R0), r(R1), r(R3), r(R4), r(S5), r(S4), r(S0), ('m1', SP, 0), ('m1', SP, 24), ('m1', S1, 8), ('m0', OUT + 0x400), ('m2', S1, R6, 1), ('m1', S1, 0x123456789)):
        for fr in ((7, 6, 32), (7, 5, 40)):
            if d == r(S5) and fr[1] == 5: continue
            yield Fn('fast call: %s %s' % (sh(d), fr), [ent('W', ('W', 'P'), fr[0], fr[1], 15, fr[2]), mov(r(R6), i(8)), mov(r(R2), i(1)), ('jmp', 'FAST_CALL', 'a'), ('op2', 'ADD', (), r(R2), r(R2), i(2)), ('jmp', 'FAST_CALL', 'b'), ('ret', 'MOV', r(R2)),
                                                       ('label', 'a'), ('fast_enter', d), ('op2', 'ADD', (), r(R2), r(R2), i(16)), ('fast_return', d), ('label', 'b'), ('fast_enter', r(S3)), ('jmp', 'FAST_CALL', 'a'), ('op2', 'SHL', (), r(R2), r(R2), i(8)), ('fast_return', r(S3))], [None, ('ptr', {})])
            yield Fn('return address: %s %s' % (sh(d), fr), [ent('W', ('W', 'P'), fr[0], fr[1], 15, fr[2]), mov(r(R6), i(8)), ('getret', d), ('ret', 'MOV', d)], [None, ('ptr', {})])
            yield Fn('return to: %s %s' % (sh(d), fr), [ent('W', ('W', 'P'), fr[0], fr[1], 15, fr[2]), mov(r(R6), i(8)), mov(d, i(EN)), ('op1', 'MOV', r(R0), i(0x99)) if d != r(R0) else ('op0', 'NOP'), ('retto', d)], [None, ('ptr', {})], targets=T0)
    for nr, ns in ((0, 0), (1, 0), (7, 0), (8, 0), (13, 0), (1, 1), (4, 4), (7, 6), (9, 2)):
        for loc in (0, 8, 16, 24, 4096):
            yield Fn('return to: fixed address, %d %d %d' % (nr, ns, loc), [ent('W', (), nr, ns, 0, loc)] + [mov(r(x), i(x)) for x in list(range(1, nr + 1)) + [13 - k for k in range(ns)]] + [('retto', i(EF))] , targets=T0) if nr else None
            yield Fn('return address: frame %d %d %d' % (nr, ns, loc), [ent('W', (), nr, ns, 0, loc), ('getret', r(R0)), ('ret', 'MOV', r(R0))], targets=T0) if nr else None
            yield Fn('local base: frame %d %d %d' % (nr, ns, loc), [ent('W', (), nr, ns, 0, loc), ('lbase', r(R0), 8), mov(('m1', R0, loc - 16), i(5)), mov(r(R0), ('m1', SP, loc - 8)), ('ret', 'MOV', r(R0))]) if nr and loc >= 8 else None
    for d in (r(R0), r(S4), r(R4), ('m1', SP, 8)):
        for off in (0, 8, 16, 24, -0x1000, 0x123456789a):
            yield Fn('local base: %s %#x' % (sh(d), off), [ent('W', ('W',), 7, 6, 15, 40), mov(('m1', SP, 24), r(S0)), ('lbase', d, off), mov(r(R1), d), ('op2', 'SUB', (), r(R1), r(R1), i(off)), mov(r(R0), ('m1', R1, 24)), ('ret', 'MOV', r(R0))], [None])


def rewriting(T):
    """jumps, addresses and constants changed after the code was generated"""
    V = [0, 1, -1, 5, 0x7f, -0x80, 0xff, 0x7fffffff, -0x80000000, 0x80000000, 0xffffffff, 0x123456789abcdef0]
    for hi in (EXLO, HI):
        for op in ('MOV', 'MOV32', 'MOV_S32', 'MOV_U8', 'MOV32_U8'):
            for d in (r(R0), r(S4), r(R4), r(R3), ('m1', SP, 8), ('m1', S1, 8), ('m0', OUT), ('m1', S1, 0x123456789)):
                for n, v in enumerate(V):
                    if 'U8' in op and not -0x100 <= v <= 0xff: continue
                    rd = ('ret', 'MOV32' if op[:5] == 'MOV32' else 'MOV', d) if d[0] == 'r' else ('ret', {'MOV': 'MOV', 'MOV32': 'MOV32', 'MOV_S32': 'MOV_S32', 'MOV_U8': 'MOV_U8', 'MOV32_U8': 'MOV32_U8'}[op], d)
                    ret = '32' if op[:5] == 'MOV32' else 'W'
                    w = V[(n + 5) % len(V)]
                    if 'U8' in op: w = [0x80, 1, -1, 0xff][n % 4]
                    if hi == EXLO or n % 3 == 0: yield Fn('constant: %s %s %#x' % (op, sh(d), v), [ent(ret, ('W', 'P'), 7, 6, 0, 16), ('const', op, d, v, 'c'), rd], [None, ('ptr', {})], exlo=hi)
                    yield Fn('constant: %s %s %#x set to %#x' % (op, sh(d), v, w), [ent(ret, ('W', 'P'), 7, 6, 0, 16), ('pad', n), ('const', op, d, v, 'c'), rd], [None, ('ptr', {})], exlo=hi, after=[('const', 'c', op, w)])
        A = ('W', 'W_R')          # the second parameter is in R1
        for t1, t2 in (('a', 'b'), ('b', 'a'), ('a', EN), (EN, 'a'), (EN, E64), (E64, EN), ('a', E64), (E64, 'b'), (EF, 'b'), ('a', EF)):
            for kd in ('JUMP', 'EQUAL', 'NOT_EQUAL', 'SIG_LESS'):
                for n in (0, 5, 130):
                    yield Fn('rewritten jump: %s %s -> %s over %d at %#x' % (kd, t1, t2, n, hi), [ent('W', A, 7, 6, 0, 0), ('op2u', 'SUB', ('Z' if 'EQUAL' in kd else kd if kd != 'JUMP' else 'Z',), r(R1), r(S0)), ('jmp', kd, t1, 'rw', ('name', 'j')), ('pad', n), ('ret', 'MOV', i(1)), ('label', 'a'), ('ret', 'MOV', i(2)), ('pad', n), ('label', 'b'), ('ret', 'MOV', i(3))],
                             [None, None], exlo=hi, after=[('jump', 'j', t2)], targets=T0) if hi == EXLO or n == 5 else None
            if isinstance(t1, int) and isinstance(t2, int):
                for fl in (('rw',), ('rw', 'tail')):
                    yield Fn('rewritten call: %#x -> %#x %s at %#x' % (t1, t2, fl, hi), [ent('W', A, 7, 6, 0, 16), mov(r(R0), r(R1)), ('call', 'CALL', 'W', ('W',), t1) + fl + (('name', 'j'),)] + ([('op2', 'ADD', (), r(R0), r(R0), i(1)), ('ret', 'MOV', r(R0))] if 'tail' not in fl else []), [None, None], exlo=hi, after=[('jump', 'j', t2)], targets=T0)
            for d in (r(R0), r(S4), ('m1', SP, 8)): 
                if isinstance(t2, int) or isinstance(t1, str):
                    pass


def internal(T):
    """functions compiled together that call each other, C and register argument convention"""
    n = 0
    for typ in ('CALL', 'CALL_REG_ARG'):
        for nargs in range(0, 5):
            for (nr, ns, loc) in ((7, 6, 0), (4, 2, 24), (9, 4, 8), (4, 0, 0), (13, 0, 16), (5, 3, 40)):
                for keep in ((0, 1, 2, 3) if typ == 'CALL_REG_ARG' else (0,)):
                    for tail in (0, 1):
                        n += 1
                        if not T and n % 2 and nargs in (1, 3): continue
                        if keep > ns: continue
                        if tail and keep: continue
                        ra = ('ENTER_REG_ARG',) if tail and typ == 'CALL_REG_ARG' else ()
                        opts = (('ENTER_REG_ARG',) + ((keep,) if keep else ())) if typ == 'CALL_REG_ARG' else ()
                        types = ('W',) * nargs
                        par = ('W_R',) * nargs
                        caller = [ent('W', ('W_R',) * 4, 5, 4, 3, 16, ra), mov(r(S1), i(0x11)), mov(r(S2), i(0x22)), mov(r(S3), i(0x33)), mov(r(S0), r(R0)), mov(('m1', SP, 8), i(0x44)), ('call', typ, 'W', types, 'g') + (('tail',) if tail else ())]
                        if not tail: caller += [put(S0, 0), put(S1, 1), put(S2, 2), put(S3, 3), mov(r(R1), ('m1', SP, 8)), ('op2', 'ADD', (), r(R0), r(R0), r(R1)), ('ret', 'MOV', r(R0))]
                        callee = [('label', 'g'), ent('W', par, max(nr, nargs), ns, 3, loc, opts)]
                        callee += [put(1 + k, 8 + k) for k in range(nargs)]
                        callee += [('op2', 'ADD', (), r(13 - k), r(13 - k), i(1)) if k < keep else mov(r(13 - k), i(0x60 + k)) for k in range(ns)]
                        callee += [mov(r(1 + k), i(0x70 + k)) for k in range(max(nr, nargs))]
                        if loc: callee += [mov(('m1', SP, loc - 8), i(1))]
                        if loc == 24: callee += [('icall', 'CALL', None, (), i(EN))]
                        callee += [('ret', 'MOV', i(0x500 + n))]
                        yield Fn('%s: %d arguments, callee %d %d %d keep %d%s' % (typ, nargs, nr, ns, loc, keep, ' tail' if tail else ''), caller + callee, [None] * 4, targets=T0, regarg=True if ra else None)
                        if typ == 'CALL' and not tail: yield Fn('recursion: %d arguments, %d %d %d' % (nargs, nr, ns, loc), [('label', 'g'), ent('W', ('W_R',) * max(1, nargs), max(nr, 4), max(1, min(ns, 6)), 3, loc), mov(r(S0), r(R0)), ('cmpj', 'EQUAL', 0, r(R0), i(0), 'z'), ('op2', 'SUB', (), r(R0), r(R0), i(1)),
                                                              ('call', 'CALL', 'W', ('W',) * max(1, nargs), 'g'), ('op2', 'ADD', (), r(R0), r(R0), r(S0)), ('ret', 'MOV', r(R0)), ('label', 'z'), ('ret', 'MOV', i(0x100))], [3] + [None] * (max(1, nargs) - 1)) if not (max(nr, 4) + max(1, min(ns, 6)) > NR) else None
    # through a register, a memory cell
    for typ in ('CALL', 'CALL_REG_ARG'):
        for src in (r(R1), r(R2), r(R3), r(R4), r(S2), ('m1', SP, 8), ('m0', OUT + 0x400)):
            for tail in (0, 1):
                opts = ('ENTER_REG_ARG',) if typ == 'CALL_REG_ARG' else ()
                pre = [('addr', 'MOV_ADDR', src, 'g')]
                yield Fn('%s: through %s%s' % (typ, sh(src), ' tail' if tail else ''), [ent('W', ('W_R',) * 4, 5, 4, 3, 16, opts if tail else ()), mov(r(S1), i(0x11))] + pre + [('icall', typ, 'W', ('W',), src) + (('tail',) if tail else ())] + ([put(S1, 1), ('ret', 'MOV', r(R0))] if not tail else []) +
                         [('label', 'g'), ent('W', ('W_R',), 7, 6, 3, 8, opts), mov(r(S1), i(5)), mov(r(S2), i(6)), mov(r(S5), i(6)), ('op2', 'ADD', (), r(R0), r(R0), i(7)), ('ret', 'MOV', r(R0))], [None] * 4, regarg=True if tail and opts else None)
    # called by sljit code
    for nargs in range(0, 5):
        for (nr, ns, loc) in ((7, 6, 0), (4, 3, 24), (9, 4, 8), (4, 0, 0), (13, 0, 16)):
            for keep in range(0, min(3, ns) + 1):
                body = [put(1 + k, k) for k in range(nargs)] + [('op2', 'ADD', (), r(13 - k), r(13 - k), i(3)) if k < keep else mov(r(13 - k), i(0x60 + k)) for k in range(ns)] + [mov(r(1 + k), i(0x70 + k)) for k in range(nr)]
                yield Fn('register arguments: %d, frame %d %d %d keep %d' % (nargs, nr, ns, loc, keep), [ent('W', ('W_R',) * nargs, nr, ns, 0, loc, ('ENTER_REG_ARG',) + ((keep,) if keep else ()))] + body + [('icall', 'CALL', None, (), i(EN))] * (loc > 0) + [('ret', 'MOV', i(9))], [None] * nargs, regarg=True, targets=T0)
    # code without an entry of its own
    for (nr, ns, loc) in ((7, 6, 0), (4, 2, 24), (9, 4, 8), (4, 0, 0), (13, 0, 16), (1, 1, 4096)):
        yield Fn('context: %d %d %d' % (nr, ns, loc), [ent('W', (), nr, ns, 0, loc), mov(r(R0), i(5)), ('jmp', 'JUMP', 'x'), ('context', (), 'W', (), nr, ns, 0, loc), ('label', 'x'), ('op2', 'ADD', (), r(R0), r(R0), i(5)), ('ret', 'MOV', r(R0))])
    # long functions: many buffers
    for n in (700, 1500):
        ops = []
        for k in range(n): ops.append(('op2', 'ADD', (), r(R0), r(R0), i(k * 0x10001)) if k % 3 else ('op1', 'MOV', ('m1', SP, 8), r(R0)))
        yield Fn('long: %d operations' % n, [ent('W', ('W_R',), 7, 6, 0, 16), ('cmpj', 'EQUAL', 0, r(R0), i(3), 'z')] + ops[:n // 2][:250] + [('pad', 6000)] + ops[-250:] + [('label', 'z'), ('ret', 'MOV', r(R0))], [None])


FAMILIES = (frames, arguments, returns, calls, jumps, fastcalls, rewriting, internal)


def cases(tier):
    T = tier != 'quick'
    out, seen = [], {}
    for g in FAMILIES:
        for c in g(T):
            if c is None: continue
            k = seen[c.name] = seen.get(c.name, 0) + 1
            if k > 1: c.name += ' (%d)' % k
            out.append(c)
    return out
