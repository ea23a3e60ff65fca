"""Partition of the translator's inputs: wasm fragments that put every instruction's operands into every kind of
location the translator distinguishes (constant, argument slot, saved register, local-storage slot, scratch
register, home slot, indirect memory operand, condition flags), under several amounts of register pressure
and every configuration.  Immediates, argument and memory contents stay unknown.
"""
from .gen import *
from .absint import mkcast, mklin, mkbin, mask
from . import spec as SP

T4 = [I32, I64, F32, F64]
T5 = T4 + [REF]
PARAMS = [I32, I64, F32, F64, REF, I32, I64, F32, F64, REF]
LOCALS = [I32, I64, REF, I32, I32, I32, I64, REF, F32, F64]
NP = len(PARAMS)
TYPES = [([], [t]) for t in T5] + [([], []), ([I32, I64, F32, F64, REF], [I32]), ([I32, I64, F64], [F64, I32, I64]), ([I32], [I32, F32]), ([F64, I32, I64, I32], []), ([I64], [I64]), ([F32, I32], [F64])]
TI = {'m5': 7, 'm3': 8, 'i': 9, 'v4': 10, 'v': 6, 'l': 11, 'fi': 12}
for _k, _t in enumerate(T5): TI[_t] = _k + 1
FUNCS = [(k + 1, None) for k in range(len(TYPES))]      # function index = type index
STUBT = [([], [REF]), ([I32, I32], [REF]), ([I64], [REF]), ([REF], [I64])]
STUBN = ['get_self_runtime_context', 'ref_from_index', 'ref_from_i64', 'i64_from_ref']
NB = len(TYPES)
ALLTYPES = TYPES + STUBT
ALLFUNCS = FUNCS + [(NB + 1 + k, n) for k, n in enumerate(STUBN)]
FSTUB = {n: NB + 1 + k for k, n in enumerate(STUBN)}
GL = [I32, I64, F32, F64, REF, I32, I64, F32, F64, REF]


def env(mem=('grow',), tables=1, align=0, misc=2, results=(), params=PARAMS, locals=LOCALS):
    return Env(params=params, results=list(results), locals=locals, memories=mem, tables=tables, globals=GL,
               types=ALLTYPES, funcs=ALLFUNCS, align=align, misc=misc)


def sym(bits, n): return ('s', bits, n)


def param(t, k=0): return PARAMS.index(t, 5 if k else 0)
def slocal(t, k=0): return NP + ({I32: 0, I64: 1, REF: 2}[t] if not k else 3)
def mlocal(t): return NP + {I32: 5, I64: 6, REF: 7, F32: 8, F64: 9}[t]
def glob(t, k=0): return GL.index(t, 5 if k else 0)


def const(t, name):
    if t == I32: return [OP(0x41), IMM(sym(64, name))]
    if t == I64: return [OP(0x42), IMM(sym(64, name))]
    if t == F32: return [OP(0x43)] + RAW(sym(32, name), 4)
    if t == F64: return [OP(0x44)] + RAW(sym(64, name), 8)
    return [OP(0xd0), IMM(0x6f)]


def get(n): return [OP(0x20), IMM(n)]
def lset(n): return [OP(0x21), IMM(n)]


KINDS = {
    I32: ['imm', 'par', 'sl', 'ml', 'glob', 'call', 'msz', 'eqz', 'load', 'blk'],
    I64: ['imm', 'par', 'sl', 'ml', 'glob', 'call', 'load', 'blk'],
    F32: ['imm', 'par', 'ml', 'glob', 'call', 'load', 'blk'],
    F64: ['imm', 'par', 'ml', 'glob', 'call', 'load', 'blk'],
    REF: ['imm', 'par', 'sl', 'ml', 'glob', 'call', 'blk'],
}
FEW = {I32: ['imm', 'par', 'sl', 'glob', 'eqz'], I64: ['imm', 'par', 'sl', 'glob'], F32: ['imm', 'par', 'glob'], F64: ['imm', 'par', 'glob'], REF: ['imm', 'par', 'sl', 'glob']}


def produce(t, kind, k=0):
    """(prelude, code)"""
    if kind == 'imm': return [], const(t, 'k%d' % k)
    if kind == 'par': return [], get(param(t, k))
    if kind == 'sl':
        n = slocal(t, k if t == I32 else 0)
        return get(param(t, k)) + lset(n), get(n)
    if kind == 'ml':
        n = mlocal(t)
        return get(param(t, k)) + lset(n), get(n)
    if kind == 'glob': return [], [OP(0x23), IMM(glob(t, k))]
    if kind == 'call': return [], [OP(0x10), IMM(TI[t])]
    if kind == 'msz': return [], [OP(0x3f), IMM(0)]
    if kind == 'eqz': return [], get(param(I32, k)) + [OP(0x45)]
    if kind == 'lt': return [], get(param(I64, 0)) + get(param(I64, 1)) + [OP(0x53)]
    if kind == 'flt': return [], get(param(F64, 0)) + get(param(F64, 1)) + [OP(0x63)]
    if kind == 'load':
        return [], get(param(I32, k)) + [OP({I32: 0x28, I64: 0x29, F32: 0x2a, F64: 0x2b}[t]), IMM(2), IMM(16 + k)]
    if kind == 'blk': return [], [OP(2), B(t)] + get(param(t, k)) + [OP(0xb)]
    if kind == 'rf': return [], [OP(0xd2), IMM(2)]
    raise KeyError(kind)


def pressure(n, t=None):
    """n operands in scratch registers below the fragment"""
    code = []
    for j in range(n):
        code += [OP(0x23), IMM(glob(t or (I32 if j % 2 else I64), j % 2))]
    return code


def pressmix(n):
    """int registers, float registers and argument-slot operands"""
    code = []
    for j in range(n):
        code += [OP(0x23), IMM(glob(T4[j % 4], j & 1))]
    return code


def drops(n): return [OP(0x1a)] * n


def sig(op):
    """(operand types, result type) of a numeric opcode"""
    if op == 0x45: return [I32], I32
    if op == 0x50: return [I64], I32
    if 0x46 <= op <= 0x4f: return [I32, I32], I32
    if 0x51 <= op <= 0x5a: return [I64, I64], I32
    if 0x5b <= op <= 0x60: return [F32, F32], I32
    if 0x61 <= op <= 0x66: return [F64, F64], I32
    if 0x67 <= op <= 0x69: return [I32], I32
    if 0x6a <= op <= 0x78: return [I32, I32], I32
    if 0x79 <= op <= 0x7b: return [I64], I64
    if 0x7c <= op <= 0x8a: return [I64, I64], I64
    if 0x8b <= op <= 0x91: return [F32], F32
    if 0x92 <= op <= 0x98: return [F32, F32], F32
    if 0x99 <= op <= 0x9f: return [F64], F64
    if 0xa0 <= op <= 0xa6: return [F64, F64], F64
    c = SP.CONV[op]
    o = c[1]
    i = {0xa7: [I64], 0xac: [I32], 0xad: [I32], 0xb6: [F64], 0xbb: [F32], 0xbc: [F32], 0xbd: [F64], 0xbe: [I32], 0xbf: [I64]}.get(op)
    if i is None:
        if c[0] in ('fptosi', 'fptoui'): i = [F32 if c[2] == 32 else F64]
        elif c[0] in ('sitofp', 'uitofp'): i = [I32 if c[2] == 32 else I64]
        else: i = [o]
    return i, o


END = [OP(0xb)]


def operands(ts, kinds, same=False):
    pre, code = [], []
    for j, (t, k) in enumerate(zip(ts, kinds)):
        p, c = produce(t, k, 0 if same else j & 1)
        pre += p
        code += c
    return pre, code


BITCOUNT = (0x67, 0x68, 0x69, 0x79, 0x7a, 0x7b)      # value classes of their own in bitclasses


def numeric(tier, ops=None, configs=None):
    """every numeric instruction x operand locations x register pressure"""
    deep = tier == 'thorough'
    for op in ops or range(0x45, 0xc5):
        ts, r = sig(op)
        helper = False
        for al, misc in configs or ([(0, 2), (1, 3)] if not deep else [(0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 2), (1, 3)]):
            base = al == 0 and misc == 2
            e = env(align=al, misc=misc)
            if len(ts) == 1:
                combos = [(k,) for k in (KINDS if base or deep else FEW)[ts[0]]]
            else:
                ks = (KINDS if deep and base else FEW)
                combos = [(a, b) for a in ks[ts[0]] for b in ks[ts[1]]]
                if base and not deep:
                    combos += [(a, 'glob') for a in KINDS[ts[0]] if a not in FEW[ts[0]]] + [('glob', a) for a in KINDS[ts[1]] if a not in FEW[ts[1]]]
            if op in BITCOUNT: combos = [c for c in combos if c[0] in ('par', 'glob', 'sl')] if base else []
            for ks in combos:
                if op in BITCOUNT: pr = [0]
                else: pr = [0, 2, 5] if base and not deep else [0] if not deep else [0, 1, 3, 4, 6]
                if base and not deep and len(ts) == 2 and op not in BITCOUNT and not (set(ks) & {'glob', 'sl'}): pr = [0, 5]
                for n in pr:
                    pre, c = operands(ts, ks)
                    yield e, pre + pressure(n) + c + [OP(op)] + drops(n + 1) + END, '%s(%s)/p%d/a%dm%d' % (SP.NAMES[op], ','.join(ks), n, al, misc)
                if len(set(ks)) == 1 and len(ks) == 2 and ks[0] in ('par', 'sl', 'ml', 'glob') and (base or deep):
                    pre, c = operands(ts, ks, True)
                    yield e, pre + c + [OP(op)] + drops(1) + END, '%s(%s,same)/a%dm%d' % (SP.NAMES[op], ks[0], al, misc)


def bitclasses(tier):
    """value classes that cover all inputs of clz, ctz, popcnt, rotl, rotr"""
    for op in (0x67, 0x68, 0x69, 0x79, 0x7a, 0x7b):
        w = 32 if op < 0x79 else 64
        ts, r = sig(op)
        k = (op - 0x67) % 18
        cl = [0] if k < 2 else []
        if k == 0:
            for b in range(w): cl.append(mkbin('add', w, 1 << b, mkbin('and', w, (1 << b) - 1, sym(w, 'low'))))
        elif k == 1:
            for b in range(w): cl.append(mklin(w, 1 << b, [(sym(w, 'high'), (2 << b) & mask(w))]))
        else:
            cl.append(mklin(w, 0, [(('zext', w, sym(1, 'b%d' % i)), 1 << i) for i in range(w)]))
        for j, c in enumerate(cl):
            for n in ([0] if tier == 'quick' else [0, 3]):
                e = env(params=ts, locals=[], mem=())
                e.pvals = [c]
                yield e, pressure(n) + get(0) + [OP(op)] + drops(n + 1) + END, '%s/class %d/p%d' % (SP.NAMES[op], j, n)
    for op in (0x77, 0x78, 0x89, 0x8a):
        w = 32 if op < 0x79 else 64
        ts, r = sig(op)
        for k in range(w):
            e = env(params=ts, locals=[], mem=())
            e.pvals = [None, mklin(w, k, [(sym(w, 'hi'), w)])]
            yield e, get(0) + get(1) + [OP(op), OP(0x1a)] + END, '%s/count %d' % (SP.NAMES[op], k)


OFF = ('zext', 64, ('s', 32, 'off'))


def memarg(k, off=OFF, align=2):
    if k: return [IMM(align | 0x40), IMM(k), IMM(off)]
    return [IMM(align), IMM(off)]


LOADT = {o: v[3] for o, v in SP.LOADS.items()}
STORET = {0x36: I32, 0x37: I64, 0x38: F32, 0x39: F64, 0x3a: I32, 0x3b: I32, 0x3c: I64, 0x3d: I64, 0x3e: I64}


def memory(tier):
    deep = tier == 'thorough'
    mems = [(('grow',), 0), (('fixed',), 0), (('raw',), 0), (('grow', 'grow'), 1), (('grow', 'fixed'), 1), (('grow', 'raw'), 1), (('raw', 'grow'), 1)]
    for mem, k in mems:
        it = I64 if mem[k] == 'raw' else I32      # native memory has 64-bit indices
        for al, misc in ([(0, 2), (0, 3), (1, 3)] if not deep else [(0, 0), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3)]):
            e = env(mem=mem, align=al, misc=misc)
            tag = '%s[%d]/a%dm%d' % ('+'.join(mem), k, al, misc)
            base = al == 0 and misc == 2
            for op in SP.LOADS:
                for kd in (KINDS[it] if base else FEW[it]):
                    if kd in ('msz', 'load') and mem[0] == 'raw': continue
                    for n in ((0, 3) if base else (0,)) if not deep else (0, 2, 5):
                        pre, c = operands([it], [kd])
                        yield e, pre + pressure(n) + c + [OP(op)] + memarg(k) + drops(n + 1) + END, '%s(%s)/p%d/%s' % (SP.NAMES[op], kd, n, tag)
                        if k == 1 and n == 0 and kd in ('par', 'glob'):
                            c0 = operands([I64 if mem[0] == 'raw' else I32], [kd])[1]
                            # memory 0 is the one whose base is kept in a register
                            yield e, pre + c0 + [OP(op)] + memarg(0) + drops(1) + c + [OP(op)] + memarg(1) + c0 + [OP(op)] + memarg(0) + drops(2) + END, '%s(%s) both memories/%s' % (SP.NAMES[op], kd, tag)
            for op, t in STORET.items():
                ak = FEW[it]; vk = FEW[t]
                if base and deep: ak, vk = KINDS[it], KINDS[t]
                for a in ak:
                    for v in vk:
                        if 'load' in (a, v) and mem[0] == 'raw': continue
                        for n in (0, 4) if base else (0,):
                            pre, c = operands([it, t], [a, v])
                            yield e, pre + pressure(n) + c + [OP(op)] + memarg(k) + drops(n) + END, '%s(%s,%s)/p%d/%s' % (SP.NAMES[op], a, v, n, tag)
                if base:
                    for v in KINDS[t]:
                        if v == 'load' and mem[0] == 'raw': continue
                        pre, c = operands([it, t], ['glob', v])
                        yield e, pre + c + [OP(op)] + memarg(k) + END, '%s(glob,%s)/%s' % (SP.NAMES[op], v, tag)
            # constant offsets and addresses
            for off in (0, 1, 0x7fffffff, 0x80000000, 0xffffffff):
                for op in (0x28, 0x2d, 0x37, 0x2b):
                    if op in SP.LOADS:
                        yield e, get(param(it)) + [OP(op)] + memarg(k, off) + drops(1) + END, '%s offset %#x/%s' % (SP.NAMES[op], off, tag)
                        yield e, [OP(0x42 if it == I64 else 0x41), IMM(mask(64)), OP(op)] + memarg(k, off) + drops(1) + END, '%s const address offset %#x/%s' % (SP.NAMES[op], off, tag)
                    else:
                        yield e, get(param(it)) + get(param(STORET[op])) + [OP(op)] + memarg(k, off) + END, '%s offset %#x/%s' % (SP.NAMES[op], off, tag)


def moved(tier):
    """memory accesses around instructions after which a growable memory may have moved"""
    calls = {'call': [OP(0x10), IMM(TI['v'])], 'call+res': [OP(0x10), IMM(TI[I64]), OP(0x1a)], 'call_indirect': get(param(I32)) + [OP(0x11), IMM(TI['v']), IMM(0)],
             'grow': get(param(I32)) + [OP(0x40), IMM(0), OP(0x1a)],
             'call5': get(param(I32)) + get(param(I64)) + get(param(F32)) + get(param(F64)) + get(param(REF)) + [OP(0x10), IMM(TI['m5']), OP(0x1a)]}
    for mem, k in [(('grow',), 0), (('fixed',), 0), (('raw',), 0), (('grow', 'grow'), 0), (('grow', 'grow'), 1), (('raw', 'grow'), 1), (('grow', 'raw'), 1)]:
        it = lambda kk: I64 if mem[kk] == 'raw' else I32       # native memory has 64-bit indices
        ix = lambda kk, j=0: get(param(it(kk), j))
        ld = lambda k=0: ix(k) + [OP(0x28)] + memarg(k)
        st = lambda k=0: ix(k) + get(param(I64)) + [OP(0x37)] + memarg(k)
        for al in (0, 1):
            e = env(mem=mem, align=al)
            tag = '%s[%d]/a%d' % ('+'.join(mem), k, al)
            for n, c in calls.items():
                if n == 'grow' and mem[0] == 'raw': continue
                for kk in sorted({0, k}):
                    for pre in ([], ld(kk) + drops(1), ld(1 - kk) + drops(1) if len(mem) > 1 else None):
                        if pre is None: continue
                        t2 = '%s [%d]%s' % (n, kk, ' after load %d' % (kk if pre == ld(kk) + drops(1) else 1 - kk) if pre else '')
                        yield e, pre + c + ld(kk) + drops(1) + END, '%s; load/%s' % (t2, tag)
                        yield e, pre + c + st(kk) + END, '%s; store/%s' % (t2, tag)
                        yield e, pre + get(param(I32, 1)) + [OP(4), B(0x40)] + c + END + ld(kk) + drops(1) + END, 'if %s end; load/%s' % (t2, tag)
                        yield e, pre + get(param(I32, 1)) + [OP(4), B(0x40)] + c + [OP(5)] + ld(kk) + drops(1) + END + ld(kk) + drops(1) + END, 'if %s else load end; load/%s' % (t2, tag)
                        yield e, pre + get(param(I32, 1)) + [OP(4), B(0x40), OP(1), OP(5)] + c + END + ld(kk) + drops(1) + END, 'if else %s end; load/%s' % (t2, tag)
                        yield e, pre + [OP(3), B(0x40)] + ld(kk) + drops(1) + c + get(param(I32, 1)) + [OP(0xd), IMM(0)] + END + ld(kk) + drops(1) + END, 'loop load %s br_if end; load/%s' % (t2, tag)
                        yield e, pre + [OP(2), B(0x40)] + get(param(I32, 1)) + [OP(0xd), IMM(0)] + c + END + ld(kk) + drops(1) + END, 'block br_if %s end; load/%s' % (t2, tag)
                        yield e, pre + [OP(2), B(0x40)] + c + get(param(I32, 1)) + [OP(0xd), IMM(0)] + END + ld(kk) + drops(1) + END, 'block %s br_if end; load/%s' % (t2, tag)
                    # the address computed before the call
                    yield e, ix(kk) + ix(kk, 1) + [OP(0x6a if it(kk) == I32 else 0x7c)] + c + [OP(0x28)] + memarg(kk) + drops(1) + END, 'address; %s; load [%d]/%s' % (n, kk, tag)
                    # data-moving instructions after the call
                    yield e, c + ix(kk) + ix(kk, 1) + ix(kk) + [OP(0xfc), B(10), IMM(kk), IMM(kk)] + END, '%s; memory.copy [%d]/%s' % (n, kk, tag)
                    yield e, c + ix(kk) + get(param(I32, 1)) + ix(kk) + [OP(0xfc), B(11), IMM(kk)] + END, '%s; memory.fill [%d]/%s' % (n, kk, tag)


def use_locals():
    """reads every local so that each is live to the end"""
    c = []
    for i in range(len(PARAMS) + len(LOCALS)): c += get(i) + [OP(0x1a)]
    return c


def locals_(tier):
    for al, misc in ((0, 2), (1, 2), (0, 0), (1, 3)):
        e = env(align=al, misc=misc)
        tag = 'a%dm%d' % (al, misc)
        for t in T5:
            for d in [('par', param(t)), ('ml', mlocal(t))] + ([('sl', slocal(t))] if t in (I32, I64, REF) else []):
                for k in KINDS[t]:
                    for op in (0x21, 0x22):
                        pre, c = operands([t], [k])
                        for n in (0, 2, 5):
                            yield e, pre + pressure(n) + c + [OP(op), IMM(d[1])] + ([OP(0x1a)] if op == 0x22 else []) + drops(n) + get(d[1]) + drops(1) + END, '%s %s<-%s/p%d/%s' % (SP.NAMES[op], d[0], k, n, tag)
                    # an operand that reads the local before it is overwritten
                    init = get(param(t, 1)) + lset(d[1])
                    for below in ([], pressure(3), pressure(6), pressmix(6)):
                        pre, c = operands([t], [k])
                        nb = len(below) // 2
                        if misc == 0 and nb: continue
                        yield e, pre + init + below + get(d[1]) + get(d[1]) + c + lset(d[1]) + drops(nb + 2) + get(d[1]) + drops(1) + END, 'live alias of %s, set<-%s/b%d/%s' % (d[0], k, nb, tag)
                        yield e, pre + init + below + get(d[1]) + c + [OP(0x22), IMM(d[1])] + drops(nb + 2) + get(d[1]) + drops(1) + END, 'live alias of %s, tee<-%s/b%d/%s' % (d[0], k, nb, tag)
            # alias consumed as address / through memory
        for t, ld in ((I32, 0x28), (I64, 0x29), (F32, 0x2a), (F64, 0x2b)):
            for dk in ('sl', 'ml', 'par'):
                d = slocal(I32) if dk == 'sl' else mlocal(I32) if dk == 'ml' else param(I32)
                yield e, get(param(I32, 1)) + lset(d) + get(d) + [OP(ld)] + memarg(0) + get(param(I32)) + lset(d) + drops(1) + get(d) + drops(1) + END, 'load from %s address, then the address is overwritten/%s %s' % (dk, TNAME[t], tag)
                yield e, get(param(I32, 1)) + lset(d) + get(d) + [OP(ld)] + memarg(0) + get(param(I32)) + get(param(t)) + [OP({I32: 0x36, I64: 0x37, F32: 0x38, F64: 0x39}[t])] + memarg(0) + drops(1) + END, 'load, store, use of the loaded value/%s %s %s' % (dk, TNAME[t], tag)
        # operands reinterpreted in place
        for op in (0xbc, 0xbd, 0xbe, 0xbf):
            ts, r = sig(op)
            t = ts[0]
            for d in [param(t), mlocal(t)] + ([slocal(t)] if t in (I32, I64) else []):
                init = get(param(t, 1)) + lset(d)
                for nb in (0, 3, 6):
                    for k in ('par', 'glob', 'imm'):
                        pre, c = operands([t], [k])
                        yield e, pre + init + get(d) + [OP(op)] + pressmix(nb) + c + lset(d) + drops(nb + 1) + get(d) + drops(1) + END, 'reinterpreted local %d live while it is set (%s,%s)/p%d/%s' % (d, SP.NAMES[op], k, nb, tag)
                        yield e, pre + init + get(d) + [OP(op)] + pressmix(nb) + c + [OP(0x22), IMM(d)] + drops(nb + 2) + get(d) + drops(1) + END, 'reinterpreted local %d live while it is teed (%s,%s)/p%d/%s' % (d, SP.NAMES[op], k, nb, tag)
            for nb in (0, 2, 5, 8):
                for k in KINDS[t]:
                    pre, c = operands([t], [k])
                    yield e, pre + c + [OP(op)] + pressmix(nb) + drops(nb + 1) + END, 'reinterpreted operand live under pressure (%s,%s)/p%d/%s' % (SP.NAMES[op], k, nb, tag)
                    yield e, pre + c + [OP(op)] + pressure(nb) + drops(nb + 1) + END, 'reinterpreted operand live under integer pressure (%s,%s)/p%d/%s' % (SP.NAMES[op], k, nb, tag)
        # all locals live together
        full = []
        for i, t in enumerate(LOCALS): full += get(param(t, i & 1)) + lset(NP + i)
        yield e, full + use_locals() + END, 'all locals set and read/' + tag
        for op in (0x6a, 0x6d, 0x70, 0x74, 0x77, 0x7f, 0x82, 0x86, 0x89, 0x8a):
            ts, r = sig(op)
            c = []
            for j, t in enumerate(ts): c += get(mlocal(t) if j else slocal(t))
            c2 = []
            for j, t in enumerate(ts): c2 += get(slocal(t) if j else mlocal(t))
            for cc in (c, c2):
                yield e, full + cc + [OP(op)] + lset(slocal(r)) + use_locals() + END, 'locals live across %s/%s' % (SP.NAMES[op], tag)
                yield e, full + pressure(5) + cc + [OP(op)] + lset(mlocal(r)) + drops(5) + use_locals() + END, 'locals live across %s under pressure/%s' % (SP.NAMES[op], tag)
        for c, n in (([OP(0x10), IMM(TI['v'])], 'call'), (get(param(I32)) + [OP(0x40), IMM(0), OP(0x1a)], 'memory.grow'), (get(param(F64)) + [OP(0x9f), OP(0x1a)], 'f64.sqrt')):
            yield e, full + c + use_locals() + END, 'locals live across %s/%s' % (n, tag)


def zeroinit(tier):
    """declared locals start as zero at full width"""
    deep = tier == 'thorough'
    for al, misc in ((0, 2), (0, 3), (1, 2)):
        e = env(align=al, misc=misc)
        tag = 'a%dm%d' % (al, misc)
        ids = list(range(NP, NP + len(LOCALS)))
        allr = []
        for i in ids: allr += get(i) + [OP(0x1a)]
        yield e, allr + END, 'all locals read first/' + tag
        for i in ids:
            t = LOCALS[i - NP]
            s = get(param(t)) + lset(i)
            r = get(i) + [OP(0x1a)]
            cond = get(param(I32))
            n = 'local %s#%d/%s' % (TNAME[t], i, tag)
            yield e, r + END, n
            yield e, cond + [OP(4), B(0x40)] + s + END + r + END, 'if set end; ' + n
            yield e, cond + [OP(4), B(0x40)] + s + [OP(5), OP(1)] + END + r + END, 'if set else end; ' + n
            yield e, cond + [OP(4), B(0x40), OP(1), OP(5)] + s + END + r + END, 'if else set end; ' + n
            yield e, cond + [OP(4), B(0x40)] + s + [OP(5)] + r + END + END, 'if set else read end; ' + n
            yield e, cond + [OP(4), B(0x40)] + s + [OP(5)] + s + END + r + END, 'if set else set end; ' + n
            yield e, [OP(2), B(0x40)] + cond + [OP(0xd), IMM(0)] + s + END + r + END, 'block br_if set end; ' + n
            yield e, [OP(2), B(0x40), OP(2), B(0x40)] + cond + [OP(0xd), IMM(1)] + END + s + END + r + END, 'block block br_if 1 end set end; ' + n
            yield e, [OP(3), B(0x40)] + r + s + cond + [OP(0xd), IMM(0)] + END + END, 'loop read set br_if end; ' + n
            yield e, [OP(3), B(0x40)] + s + r + cond + [OP(0xd), IMM(0)] + END + r + END, 'loop set read br_if end; ' + n
            yield e, [OP(2), B(0x40)] + s + r + END + [OP(2), B(0x40)] + r + END + r + END, 'block set end block read end; ' + n
            yield e, [OP(2), B(0x40)] + s + [OP(2), B(0x40)] + r + END + END + END, 'block set block read end end; ' + n
            yield e, get(param(t)) + [OP(0x22), IMM(i), OP(0x1a)] + r + END, 'tee; ' + n
            yield e, [OP(2), B(0x40)] + cond + [OP(0xe), IMM(1), IMM(0), IMM(0)] + END + r + END, 'br_table; ' + n
            yield e, cond + [OP(4), B(0x40)] + cond + [OP(4), B(0x40)] + s + END + r + END + r + END, 'nested if; ' + n
            yield e, cond + [OP(4), B(0x40)] + s + [OP(5)] + cond + [OP(4), B(0x40)] + s + END + END + r + END, 'if set else if set end end; ' + n
        for i in ids[:5]:
            for j in ids[5:]:
                yield e, get(j) + [OP(0x1a)] + get(i) + [OP(0x1a)] + END, 'locals %d,%d/%s' % (i, j, tag)


def globals_(tier):
    for al, misc in ((0, 2), (1, 3)):
        e = env(align=al, misc=misc)
        for t in T5:
            for k in KINDS[t]:
                for n in (0, 3, 6):
                    pre, c = operands([t], [k])
                    yield e, pre + pressure(n) + c + [OP(0x24), IMM(glob(t, 1))] + drops(n) + [OP(0x23), IMM(glob(t, 1)), OP(0x1a)] + END, 'global.set %s<-%s/p%d/a%d' % (TNAME[t], k, n, al)
                    yield e, pre + pressure(n) + [OP(0x23), IMM(glob(t, 1))] + c + [OP(0x24), IMM(glob(t, 1))] + drops(n + 1) + END, 'global read, then set %s<-%s/p%d/a%d' % (TNAME[t], k, n, al)
            for n in range(0, 9):
                yield e, pressmix(n) + [OP(0x23), IMM(glob(t))] + drops(n + 1) + END, 'global.get %s/p%d/a%d' % (TNAME[t], n, al)
            # value set before a call is visible to the callee, value read after a call is the current one
            yield e, get(param(t)) + [OP(0x24), IMM(glob(t)), OP(0x10), IMM(TI['v']), OP(0x23), IMM(glob(t)), OP(0x1a)] + END, 'global.set; call; global.get %s/a%d' % (TNAME[t], al)
            yield e, [OP(0x23), IMM(glob(t)), OP(0x10), IMM(TI['v']), OP(0x23), IMM(glob(t)), OP(0x1a), OP(0x1a)] + END, 'global.get; call; global.get %s/a%d' % (TNAME[t], al)


def consts(tier):
    e = env()
    for al, misc in ((0, 2), (1, 3)):
        e = env(align=al, misc=misc)
        for t in T4:
            for n in (0, 3, 8):
                yield e, pressmix(n) + const(t, 'k') + drops(n + 1) + END, '%s.const/p%d' % (TNAME[t], n)
            for n in (1, 2, 4):
                yield e, sum([const(t, 'k%d' % j) for j in range(n)], []) + drops(n) + END, '%s.const x%d' % (TNAME[t], n)
        for v in (0, 1, -1, 0x7fffffff, -0x80000000, 63, 64, -64, -65):
            yield e, [OP(0x41), IMM(v & mask(64)), OP(0x1a)] + END, 'i32.const %d' % v
            yield e, [OP(0x42), IMM(v & mask(64)), OP(0x1a)] + END, 'i64.const %d' % v
        for v in (1 << 62, mask(63), 1 << 63, (1 << 63) + 1):
            yield e, [OP(0x42), IMM(v), OP(0x1a)] + END, 'i64.const %#x' % v


def calls(tier):
    deep = tier == 'thorough'
    sigs = {'v': [], 'i': [I32], 'l': [I64], 'fi': [F32, I32], 'm5': [I32, I64, F32, F64, REF], 'm3': [I32, I64, F64], 'v4': [F64, I32, I64, I32]}
    res = {'v': [], 'i': [I32, F32], 'l': [I64], 'fi': [F64], 'm5': [I32], 'm3': [F64, I32, I64], 'v4': []}
    for al, misc in ((0, 2), (1, 2), (1, 3), (0, 0)):
        e = env(align=al, misc=misc)
        tag = 'a%dm%d' % (al, misc)
        for s, ts in sigs.items():
            nr = len(res[s])
            ksets = [['par'] * 5, ['glob'] * 5, ['imm'] * 5, ['call'] * 5, ['ml'] * 5, ['blk'] * 5]
            if deep or al == 0:
                for j in range(len(ts)):
                    for k in KINDS[ts[j]]:
                        ks = ['par'] * 5; ks[j] = k; ksets.append(ks)
                        ks = ['glob'] * 5; ks[j] = k; ksets.append(ks)
            for ks in ksets:
                for n in (0, 1, 4) if not deep else (0, 1, 2, 3, 4, 6):
                    for pm in (pressure, pressmix):
                        if pm is pressmix and n in (0, 1): continue
                        pre, c = operands(ts, ks)
                        kt = ','.join(ks[:len(ts)])
                        yield e, pre + pm(n) + c + [OP(0x10), IMM(TI[s])] + drops(nr + n) + END, 'call %s(%s)/p%d/%s' % (s, kt, n, tag)
                        if n != 1:
                            for ik in (['par', 'glob', 'imm', 'eqz', 'sl'] if ks[0] == 'par' else ['glob']):
                                p2, c2 = produce(I32, ik, 1)
                                yield e, p2 + pre + pm(n) + c + c2 + [OP(0x11), IMM(TI[s]), IMM(0)] + drops(nr + n) + END, 'call_indirect %s(%s;%s)/p%d/%s' % (s, kt, ik, n, tag)
            # all values below the call stay intact
            for t in T5:
                for k in KINDS[t]:
                    pre, c = operands([t], [k])
                    args = sum([get(param(x)) for x in ts], [])
                    yield e, pre + c + args + [OP(0x10), IMM(TI[s])] + drops(nr + 1) + END, 'operand %s:%s live across call %s/%s' % (TNAME[t], k, s, tag)
        # operand left in memory by a load must be read before the callee runs
        for t, ld in ((I32, 0x28), (I64, 0x29), (F32, 0x2a), (F64, 0x2b)):
            yield e, get(param(I32)) + [OP(ld)] + memarg(0) + [OP(0x10), IMM(TI['v']), OP(0x1a)] + END, 'loaded %s live across call/%s' % (TNAME[t], tag)
        # nested calls
        yield e, get(param(I64)) + [OP(0x10), IMM(TI['l'])] + [OP(0x10), IMM(TI['l']), OP(0x10), IMM(TI['l']), OP(0x1a)] + END, 'call(call(call))/' + tag
        yield e, get(param(I32)) + get(param(I64)) + get(param(F64)) + [OP(0x10), IMM(TI['m3'])] + [OP(0x10), IMM(TI['l'])] + drops(3) + END, 'multi-value result passed on/' + tag
        # second table
        e2 = env(tables=2, align=al, misc=misc)
        for n in (0, 4):
            yield e2, pressure(n) + get(param(I64)) + get(param(I32)) + [OP(0x11), IMM(TI['l']), IMM(1), OP(0x1a)] + drops(n) + END, 'call_indirect table 1/p%d/%s' % (n, tag)
            yield e2, pressure(n) + get(param(I64)) + get(param(I32)) + [OP(0x11), IMM(TI['l']), IMM(0)] + get(param(I32, 1)) + [OP(0x11), IMM(TI['l']), IMM(1), OP(0x1a)] + drops(n) + END, 'call_indirect tables 0,1/p%d/%s' % (n, tag)
    # tail calls and returns
    for al in (0, 1):
        for rs in ([], [I32], [I64], [F32], [F64], [REF], [F64, I32, I64], [I32, F32], [I64, I32, I64], [I32, I32], [F32, F64]):
            pools = [[(t, k) for k in (KINDS[t] if len(rs) == 1 else FEW[t])] for t in rs]
            combos = [()]
            for p in pools: combos = [c + (x,) for c in combos for x in p]
            if len(combos) > 60 and not deep: combos = combos[::max(1, len(combos) // 60)]
            e = env(results=rs, align=al)
            for cb in combos:
                pre, c = [], []
                for j, (t, k) in enumerate(cb):
                    p, c1 = produce(t, k, j & 1); pre += p; c += c1
                kt = ','.join(k for _, k in cb)
                rt = ','.join(TNAME[t] for t in rs)
                yield e, pre + c + END, 'result (%s) (%s)/a%d' % (rt, kt, al)
                yield e, pre + c + [OP(0xf)] + END, 'return (%s) (%s)/a%d' % (rt, kt, al)
                if rs:
                    yield e, pre + pressure(2) + c + [OP(0xf)] + END, 'return over operands (%s) (%s)/a%d' % (rt, kt, al)
                    yield e, pre + pressure(2) + c + [OP(0xc), IMM(0)] + END, 'br to the function label over operands (%s) (%s)/a%d' % (rt, kt, al)
                yield e, pre + c + [OP(0xc), IMM(0)] + END, 'br to the function label (%s) (%s)/a%d' % (rt, kt, al)
                yield e, pre + c + get(param(I32)) + [OP(0xd), IMM(0)] + END, 'br_if to the function label (%s) (%s)/a%d' % (rt, kt, al)
                yield e, pre + get(param(I32, 1)) + [OP(4), B(0x40)] + c + [OP(0xf)] + END + (c if rs else []) + END, 'conditional return (%s) (%s)/a%d' % (rt, kt, al)
        for s, ts in sigs.items():
            for kk in ('par', 'glob', 'imm', 'call', 'ml', 'rev'):
                e = env(results=res[s], align=al)
                if kk == 'rev':
                    # arguments taken from argument slots in another order
                    pre, c = [], []
                    for t in ts: c += get(param(t, 1))
                    c0 = c
                else: pre, c = operands(ts, [kk] * 5)
                for n in (0, 3):
                    yield e, pre + pressure(n) + c + [OP(0x12), IMM(TI[s])] + END, 'return_call %s(%s)/p%d/a%d' % (s, kk, n, al)
                    yield e, pre + pressure(n) + c + get(param(I32)) + [OP(0x13), IMM(TI[s]), IMM(0)] + END, 'return_call_indirect %s(%s)/p%d/a%d' % (s, kk, n, al)
    for n in (0, 3):
        e = env()
        yield e, pressure(n) + [OP(0x10), IMM(FSTUB['get_self_runtime_context']), OP(0x1a)] + drops(n) + END, 'inline get_self_runtime_context/p%d' % n
        for mi, em in ((0, e), (0, env(mem=('fixed', 'grow'))), (1, env(mem=('fixed', 'grow')))):
            for k in KINDS[I32]:
                if k == 'blk': continue             # a block between the memory index and its use is not supported
                c = [OP(0x41), IMM(mi)] + operands([I32], [k])[1]
                pre = operands([I32], [k])[0]
                yield em, pre + pressure(n) + c + [OP(0x10), IMM(FSTUB['ref_from_index']), OP(0x1a)] + drops(n) + END, 'inline ref_from_index(mem%d of %d,%s)/p%d' % (mi, len(em.memories), k, n)
        for t, s in ((I64, 'ref_from_i64'), (REF, 'i64_from_ref')):
            for k in KINDS[t]:
                pre, c = operands([t], [k])
                yield e, pre + pressure(n) + c + [OP(0x10), IMM(FSTUB[s]), OP(0x1a)] + drops(n) + END, 'inline %s(%s)/p%d' % (s, k, n)


def conds():
    """(name, code producing an i32 condition)"""
    out = []
    for k in KINDS[I32] + ['lt', 'flt']:
        if k == 'sl':
            out.append((k, get(slocal(I32)), get(param(I32, 1)) + lset(slocal(I32))))
            continue
        if k == 'ml':
            out.append((k, get(mlocal(I32)), get(param(I32, 1)) + lset(mlocal(I32))))
            continue
        p, c = produce(I32, k, 1)
        out.append((k, c, p))
    return out


def compares():
    for op in list(range(0x45, 0x67)):
        ts, _ = sig(op)
        p, c = operands(ts, ['par'] * 2)
        yield SP.NAMES[op], c + [OP(op)]
    for op in (0x46, 0x48, 0x5b, 0x63, 0x51):
        ts, _ = sig(op)
        p, c = operands(ts, ['par'] * 2)
        yield 'eqz ' + SP.NAMES[op], c + [OP(op), OP(0x45)]
        yield 'eqz eqz ' + SP.NAMES[op], c + [OP(op), OP(0x45), OP(0x45)]
    yield 'ref.is_null', get(param(REF)) + [OP(0xd1)]
    yield 'eqz eqz', get(param(I32)) + [OP(0x45), OP(0x45)]
    yield 'i64 eqz eqz', get(param(I64)) + [OP(0x50), OP(0x45)]


def control(tier):
    deep = tier == 'thorough'
    CL = conds()
    for al, misc in ((0, 2), (1, 3)) if not deep else ((0, 2), (1, 3), (0, 0), (1, 2)):
        e = env(align=al, misc=misc)
        tag = 'a%dm%d' % (al, misc)
        one = [OP(0x41), IMM(7), OP(0x24), IMM(glob(I32))]
        two = [OP(0x41), IMM(9), OP(0x24), IMM(glob(I32, 1))]
        tests = [(n, c, p) for n, c, p in CL] + [(n, c, []) for n, c in compares()]
        for n, c, p in tests:
            for np_ in (0, 3):
                pr = pressmix(np_)
                dr = drops(np_)
                nm = '%s/p%d/%s' % (n, np_, tag)
                yield e, p + pr + c + [OP(4), B(0x40)] + one + END + two + dr + END, 'if(%s)' % nm
                yield e, p + pr + c + [OP(4), B(0x40)] + one + [OP(5)] + two + END + dr + END, 'if/else(%s)' % nm
                yield e, p + pr + [OP(2), B(0x40)] + c + [OP(0xd), IMM(0)] + one + END + two + dr + END, 'br_if(%s)' % nm
                yield e, p + pr + [OP(2), B(0x40), OP(2), B(0x40)] + c + [OP(0xd), IMM(1)] + one + END + two + END + dr + END, 'br_if 1(%s)' % nm
                yield e, p + pr + [OP(3), B(0x40)] + c + [OP(0xd), IMM(0)] + one + END + two + dr + END, 'loop br_if(%s)' % nm
        # select
        for n, c, p in tests:
            for t in T5:
                ks = [('par', 'par'), ('glob', 'glob')] if n in [x[0] for x in CL] else [('par', 'glob')]
                if n in ('par', 'lt', 'flt', 'eqz'): ks = [(a, b) for a in FEW[t] for b in FEW[t]]
                for a, b in ks:
                    pre, co = operands([t, t], [a, b])
                    for np_ in (0, 4) if n in ('par', 'lt', 'glob') else (0,):
                        yield e, p + pre + pressure(np_) + co + c + [OP(0x1b)] + drops(np_ + 1) + END, 'select %s(%s,%s;%s)/p%d/%s' % (TNAME[t], a, b, n, np_, tag)
        # blocks with results, values carried by branches
        for t in T5:
            for k in KINDS[t]:
                pre, c = operands([t], [k])
                for np_ in (0, 3):
                    pr = pressure(np_)
                    dr = drops(np_ + 1)
                    nm = '%s:%s/p%d/%s' % (TNAME[t], k, np_, tag)
                    cond = get(param(I32, 1))
                    other = get(param(t, 1))
                    yield e, pre + pr + [OP(2), B(t)] + c + END + dr + END, 'block result ' + nm
                    yield e, pre + pr + [OP(2), B(t)] + c + [OP(0xc), IMM(0)] + END + dr + END, 'br with value ' + nm
                    yield e, pre + pr + [OP(2), B(t)] + get(param(I64)) + get(param(F64)) + c + [OP(0xc), IMM(0)] + END + dr + END, 'br with value over operands ' + nm
                    yield e, pre + pr + [OP(2), B(t)] + c + cond + [OP(0xd), IMM(0), OP(0x1a)] + other + END + dr + END, 'br_if with value ' + nm
                    yield e, pre + pr + [OP(2), B(t)] + get(param(I64)) + c + cond + [OP(0xd), IMM(0), OP(0x1a), OP(0x1a)] + other + END + dr + END, 'br_if with value over operands ' + nm
                    yield e, pre + pr + cond + [OP(4), B(t)] + c + [OP(5)] + other + END + dr + END, 'if result ' + nm
                    yield e, pre + pr + cond + [OP(4), B(t)] + other + [OP(5)] + c + END + dr + END, 'else result ' + nm
                    yield e, pre + pr + [OP(2), B(t), OP(2), B(0x40)] + c + [OP(0xc), IMM(1)] + END + other + END + dr + END, 'br 1 with value ' + nm
                    yield e, pre + pr + [OP(2), B(t), OP(3), B(0x40)] + c + cond + [OP(0xd), IMM(1), OP(0x1a)] + get(param(I32)) + [OP(0xd), IMM(0)] + END + other + END + dr + END, 'br_if 1 out of a loop with value ' + nm
                    yield e, pre + pr + [OP(2), B(t)] + c + cond + [OP(0xe), IMM(1), IMM(0), IMM(0)] + END + dr + END, 'br_table with value ' + nm
                    yield e, pre + pr + [OP(2), B(t)] + get(param(F64)) + c + cond + [OP(0xe), IMM(1), IMM(0), IMM(0)] + END + dr + END, 'br_table with value over operands ' + nm
                    # operand below a block stays where the join expects it
                    yield e, pre + pr + c + [OP(2), B(0x40)] + cond + [OP(0xd), IMM(0)] + [OP(0x10), IMM(TI['v'])] + END + dr + END, 'operand below block, call on one path ' + nm
                    yield e, pre + pr + c + cond + [OP(4), B(0x40)] + [OP(0x10), IMM(TI['v'])] + [OP(5)] + pressure(4) + drops(4) + END + dr + END, 'operand below if/else ' + nm
                    yield e, pre + pr + c + [OP(3), B(0x40)] + pressure(5) + drops(5) + cond + [OP(0xd), IMM(0)] + END + dr + END, 'operand below loop ' + nm
            # a local read before and changed inside
            for d in [param(t), mlocal(t)] + ([slocal(t)] if t in (I32, I64, REF) else []):
                init = get(param(t, 1)) + lset(d)
                cond = get(param(I32, 1))
                ch = get(param(t)) + lset(d)
                yield e, init + get(d) + [OP(2), B(0x40)] + cond + [OP(0xd), IMM(0)] + ch + END + drops(1) + get(d) + drops(1) + END, 'local %d read below a block that sets it/%s' % (d, tag)
                yield e, init + get(d) + cond + [OP(4), B(0x40)] + ch + END + drops(1) + get(d) + drops(1) + END, 'local %d read below an if that sets it/%s' % (d, tag)
                yield e, init + get(d) + [OP(3), B(0x40)] + ch + cond + [OP(0xd), IMM(0)] + END + drops(1) + get(d) + drops(1) + END, 'local %d read below a loop that sets it/%s' % (d, tag)
                yield e, init + [OP(2), B(t)] + get(d) + ch + cond + [OP(0xd), IMM(0)] + END + drops(1) + get(d) + drops(1) + END, 'local %d as block result, set before the branch/%s' % (d, tag)
        # br_table
        for n, c, p in CL:
            for np_ in (0, 3):
                pr = pressure(np_)
                dr = drops(np_)
                for cnt in (0, 1, 2, 4):
                    if cnt == 4 and (n not in ('par', 'sl') or np_): continue
                    depth = cnt + 1
                    body = []
                    for j in range(depth): body += [OP(2), B(0x40)]
                    body += c + [OP(0xe), IMM(cnt)] + [IMM(j) for j in range(cnt + 1)]
                    for j in range(depth):
                        body += END + [OP(0x41), IMM(100 + j), OP(0x24), IMM(glob(I32))]
                        body += [OP(0xf)] if j < depth - 1 and not np_ and False else []
                    yield e, p + pr + body + dr + (get(slocal(I32)) + drops(1) if n == 'sl' else []) + END, 'br_table(%s) %d targets/p%d/%s' % (n, cnt, np_, tag)
                yield e, p + pr + [OP(2), B(0x40), OP(3), B(0x40)] + c + [OP(0xe), IMM(2), IMM(0), IMM(1), IMM(1)] + END + END + dr + END, 'br_table(%s) loop/p%d/%s' % (n, np_, tag)
                yield e, p + pr + [OP(2), B(0x40)] + c + [OP(0xe), IMM(1), IMM(0), IMM(1)] + END + dr + END, 'br_table(%s) to the function label/p%d/%s' % (n, np_, tag)
        yield e, get(param(I32)) + [OP(2), B(0x40), OP(0), OP(0xb)] + drops(1) + END, 'unreachable in block/' + tag
        yield e, get(param(I32)) + [OP(4), B(I32), OP(0), OP(5)] + get(param(I32)) + END + drops(1) + END, 'unreachable then/' + tag
        yield e, get(param(I32)) + [OP(4), B(I32)] + get(param(I32)) + [OP(5), OP(0)] + END + drops(1) + END, 'unreachable else/' + tag
        for dead in ([OP(0xf)], [OP(0xc), IMM(0)], [OP(0xc), IMM(1)], [OP(0)]):
            yield e, get(param(I32)) + [OP(2), B(0x40)] + dead + [OP(0x41), IMM(1), OP(0x1a)] + END + drops(1) + END, 'code after %s/%s' % (SP.NAMES[dead[0][1]], tag)
            yield e, get(param(I32)) + get(param(I32, 1)) + [OP(4), B(0x40)] + dead + END + drops(1) + END, '%s in if/%s' % (SP.NAMES[dead[0][1]], tag)
            yield e, get(param(I32)) + get(param(I32, 1)) + [OP(4), B(0x40)] + dead + [OP(5)] + one + END + drops(1) + END, '%s in if, else follows/%s' % (SP.NAMES[dead[0][1]], tag)
            yield e, get(param(I32)) + get(param(I32, 1)) + [OP(4), B(0x40)] + one + [OP(5)] + dead + END + drops(1) + END, '%s in else/%s' % (SP.NAMES[dead[0][1]], tag)
            # instructions that cannot be reached take any operands
            for k, poly in enumerate(([OP(0x6a)], [OP(0x1a)] * 3, [OP(0xa2), OP(0x1a)], [OP(0x1b), OP(0x1a)], [OP(0x21), IMM(param(I32))], [OP(0x22), IMM(slocal(I32)), OP(0x45), OP(0xd), IMM(0)], [OP(4), B(0x40)] + END, [OP(4), B(I32), OP(0x41), IMM(1), OP(5), OP(0x41), IMM(1)] + END + [OP(0x1a)],
                                      [OP(0xe), IMM(1), IMM(0), IMM(0)], [OP(2), B(0x40), OP(0xf)] + END + [OP(0x1a)], [OP(3), B(I32), OP(0xc), IMM(0)] + END + [OP(0x1a)], [OP(0x44), B(0x0b), B(5)] + [B(0x0b)] * 6 + [OP(0x9a), OP(0x1a)], [OP(0x43)] + [B(0x0b)] * 4 + [OP(0x8c), OP(0x1a)],
                                      [OP(0x42), IMM(0xb05), OP(0x7c), OP(0xa7), OP(0x1a)], [OP(0xd0), B(0x70), OP(0xd1), OP(0x1a)], [OP(0x24), IMM(glob(I32))], [OP(0x23), IMM(glob(I32)), OP(0x72), OP(0x1a)])):
                nm = '%s, then unreachable #%d' % (SP.NAMES[dead[0][1]], k)
                yield e, get(param(I32)) + [OP(2), B(0x40)] + get(param(I32, 1)) + [OP(0xd), IMM(0)] + dead + poly + END + get(slocal(I32)) + drops(2) + END, '%s/%s' % (nm, tag)
                yield e, get(param(I32)) + get(param(I32, 1)) + [OP(4), B(0x40)] + dead + poly + [OP(5), OP(0x41), IMM(1)] + lset(slocal(I32)) + END + get(slocal(I32)) + drops(2) + END, '%s, else/%s' % (nm, tag)
        for t in (I32, F64):
            # the end of the loop is never reached, what follows is no part of any path
            yield e, get(param(I32)) + [OP(2), B(0x40), OP(3), B(t)] + get(param(I32, 1)) + [OP(0xd), IMM(1), OP(0xc), IMM(0)] + END + drops(1) + END + get(slocal(I32)) + drops(2) + END, 'loop %x without an end/%s' % (t, tag)
            yield e, get(param(I32)) + [OP(2), B(0x40), OP(3), B(t)] + get(param(I32, 1)) + [OP(0xd), IMM(1), OP(0x41), IMM(3), OP(0x41), IMM(4), OP(0xc), IMM(0)] + END + ([OP(0x41), IMM(1), OP(0x6a)] if t == I32 else [OP(0x9a)]) + drops(1) + END + get(slocal(I32)) + drops(2) + END, 'loop %x without an end, operands left/%s' % (t, tag)
            yield e, get(param(I32)) + [OP(2), B(0x40), OP(3), B(t), OP(0xf)] + END + drops(1) + END + drops(1) + END, 'loop %x that returns/%s' % (t, tag)
        # loops carrying a counter in a local
        for d in (param(I32), slocal(I32), mlocal(I32)):
            yield e, get(param(I32, 1)) + lset(d) + [OP(3), B(0x40)] + get(d) + [OP(0x41), IMM(mask(64)), OP(0x6a), OP(0x22), IMM(d), OP(0xd), IMM(0)] + END + get(d) + drops(1) + END, 'counting loop over local %d/%s' % (d, tag)
            yield e, get(param(I32, 1)) + lset(d) + [OP(2), B(0x40), OP(3), B(0x40)] + get(d) + [OP(0x45), OP(0xd), IMM(1)] + get(d) + [OP(0x41), IMM(1), OP(0x6b)] + lset(d) + [OP(0xc), IMM(0)] + END + END + get(d) + drops(1) + END, 'while loop over local %d/%s' % (d, tag)


def tables(tier):
    for nt in (1, 2):
        for al, misc in ((0, 2), (0, 3), (1, 2)):
            e = env(tables=nt, align=al, misc=misc)
            for tb in range(nt):
                tag = 'table %d of %d/a%dm%d' % (tb, nt, al, misc)
                for np_ in (0, 3):
                    pr, dr = pressure(np_), drops(np_)
                    for i in KINDS[I32]:
                        pre, c = operands([I32], [i])
                        yield e, pre + pr + c + [OP(0x25), IMM(tb), OP(0x1a)] + dr + END, 'table.get(%s)/p%d/%s' % (i, np_, tag)
                        for v in FEW[REF] + ['rf']:
                            p2, c2 = produce(REF, v, 1)
                            if v == 'rf': p2, c2 = [], [OP(0xd2), IMM(2)]
                            yield e, pre + p2 + pr + c + c2 + [OP(0x26), IMM(tb)] + dr + END, 'table.set(%s,%s)/p%d/%s' % (i, v, np_, tag)
                    yield e, pr + [OP(0xfc), B(16), IMM(tb), OP(0x1a)] + dr + END, 'table.size/p%d/%s' % (np_, tag)
                    for v in FEW[REF]:
                        p2, c2 = produce(REF, v, 1)
                        for i in FEW[I32]:
                            pre, c = operands([I32], [i])
                            yield e, p2 + pre + pr + c + c2 + [OP(0x41), IMM(2), OP(0xfc), B(17), IMM(tb)] + dr + END, 'table.fill(%s,%s)/p%d/%s' % (i, v, np_, tag)
                    for ks in ([I32, REF, I32], ):
                        for cb in (('par', 'par', 'par'), ('imm', 'par', 'glob'), ('glob', 'par', 'sl'), ('sl', 'par', 'par')):
                            pre, c = operands(ks, cb)
                            yield e, pre + pr + c + [OP(0xfc), B(17), IMM(tb)] + dr + END, 'table.fill count(%s)/p%d/%s' % (','.join(cb), np_, tag)
                    for tb2 in range(nt):
                        for ks in (('par', 'par', 'par'), ('glob', 'glob', 'glob'), ('imm', 'imm', 'imm'), ('sl', 'glob', 'eqz'), ('imm', 'par', 'glob'), ('glob', 'imm', 'par')):
                            pre, c = operands([I32, I32, I32], ks)
                            yield e, pre + pr + c + [OP(0xfc), B(14), IMM(tb), IMM(tb2)] + dr + END, 'table.copy(%s) %d<-%d/p%d/%s' % (','.join(ks), tb, tb2, np_, tag)
    for np_ in (0, 1, 3, 6):
        for misc in (2, 3):
            e = env(misc=misc)
            yield e, pressmix(np_) + [OP(0xd2), IMM(3), OP(0x1a)] + drops(np_) + END, 'ref.func/p%d' % np_
            yield e, pressmix(np_) + [OP(0xd0), IMM(0x70), OP(0x1a)] + drops(np_) + END, 'ref.null/p%d' % np_
            for k in KINDS[REF]:
                pre, c = operands([REF], [k])
                yield e, pre + pressmix(np_) + c + [OP(0xd1), OP(0x1a)] + drops(np_) + END, 'ref.is_null(%s)/p%d' % (k, np_)


def bulk(tier):
    for mem, ks in ((('grow',), (0,)), (('fixed',), (0,)), (('raw',), (0,)), (('grow', 'grow'), (0, 1)), (('grow', 'raw'), (0, 1)), (('fixed', 'grow'), (0, 1))):
        for al, misc in ((0, 2), (1, 3)):
            e = env(mem=mem, align=al, misc=misc)
            for k in ks:
                tag = '%s[%d]/a%dm%d' % ('+'.join(mem), k, al, misc)
                for np_ in (0, 3):
                    pr, dr = pressure(np_), drops(np_)
                    K = ['imm', 'par', 'sl', 'glob']
                    combos = [(a, b, c) for a in K for b in K for c in K + ['eqz']]
                    it = [I64 if x == 'raw' else I32 for x in mem]
                    for cb in combos if not np_ else combos[::5]:
                        for k2 in ks:
                            nt = min(it[k], it[k2], key=lambda t: t == I64)
                            if nt == I64 and cb[2] == 'eqz': continue
                            pre, c = operands([it[k], it[k2], nt], cb)
                            yield e, pre + pr + c + [OP(0xfc), B(10), IMM(k), IMM(k2)] + dr + END, 'memory.copy(%s) <-%d/p%d/%s' % (','.join(cb), k2, np_, tag)
                        if it[k] == I64 and cb[2] == 'eqz': continue
                        pre, c = operands([it[k], I32, it[k]], cb)
                        yield e, pre + pr + c + [OP(0xfc), B(11), IMM(k)] + dr + END, 'memory.fill(%s)/p%d/%s' % (','.join(cb), np_, tag)
                    if mem[k] != 'raw':
                        yield e, pr + [OP(0x3f), IMM(k), OP(0x1a)] + dr + END, 'memory.size/p%d/%s' % (np_, tag)
                        for a in KINDS[I32]:
                            pre, c = operands([I32], [a])
                            yield e, pre + pr + c + [OP(0x40), IMM(k), OP(0x1a)] + dr + END, 'memory.grow(%s)/p%d/%s' % (a, np_, tag)
