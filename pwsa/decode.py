"""P10: the same meaning whatever valid binary encoding an instruction or section is written in.

A fragment is a list of slots with known immediates.  It is translated three times or more: as slots (the decoder's
readers are taken to be right; the result is judged against the WebAssembly semantics by tv.TV) and as bytes (the
readers are interpreted like everything else), once per encoding of its LEB128 values.  All emit the same code.
"""
from .gen import *
from .frags import *
from .tv import TV, Finding
from .spec import LOADS, STORES
from . import runtv, tvcheck, hostcheck
from .modrun import ModRun, Mod, body
from .loadprops import *

M64 = mask(64)


def leb(v, signed, pad=0, bits=32):
    """LEB128 bytes of v with `pad` redundant continuation bytes, at most ceil(bits/7) long"""
    out = []
    top = (bits + 6) // 7
    while 1:
        b = v & 0x7f
        v >>= 7
        if (v == 0 and not (signed and b & 0x40)) or (signed and v == -1 and b & 0x40): break
        out.append(b | 0x80)
    neg = signed and v == -1
    while pad and len(out) + 1 < top:
        out.append(b | 0x80)
        b = 0x7f if neg else 0
        pad -= 1
    # the redundant bytes repeat the sign
    return out + [b]


def encode(code, pad, which=None):
    """slots -> bytes; pads every LEB, or only those whose number is in `which`"""
    out = []
    n = 0
    prev = None
    k = 0
    while k < len(code):
        s = code[k]
        def put(v, sg, bits=32):
            nonlocal n
            out.extend(leb(v, sg, pad if which is None or n in which else 0, bits))
            n += 1
        if s[0] == 'op': out.append(s[1])
        elif s[0] == 'b':
            if prev == ('op', 0xfc): put(s[1], False)
            else: out.append(s[1])
        elif s[0] == 'raw':
            out.append(s[1] >> 8 * s[2] & 255)
        elif prev == ('op', 0x41): put(sgn(s[1] & mask(32), 32), True)
        elif prev == ('op', 0x42): put(sgn(s[1] & M64, 64), True, 64)
        elif prev == ('op', 0xd0): out.append(s[1])
        else: put(s[1], False)
        prev = s
        k += 1
    return out, n


class ByteGen(Gen):
    def __init__(self, prog):
        super().__init__(prog)
        for n in self.lebnames: self.I.hook_call.pop(n, None)

    def h_code(self, I, st, fr, i, off, size):
        code = st.user['code']
        off = st.res(off)
        if not isinstance(off, int): raise Broken("code position not constant")
        if off + size > len(code):
            st.emit(('overread', off, i.file, i.line)); return int.from_bytes(b'\x0b' * size, 'little')     # 'end', so that it ends soon
        return sum(code[off + k] << 8 * k for k in range(size))


def trace(st):
    return [(e[1], e[2], e[3]) for e in st.trace() if e[0] == 'lir'], [e for e in st.trace() if e[0] == 'lir']


class TV10(TV):
    def __init__(self, gen, maxvisit=2):
        super().__init__(gen, maxvisit)
        self.bg = ByteGen(gen.p)
        self.stats['encodings'] = 0

    def check(self, env, code, shape=''):
        fs, outcome = ([], 'ok') if 'trunc_sat' in shape else super().check(env, code, shape)     # (their results out of range are not P10's matter)
        if outcome != 'ok' and not fs: fs = [Finding('rejected', None, 'valid code is refused: %s' % (outcome[1],), None, shape)]
        ref = [s for s in self.g.emit(env, code)]
        want = [(s.status, self.err(s), trace(s)[0]) for s in ref]
        _, n = encode(code, 0)
        op = next((self.opat(code, k) for k in range(len(code)) if code[k][0] == 'op' and code[k][1] not in (0x02, 0x0b, 0x20)), None)
        encs = [('shortest', 0, None), ('one redundant byte', 1, None), ('longest', 9, None)]
        if n <= 4: encs += [('longest value %d' % k, 9, {k}) for k in range(n)]
        done = set()
        for nm, pad, which in encs:
            bs, _ = encode(code, pad, which)
            if tuple(bs) in done: continue
            done.add(tuple(bs))
            self.stats['encodings'] += 1
            got = list(self.bg.emit(env, bs))
            f = None
            for k, s in enumerate(got):
                tr, ev = trace(s)
                over = next((e for e in s.trace() if e[0] in ('overread', 'bad')), None)
                if over: f = Finding('decoding', op, 'encoded with %s (%s): the translator reads outside of the code' % (nm, hexs(bs)), (over[-2], over[-1], ()), shape); break
                if k >= len(want): continue
                w = want[k]
                self.stats['points'] += 1
                if (s.status, self.err(s), tr) == w: self.stats['equal'] += 1; continue
                j = next((j for j, (a, b) in enumerate(zip(tr, w[2])) if a != b), min(len(tr), len(w[2])))
                e = ev[j] if j < len(ev) else ev[-1] if ev else None
                f = Finding('decoding', op, 'encoded with %s (%s) %s' % (nm, hexs(bs), 'the result is %s %r instead of %s %r' % (s.status, self.err(s), w[0], w[1]) if (s.status, self.err(s)) != w[:2]
                            else 'another code is emitted: %s instead of %s' % (sh(tr[j]) if j < len(tr) else 'nothing', sh(w[2][j]) if j < len(w[2]) else 'nothing')), (e[4], e[5], e[6]) if e else None, shape)
                break
            if f is None and len(got) != len(want): self.unknown('bytes', 'number of paths differs')
            if f: fs = fs + [f]; break
        return fs, outcome

    def err(self, s):
        return 0 if s.status != 'ret' or s.result == 0 else self.errstr(s.result)


def hexs(bs): return ' '.join('%02x' % b for b in bs[:24]) + (' ...' if len(bs) > 24 else '')
def sh(t, n=140):
    s = repr(t)
    return s if len(s) < n else s[:n] + '...'


IDX = [0, 1, 63, 64, 65, 127, 128, 129]
B32 = sorted({x for k in (6, 7, 13, 14, 20, 21, 27, 28, 31) for x in ((1 << k) - 1, 1 << k, -(1 << k), -(1 << k) - 1) if -(1 << 31) <= x < 1 << 31} | {0, 1, -1, 2, -2, 0x12345678, -0x12345678, -(1 << 31)})
B64 = sorted({x for k in (6, 7, 13, 14, 20, 21, 27, 28, 31, 32, 34, 35, 41, 42, 48, 49, 55, 56, 62, 63) for x in ((1 << k) - 1, 1 << k, -(1 << k), -(1 << k) - 1) if -(1 << 63) <= x < 1 << 63} | {0, 1, -1, 0x123456789abcdef0, -0x123456789abcdef, -(1 << 63)})
OFF = [0, 1, 63, 64, 127, 128, 8191, 8192, 16383, 16384, (1 << 20) - 1, 1 << 21, 1 << 27, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]
PRE = [OP(0x02), B(0x40), OP(0x0b)]
E = [OP(0x0b)]
P0, P1, PL, PF, PD, PR = range(6)
PARAMS10 = [I32, I32, I64, F32, F64, REF]
ARG = {I32: P0, I64: PL, F32: PF, F64: PD, REF: PR}


def cenv(**k):
    d = dict(params=PARAMS10, results=[], locals=[I32, I64, F32, F64, REF] * 40, memories=('grow',), tables=1, globals=GL, types=ALLTYPES, funcs=ALLFUNCS)
    d.update(k)
    return Env(**d)


def decoding(tier):
    thorough = tier == 'thorough'
    idx = IDX if not thorough else IDX + [2, 31, 62, 66, 126, 130, 131]
    small = cenv(locals=[I32, I64])
    for v in B32: yield small, PRE + [OP(0x41), IMM(v & M64), OP(0x41), IMM(~v & M64), OP(0x6a), OP(0x1a)] + E, 'i32.const %d' % v
    for v in B64: yield small, PRE + [OP(0x42), IMM(v & M64), OP(0x42), IMM(~v & M64), OP(0x7c), OP(0x1a)] + E, 'i64.const %d' % v
    for v in (0, 0x0b0b0b0b, 0x01020304, 0x80000000, 0x7fc00000, 0x04400205, 0xffffffff):
        yield small, PRE + [OP(0x43)] + RAW(v, 4) + get(PF) + [OP(0x92), OP(0x1a)] + E, 'f32.const %08x' % v
    for v in (0, 0x0b0b0b0b0b0b0b0b, 0x0102030405060708, 1 << 63, 0x7ff8000000000000, 0x0440020504400205, M64):
        yield small, PRE + [OP(0x44)] + RAW(v, 8) + get(PD) + [OP(0xa0), OP(0x1a)] + E, 'f64.const %016x' % v
    lt = cenv()
    for n in idx + [200, 205]:
        t = (PARAMS10 + lt.locals)[n]
        a = get(ARG[t])
        yield lt, PRE + get(n) + a + [OP(0x1a), OP(0x1a)] + E, 'local.get %d' % n
        yield lt, PRE + a + [OP(0x21), IMM(n)] + get(n) + [OP(0x1a)] + E, 'local.set %d' % n
        yield lt, PRE + a + [OP(0x22), IMM(n), OP(0x1a)] + get(n) + [OP(0x1a)] + E, 'local.tee %d' % n
    ge = cenv(locals=[], globals=[I32, I64, F32, F64, REF] * 60)
    for n in idx + [255, 256, 299]:
        t = ge.globals[n]
        yield ge, PRE + [OP(0x23), IMM(n), OP(0x1a)] + E, 'global.get %d' % n
        yield ge, PRE + get(ARG[t]) + [OP(0x24), IMM(n), OP(0x23), IMM(n), OP(0x1a)] + E, 'global.set %d' % n
    # functions and types: function k has type k, the signatures differ from their neighbours
    sig = [([], []), ([I32], []), ([], [I32]), ([I64], [I64]), ([F32, I32], [F64]), ([REF], []), ([F64], [I32])]
    fe = cenv(locals=[], types=[sig[k % 7] for k in range(300)], funcs=[(k % 301, None) for k in range(300)], tables=131, memories=())
    for n in idx + [255, 256, 299]:
        if n == 0: continue
        p, r = fe.types[fe.funcs[n - 1][0]]
        args = sum([get(ARG[t]) for t in p], [])
        yield fe, PRE + args + [OP(0x10), IMM(n)] + [OP(0x1a)] * len(r) + get(P1) + [OP(0x1a)] + E, 'call %d' % n
        if not r: yield fe, PRE + args + [OP(0x12), IMM(n)] + E, 'return_call %d' % n
        yield fe, PRE + [OP(0xd2), IMM(n), OP(0x1a)] + E, 'ref.func %d' % n
        p, r = fe.types[n]
        args = sum([get(ARG[t]) for t in p], [])
        for tb in (idx if n in (1, 64, 128) else (0, 64)):
            yield fe, PRE + args + get(P1) + [OP(0x11), IMM(n), IMM(tb)] + [OP(0x1a)] * len(r) + get(P1) + [OP(0x1a)] + E, 'call_indirect %d %d' % (n, tb)
            if not r: yield fe, PRE + args + get(P1) + [OP(0x13), IMM(n), IMM(tb)] + E, 'return_call_indirect %d %d' % (n, tb)
    # labels
    D = 131
    for n in idx:
        nest = [OP(0x02), B(0x40)] * D
        yield small, PRE + nest + [OP(0x0c), IMM(n)] + [OP(0x0b)] * D + E, 'br %d' % n
        yield small, PRE + nest + get(P0) + [OP(0x0d), IMM(n)] + get(P1) + [OP(0x21), IMM(6)] + [OP(0x0b)] * D + get(6) + [OP(0x1a)] + E, 'br_if %d' % n
        yield small, PRE + nest + get(P0) + [OP(0x0e), IMM(2), IMM(n), IMM(130 - n), IMM(n // 2)] + [OP(0x0b)] * D + E, 'br_table %d' % n
    for c in (0, 1, 2, 3):
        yield small, PRE + [OP(0x02), B(0x40)] * 4 + get(P0) + [OP(0x0e), IMM(c)] + [IMM(k % 4) for k in range(c + 1)] + [OP(0x0b)] * 4 + E, 'br_table of %d' % c
    for bt in (0x40, I32, I64, F32, F64, REF, FUNC):
        v = [] if bt == 0x40 else get(ARG[bt if bt != FUNC else REF])
        d = [OP(0x1a)] if v else []
        yield small, PRE + [OP(0x02), B(bt)] + v + E + d + E, 'block type %02x' % bt
        yield small, PRE + [OP(0x03), B(bt)] + v + E + d + E, 'loop type %02x' % bt
        yield small, PRE + get(P0) + [OP(0x04), B(bt)] + v + [OP(0x05)] + v + E + d + E, 'if type %02x' % bt
    # memory arguments
    me = cenv(locals=[I32], memories=('grow',) * 131, tables=0)
    for o in range(0x28, 0x3f):
        t = LOADS[o][3] if o in LOADS else {0x36: I32, 0x37: I64, 0x38: F32, 0x39: F64, 0x3a: I32, 0x3b: I32}.get(o, I64)
        ld = o in LOADS
        f = lambda *im: PRE + get(P0) + ([] if ld else get(ARG[t])) + [OP(o)] + [IMM(x) for x in im] + ([OP(0x1a)] if ld else []) + get(P1) + [OP(0x1a)] + E
        full = o in (0x28, 0x37) or thorough
        for off in (OFF if full else (0, 128, 1 << 31)): yield me, f(0, off), '%s offset=%d' % (SP.NAMES[o], off)
        for al in (0, 1, 2, 3): yield me, f(al, 64), '%s align=%d' % (SP.NAMES[o], al)
        for mi in (idx if full else (0, 1, 64, 128)):
            yield me, f(0x40, mi, 8), '%s memory=%d' % (SP.NAMES[o], mi)
            if full: yield me, f(0x42, mi, 1 << 28), '%s memory=%d far' % (SP.NAMES[o], mi)
    for n in idx:
        yield me, PRE + [OP(0x3f), IMM(n), OP(0x1a)] + E, 'memory.size %d' % n
        yield me, PRE + get(P0) + [OP(0x40), IMM(n), OP(0x1a)] + E, 'memory.grow %d' % n
        yield me, PRE + get(P0) + get(P1) + get(P0) + [OP(0xfc), B(0x0b), IMM(n)] + E, 'memory.fill %d' % n
        for k in (0, 1, 64, 128): yield me, PRE + get(P0) + get(P1) + get(P0) + [OP(0xfc), B(0x0a), IMM(n), IMM(k)] + E, 'memory.copy %d %d' % (n, k)
    te = cenv(locals=[I32], memories=(), tables=131)
    for n in idx:
        yield te, PRE + get(P0) + [OP(0x25), IMM(n), OP(0x1a)] + E, 'table.get %d' % n
        yield te, PRE + get(P0) + get(PR) + [OP(0x26), IMM(n)] + E, 'table.set %d' % n
        yield te, PRE + [OP(0xfc), B(0x10), IMM(n), OP(0x1a)] + E, 'table.size %d' % n
        yield te, PRE + get(PR) + get(P0) + [OP(0xfc), B(0x0f), IMM(n), OP(0x1a)] + E, 'table.grow %d' % n
        yield te, PRE + get(P0) + get(PR) + get(P1) + [OP(0xfc), B(0x11), IMM(n)] + E, 'table.fill %d' % n
        for k in (0, 1, 64, 128): yield te, PRE + get(P0) + get(P1) + get(P0) + [OP(0xfc), B(0x0e), IMM(n), IMM(k)] + E, 'table.copy %d %d' % (n, k)
    for t in (FUNC, REF): yield te, PRE + [OP(0xd0), IMM(t), OP(0xd1), OP(0x1a)] + E, 'ref.null %02x' % t
    for t in T5 + [FUNC]:
        a = get(ARG[t if t != FUNC else REF])
        yield small, PRE + a + a + get(P0) + [OP(0x1c), IMM(1), B(t), OP(0x1a)] + E, 'select t %02x' % t
    for s in range(8):
        yield small, PRE + get(PF if s % 4 < 2 else PD) + [OP(0xfc), B(s), OP(0x1a)] + E, SP.SUBN[s]


# ---- sections ---------------------------------------------------------------------
def section_bytes(slots, pad, lo=0, hi=None):
    """slots of a module -> bytes; every LEB128 value gets up to `pad` redundant bytes"""
    out = []
    k = lo
    hi = len(slots) if hi is None else hi
    prev = None
    while k < hi:
        s = slots[k]
        if len(s) > 2 and s[2] == 'size':
            b = section_bytes(slots, pad, k + 1, k + 1 + s[1])
            out += leb(len(b), False, pad) + b
            k += 1 + s[1]; prev = None
            continue
        if s[0] == 'raw': out.append(s[1] >> 8 * s[2] & 255)
        elif s[0] == 'imm' and len(s) == 2 and prev != ('op', 0xd0):
            sg = prev in (('op', 0x41), ('op', 0x42))
            n = 64 if prev == ('op', 0x42) else 32
            out += leb(sgn(s[1] & mask(n), n) if sg else s[1], sg, pad, n)
        elif s[0] == 'b' and prev == ('op', 0xfc): out += leb(s[1], False, pad)
        else: out.append(s[1] & 255)
        prev = s
        k += 1
    return out


def concrete(x):
    """a description with its symbolic values replaced by boundary values"""
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 's' and isinstance(x[2], tuple):
        n = x[2][1]
        if n.startswith('tag'): return 0x2f00 + int(n[3:])
        if n in ('off', 'ini'): return 4
        if n == 'max': return 130
        l = B32 if x[1] == 32 else B64
        return l[sum(map(ord, n)) % len(l)] & mask(x[1])
    if isinstance(x, (list, tuple)): return type(x)(map(concrete, x))
    return x


def LASTLOCALS(n): return [x for k in (0, n - 2, n - 1) for x in (('op', 0x20), ('imm', k), ('op', 0x1a))]


def more_modules():
    T0 = [((), ())]
    out = []

    def add(name, ex=None, same=None, **kw):
        m = Mod(**kw)
        m.exports = allexports(m) if ex is None else ex
        m.same = same       # the same module written with small numbers only
        out.append((name, m))
    for v in B32: add('global i32 %d' % v, types=T0, globals=[(I32, 0, i32c(v & M64)), (I32, 1, i32c(5))])
    for v in B64: add('global i64 %d' % v, types=T0, globals=[(I64, 0, i64c(v & M64)), (I32, 1, i32c(5))])
    for n in (127, 128, 129):
        add('%d types and functions' % n, ex=[('f%d' % k, 0, k) for k in (0, 1, 63, 64, 126, n - 1)], types=[(((I32,), (I64, F32))[k % 2], ()) for k in range(n)], funcs=[n - 1 - k for k in range(n)], codes=fbodies(n))
        add('%d imported functions' % n, ex=[('f%d' % k, 0, k) for k in (0, 1, 63, 64, 126, n - 1, n)], types=T0, imports=[('m', 'f%d' % k, 0, 0) for k in range(n)], funcs=[0], codes=fbodies(1), start=n)
        add('%d globals' % n, types=T0, globals=[(I32, 0, i32c(k)) for k in range(n)])
        add('%d imported globals' % n, types=T0, imports=[('m', 'f%d' % k, 3, (I32, 0)) for k in range(n)], globals=[(I32, 0, ggetc(n - 1)), (I32, 0, ggetc(63)), (I32, 0, ggetc(64))])
        add('%d tables' % n, types=T0, funcs=[0, 0], codes=fbodies(2), tables=[(0x70, 2 + k % 3, None) for k in range(n)], elems=[(2, n - 1, i32c(1), [1]), (2, 64, i32c(0), [0])])
        add('%d memories' % n, types=T0, mems=[(1, None)] * n, data=[(2, n - 1, i32c(1), b'ab'), (2, 64, i32c(2), b'c')])
        add('%d elements' % n, types=T0, funcs=[0] * 3, codes=fbodies(3), tables=[(0x70, 2 * n, 4 * n)], elems=[(0, 0, i32c(n), [k % 3 for k in range(n)])])
        add('%d data segments of %d bytes' % (n, n), types=T0, mems=[(1, None)], data=[(0, 0, i32c(n * k), bytes((k + j) % 255 + 1 for j in range(n if k == n - 1 else 1))) for k in range(n)])
        add('names of %d bytes' % n, ex=[('e' * n, 0, 1), ('e' * (n - 1), 0, 0)], types=T0, imports=[('m' * n, 'f' * n, 0, 0)], funcs=[0], codes=fbodies(1), customs=[(1, 'c' * n, b'x' * n)])
        add('%d exports' % n, ex=[('e%d' % k, 0, k % 2) for k in range(n)], types=T0, funcs=[0, 0], codes=fbodies(2))
        add('type with %d parameters' % n, types=[((I32,) * n, ()), ((), ())], funcs=[1, 0], codes=fbodies(2))
        add('%d locals' % n, types=T0, funcs=[0], codes=[([(n, I32), (55, I64)], body(S('tag0'), LASTLOCALS(n)))], same=dict(codes=[([(1, I32)] * n + [(1, I64)] * 55, body(S('tag0'), LASTLOCALS(n)))]))
        add('%d groups of locals' % n, types=T0, funcs=[0], codes=[([(1, (I32, F64)[k % 2]) for k in range(n)], body(S('tag0'), LASTLOCALS(n)))])
        add('body of %d bytes' % n, types=T0, funcs=[0, 0], codes=[([], body(S('tag0'), [('op', 1)] * n)), ([], body(S('tag1')))])
        add('memory of %d pages, at most %d' % (n, 2 * n), types=T0, mems=[(n, 2 * n)])
        add('table of %d entries, at most %d' % (n, 2 * n), types=T0, tables=[(0x70, n, 2 * n)])
    add('table of at most 2^32-1', types=T0, tables=[(0x70, 3, (1 << 32) - 1), (0x70, 3, 1 << 31), (0x6f, 3, (1 << 31) - 1)])
    add('memory of at most 65536', types=T0, mems=[(3, 65536), (3, 65535), (3, 32768), (16384, 16384)])
    for n in (16383, 16384, 16385): add('data segment of %d bytes' % n, types=T0, mems=[(1, None)], data=[(0, 0, i32c(100), bytes(1 + j % 250 for j in range(n)))])
    for o in (63, 64, 65, 127, 128, 8191, 8192, 16383, 16384, 65000): add('segments at %d' % o, types=T0, mems=[(1, None)], data=[(0, 0, i32c(o), b'xyz')], funcs=[0], codes=fbodies(1), tables=[(0x70, 130, None)] if o < 200 else (), elems=[(0, 0, i32c(o), [0])] if o < 200 else ())
    return out


class ModRunB(ModRun):
    """every byte of the module is read by the real readers"""
    def __init__(self, prog):
        super().__init__(prog)
        for n in self.lebnames: self.I.hook_call.pop(n, None)


def lirtrace(st): return [(e[1], e[2]) for e in st.trace() if e[0] == 'lir']


def sections(R, B, C, mod, name):
    C.shape = name
    rm = mod
    if getattr(mod, 'same', None):
        rm = Mod(**{k: v for k, v in mod.__dict__.items() if k != 'same'}); rm.__dict__.update(mod.same)
    ref = load(R, rm)
    if any(s.status == 'ret' and e is not None for s, _, e, _ in ref): return      # whether it is accepted is judged elsewhere
    if len(ref) != 1 or any(e[0] == 'rawleb' for e in ref[0][0].trace()): ref = load(B, [('b', b) for b in section_bytes(rm.slots(), 0)], hostmod=rm)
    if len(ref) != 1: C.und += 1; return
    want = [lirtrace(s) for s, *_ in ref]
    done = set()
    sl = mod.slots()
    for enc, pad in (('shortest encoding', 0), ('one redundant byte', 1), ('longest encoding', 9)):
        bs = section_bytes(sl, pad)
        C.R = B
        C.shape = '%s, %s' % (name, enc)
        h = [len(bs)]
        st = B.start()
        hh = Host(mod)
        res = hh.setup(B, st)
        ptr, n = B.module(st, [('b', b) for b in bs])
        (s,) = B.call(st, 'pwart_new_module_compiler', [])
        comp = s.result
        (s,) = B.call(s, 'pwart_set_symbol_resolver', [comp, res])
        for s in B.call(s, 'pwart_compile', [comp, ptr, n]):
            if not C.ended(s): continue
            if s.result != 0:
                C.ob += 1
                C.prob('valid encoding rejected', None, 'a valid encoding of a module that is accepted otherwise is rejected: %s' % (B.text(s, s.result),)); continue
            C.ob += 1
            got = lirtrace(s)
            if got != want[0]:
                j = next((j for j, (a, b) in enumerate(zip(got, want[0])) if a != b), min(len(got), len(want[0])))
                C.prob('other code', None, 'another code is emitted: %s instead of %s' % (sh(got[j]) if j < len(got) else 'nothing', sh(want[0][j]) if j < len(want[0]) else 'nothing'))
            for s in B.call(s, 'pwart_get_module_state', [comp]):
                rc = s.result
                for s2 in B.call(s, 'pwart_free_module_compiler', [comp]): instance(C, mod, s2, rc, hh)


def concrete2(d): return d and {k: concrete(v) for k, v in d.items()}


def module_cases(tier):
    for n, m in shapes(tier) + more_modules():
        d = dict(m.__dict__); same = d.pop('same', None)
        m2 = Mod(**{k: concrete(v) for k, v in d.items()})
        m2.same = concrete2(same)
        yield n, m2


def run(tier):
    def extra(r, p):
        R, B = ModRun(p), ModRunB(p)
        cases = [(n, lambda R, C, m=m, n=n: sections(R, B, C, m, n)) for n, m in module_cases(tier)]
        res, broken = hostcheck.analyse(r, R, 'P10', cases)
        ob = sum(x[1] for x in res)
        r.cov.update(modules=len(cases), module_obligations=ob, module_undecided=sum(x[2] for x in res), modules_not_analysed=broken[:5])
        return 0 if ob > 100000 else 1 << 60
    return tvcheck.run('P10', tier, [decoding], 15000, ["the interpreted LEB128 readers are compared over boundary values of every immediate and all redundant lengths, not over every value"], cls=TV10, extra=extra,
                       rule="the same code is emitted and the same instance is built whichever valid LEB128 encoding the immediates, counts and sizes of a body or module have, and it has the meaning of the WebAssembly text")
