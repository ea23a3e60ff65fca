"""Constant folding of value terms under a valuation of their inputs.

Used for one thing only: two normal forms that differ are reported as a contradiction only when a valuation
of the inputs (consistent with the path's conditions) folds them to different constants.  A difference that
cannot be witnessed this way is counted as undecided and never reported.
"""
import math, random, struct
from .absint import mask, sgn, bitsof


class Undef(Exception):
    """the value is unspecified (trap, undefined behaviour, no meaning)"""


class NoMeaning(Exception):
    """the term has no constant folding rule: nothing is concluded"""


def f2b(w, x):
    if w == 64: return struct.unpack('<Q', struct.pack('<d', x))[0] if x == x else 0x7ff8000000000000
    if x != x: return 0x7fc00000
    try: return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError: return 0x7f800000 | (0x80000000 if x < 0 else 0)


def b2f(w, b):
    return struct.unpack('<d', struct.pack('<Q', b))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', b))[0]


def isnan(w, b):
    return (b & 0x7fffffffffffffff) > 0x7ff0000000000000 if w == 64 else (b & 0x7fffffff) > 0x7f800000


def i2f(w, n):
    """integer to float, round to nearest even"""
    if n == 0: return 0
    s = n < 0
    a = -n if s else n
    p = 53 if w == 64 else 24
    e = a.bit_length()
    if e > p:
        k = e - p
        q, r = a >> k, a & ((1 << k) - 1)
        h = 1 << (k - 1)
        if r > h or (r == h and q & 1): q += 1
        a = q << k
    return f2b(w, -float(a) if s else float(a))


def rne(x):
    f = math.floor(x)
    d = x - f
    if d < 0.5: r = f
    elif d > 0.5: r = f + 1
    else: r = f if f % 2 == 0 else f + 1
    r = float(r)
    return math.copysign(r, x)


def canon(n):
    if n.startswith('llvm.'):
        n = n[5:]
        k = n.find('.')
        if k >= 0: n = n[:k]
    elif n.endswith('f') and n not in ('f',): n = n[:-1]
    return n


EXT = {}       # operations defined elsewhere: name -> f(bits, operand values...)


class Val:
    """one valuation"""

    def __init__(self, seed, pool=()):
        self.seed = seed
        self.rnd = random.Random(repr(seed))
        self.pool = list(pool)
        self.cells = {}
        self.cache = {}
        self.eff = ()
        self.evmemo = {}

    SPECI = [0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 31, 32, 33, 63, 64]
    SPECF = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, float('inf'), float('-inf'), float('nan'), 3.7, -3.7, 1e10, 2147483649.0, 4294967040.0, 1e30]

    def fresh(self, bits):
        r = self.rnd
        k = r.randrange(10)
        if k < 2: return r.choice(self.SPECI) & mask(bits)
        if k < 4 and self.pool: return (r.choice(self.pool) + r.choice((-1, 0, 0, 0, 1))) & mask(bits)
        if k < 6 and bits >= 32:
            b = f2b(bits, r.choice(self.SPECF))
            return b
        if k == 6 and bits >= 32:
            return f2b(32 if bits == 32 else 64, (r.random() - 0.5) * 10 ** r.randrange(0, 8))
        if k == 7: return r.randrange(0, 200)
        if k == 8:
            t = r.randrange(bits)
            return ((1 << t) | (r.getrandbits(t) if t and r.random() < .5 else 0)) << (r.randrange(bits - t) if r.random() < .5 else 0) & mask(bits)
        return r.getrandbits(bits)

    def preset(self, t, v):
        """fix the value of an input symbol"""
        bits, name = t[1], t[2]
        v &= mask(bits)
        if isinstance(name, tuple) and name and bits >= 8:
            if name[0] in ('m', 'u') and isinstance(name[2], int): self.cells.setdefault(('m', name[1]) + tuple(name[3:]), {})[name[2]] = (bits // 8, v); return
            if name[0] == 'ret': self.cells.setdefault(('ret', name[1]), {})[name[2]] = (bits // 8, v); return
            if name[0] in ('glob', ): self.cells.setdefault(('glob', name[1], name[2]), {})[0] = (bits // 8, v); return
            if name[0] in ('pages', 'tsize', 'growres'): self.cells.setdefault(name, {})[0] = (bits // 8, v); return
            if name[0] == 'fe': self.cells.setdefault(('fe',), {})[name[1]] = (bits // 8, v); return
        self.cache[('sym', bits, name)] = v

    def byte(self, base, off):
        d = self.cells.get(base)
        if d:
            for k in range(8):
                c = d.get(off - k)
                if c is not None and k < c[0]: return c[1] >> (8 * k) & 0xff
        return random.Random(repr((self.seed, base, off))).getrandbits(8)

    def cell(self, base, off, n):
        d = self.cells.setdefault(base, {})
        c = d.get(off)
        if c is None and not any(off - k in d and k < d[off - k][0] for k in range(1, 8)) and not any(off + k in d for k in range(1, n)):
            v = self.fresh(8 * n)
            if n < 8: pass
            d[off] = (n, v)
            return v
        return sum(self.byte(base, off + k) << (8 * k) for k in range(n))

    def sym(self, t):
        bits, name = t[1], t[2]
        if isinstance(name, tuple) and name and bits >= 8:
            if name[0] in ('m', 'u') and isinstance(name[2], int): return self.cell(('m', name[1]) + tuple(name[3:]), name[2], bits // 8)
            if name[0] == 'ret': return self.cell(('ret', name[1]), name[2], bits // 8)
            if name[0] in ('glob', ): return self.cell(('glob', name[1], name[2]), 0, bits // 8)
            if name[0] in ('pages', 'tsize', 'growres'): return self.cell(name, 0, bits // 8)
            if name[0] == 'fe': return self.cell(('fe',), name[1], bits // 8)
            if name[0] == 'stackaddr': return 0x7fff0000
        key = ('sym', bits, name)
        v = self.cache.get(key)
        if v is None: v = self.cache[key] = self.fresh(bits)
        return v

    def base(self, b):
        """address of an abstract object"""
        return 0x100000000000 + (random.Random(repr(b)).getrandbits(40) << 4)

    def membyte(self, region, addr, seq, eff):
        for k in range(min(seq, len(eff)) - 1, -1, -1):
            e = eff[k]
            if e[0] == 'st' and e[2] == region:
                a = self.ev(e[3])
                n = e[1] // 8
                d = (addr - a) & mask(64)
                if d < n: return (self.ev(e[4]) >> (8 * d)) & 0xff
            elif e[0] == 'fill' and e[1] == region:
                a, n = self.ev(e[2]), self.ev(e[4])
                if (addr - a) & mask(64) < n: return self.ev(e[3]) & 0xff
            elif e[0] == 'tfill' and e[1] == region:
                a, n = self.ev(e[2]), self.ev(e[4])
                d = (addr - a) & mask(64)
                if d < 8 * n: return self.ev(e[3]) >> (8 * (d % 8)) & 0xff
            elif e[0] in ('copy', 'copy-nooverlap') and e[1] == region:
                a, n = self.ev(e[2]), self.ev(e[5])
                d = (addr - a) & mask(64)
                if d < n: return self.membyte(e[3], (self.ev(e[4]) + d) & mask(64), k, eff)
            elif e[0] in ('call', 'grow'):
                c = sum(1 for x in eff[:k] if x[0] in ('call', 'grow'))
                return random.Random(repr((self.seed, region, addr, c))).getrandbits(8)
        return self.byte(('mem', region), addr)

    def ev(self, t):
        if isinstance(t, int): return t
        m = self.evmemo.get(t)
        if m is None:
            m = self.ev1(t)
            self.evmemo[t] = m
        return m

    def ev1(self, t):
        op = t[0]
        ev = self.ev
        if op == 's': return self.sym(t)
        if op == 'lin':
            return (t[2] + sum(ev(x) * k for x, k in t[3])) & mask(t[1])
        if op == 'p':
            o = ev(t[2]) if not isinstance(t[2], int) else t[2]
            if isinstance(t[1], tuple) and t[1][0] == 'd': return (ev(t[1][1]) + o) & mask(64)
            b = t[1]
            if b[0] == 'MB': b = b[:2]
            return (self.base(b) + o) & mask(64)
        bits = t[1]
        m = mask(bits)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'rotl', 'rotr'):
            a, b = ev(t[2]) & m, ev(t[3]) & m
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= bits: raise Undef
                if op == 'shl': return (a << b) & m
                if op == 'lshr': return a >> b
                return (sgn(a, bits) >> b) & m
            if op in ('rotl', 'rotr'):
                k = b % bits
                if op == 'rotr': k = -k % bits
                return ((a << k) | (a >> (bits - k))) & m if k else a
            if b == 0: raise Undef
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            sa, sb = sgn(a, bits), sgn(b, bits)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            if op == 'sdiv':
                if q >> (bits - 1) == 1: raise Undef
                return q & m
            if q >> (bits - 1) == 1: return 0
            return (sa - q * sb) & m
        if op == 'zext': return ev(t[2]) & mask(bitsof(t[2]))
        if op == 'trunc': return ev(t[2]) & m
        if op == 'sext':
            ib = bitsof(t[2])
            return sgn(ev(t[2]) & mask(ib), ib) & m
        if op == 'icmp':
            from .absint import mkicmp
            w = t[5]
            return mkicmp(t[2], w, ev(t[3]) & mask(w), ev(t[4]) & mask(w))
        if op == 'not': return 1 - ev(t[2])
        if op == 'select': return ev(t[3]) if ev(t[2]) else ev(t[4])
        if op == 'fcmp':
            pred, w, a, b = (t[2], t[3], t[4], t[5]) if isinstance(t[3], int) and t[3] in (32, 64) and len(t) == 6 and isinstance(t[2], str) and not isinstance(t[5], str) else (t[2], 64 if t[5] == 'double' else 32, t[3], t[4])
            x, y = self.fl(a, w), self.fl(b, w)
            n = x != x or y != y
            if pred == 'uno': return int(n)
            if pred == 'ord': return int(not n)
            if pred == 'true': return 1
            if pred == 'false': return 0
            if len(pred) == 2: k, r = 'o', pred
            else: k, r = pred[0], pred[1:]
            if n:
                if k == 'p': raise NoMeaning
                return int(k == 'u') if len(pred) == 3 else int(r == 'ne')
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[r])
        if op == 'ld':
            n = bits // 8
            a = ev(t[3])
            return sum(self.membyte(t[2], (a + k) & mask(64), t[4], self.eff) << (8 * k) for k in range(n))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.fl(t[2], bits), self.fl(t[3], bits)
            try:
                r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else fdiv(x, y)
            except OverflowError:
                raise NoMeaning
            return f2b(bits, r)
        if op == 'fneg': return self.fb(t[2], bits) ^ (1 << (bits - 1))
        if op == 'fabs': return self.fb(t[2], bits) & mask(bits - 1)
        if op == 'copysign': return self.fb(t[2], bits) & mask(bits - 1) | self.fb(t[3], bits) & (1 << (bits - 1))
        if op == 'fpext': return f2b(64, self.fl(t[2], 32))
        if op == 'fptrunc': return f2b(32, self.fl(t[2], 64))
        if op in ('fptosi', 'fptoui', 'satsi', 'satui'):
            fw = t[3]
            if isinstance(fw, str): fw = 64 if fw == 'double' else 32
            x = self.fl(t[2], fw)
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if op[-2:] == 'si' else (0, m)
            if x != x:
                if op[:3] == 'sat': return 0
                raise Undef
            if abs(x) == float('inf'): n = lo - 1 if x < 0 else hi + 1
            else: n = int(x)
            if n < lo or n > hi:
                if op[:3] == 'sat': return (lo if n < lo else hi) & m
                raise Undef
            return n & m
        if op in ('sitofp', 'uitofp'):
            iw = t[3] if len(t) > 3 and isinstance(t[3], int) else None
            if len(t) > 3 and isinstance(t[3], str): iw = int(t[3][1:])
            if iw is None: iw = bitsof(t[2]) if not isinstance(t[2], int) else 64
            n = ev(t[2]) & mask(iw)
            return i2f(bits, sgn(n, iw) if op == 'sitofp' else n)
        if op in ('fmin', 'fmax'):
            x, y = self.fl(t[2], bits), self.fl(t[3], bits)
            if x != x or y != y: return f2b(bits, float('nan'))
            if x == 0 and y == 0:
                a, b = self.fb(t[2], bits), self.fb(t[3], bits)
                return a | b if op == 'fmin' else a & b
            return f2b(bits, min(x, y) if op == 'fmin' else max(x, y))
        if op == 'fcall': return self.fcall(t)
        if op == 'clz':
            v = ev(t[2]) & m
            return bits - v.bit_length()
        if op == 'ctz':
            v = ev(t[2]) & m
            return bits if v == 0 else (v & -v).bit_length() - 1
        if op == 'popcnt': return bin(ev(t[2]) & m).count('1')
        if op == 'bits' or op == 'bitcast': return self.fb(t[2], bits)
        if op == 'fc': return f2b(bits, t[2])
        if op == 'cat':
            r = 0
            for i, p in t[2]:
                if p[0] is None: raise Undef
                r |= (ev(p[0]) >> (8 * p[1]) & 0xff) << (8 * i)
            return r
        if op == 'extr':
            return ev(t[2]) >> (8 * t[3]) & m
        if op in ('undefshift', 'undefdiv'): raise Undef
        if op in EXT: return EXT[op](bits, *[ev(x) for x in t[2:]]) & m
        raise NoMeaning

    def fb(self, t, w):
        """float bits of operand"""
        if isinstance(t, int): return t & mask(w)
        if t[0] == 'fc': return f2b(w, t[2])
        return self.ev(t) & mask(w)

    def fl(self, t, w):
        return b2f(w, self.fb(t, w))

    def fcall(self, t):
        bits, n, args = t[1], canon(t[2]), t[3:]
        if n in ('ctlz', 'cttz', 'ctpop'):
            v = self.ev(args[0]) & mask(bits)
            if n == 'ctpop': return bin(v).count('1')
            if v == 0:
                if len(args) > 1 and self.ev(args[1]): raise Undef
                return bits
            return bits - v.bit_length() if n == 'ctlz' else (v & -v).bit_length() - 1
        if n in ('fshl', 'fshr'):
            a, b, s = (self.ev(x) & mask(bits) for x in args)
            s %= bits
            w = (a << bits) | b
            return (w << s >> bits) & mask(bits) if n == 'fshl' else (w >> s) & mask(bits)
        if n == 'fabs': return self.fb(args[0], bits) & mask(bits - 1)
        if n == 'copysign': return self.fb(args[0], bits) & mask(bits - 1) | self.fb(args[1], bits) & (1 << (bits - 1))
        x = self.fl(args[0], bits)
        if n in ('ceil', 'floor', 'trunc', 'rint', 'nearbyint', 'roundeven', 'nearest', 'round'):
            if x != x: return f2b(bits, x)
            if abs(x) == float('inf'): return f2b(bits, x)
            r = {'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc}.get(n)
            if r: return f2b(bits, math.copysign(float(r(x)), x))
            if n == 'round': return f2b(bits, math.copysign(math.floor(abs(x) + 0.5), x))
            return f2b(bits, rne(x))
        if n == 'sqrt':
            if x != x or x < 0: return f2b(bits, float('nan'))
            return f2b(bits, math.sqrt(x))
        if n in ('fmin', 'fmax', 'minnum', 'maxnum'):
            y = self.fl(args[1], bits)
            if x != x: return f2b(bits, y)
            if y != y: return f2b(bits, x)
            if x == y: raise NoMeaning
            return f2b(bits, (min if 'min' in n else max)(x, y))
        raise NoMeaning


def fdiv(x, y):
    if x != x or y != y: return float('nan')
    if y == 0:
        if x == 0: return float('nan')
        return math.copysign(float('inf'), x) * math.copysign(1.0, y)
    return x / y


def consts(t, out, d=0):
    if isinstance(t, int):
        if not isinstance(t, bool): out.add(t)
        return
    if isinstance(t, tuple) and d < 12:
        if t[:1] == ('s',): return
        for x in t[2:] if len(t) > 2 else ():
            consts(x, out, d + 1)


def holds(v, groups):
    """the (term, truth) conditions of every (conditions, effects) group hold; raises Undef, NoMeaning"""
    for cs, eff in groups:
        if eff != v.eff: v.eff = eff; v.evmemo = {}
        for t, tr in cs:
            if bool(v.ev(t)) != tr: return False
    return True


def valuations(conds, seeds, tries=1500, want=24, groups=None):
    """valuations under which all (term, truth) conditions hold"""
    groups = groups or [(conds, ())]
    pool = set()
    for t, tr in conds: consts(t, pool)
    pool = sorted(x for x in pool if x >= 0)[:200]
    got = 0
    for k in range(tries):
        v = Val((seeds, k), pool)
        try: ok = holds(v, groups)
        except (Undef, NoMeaning):
            ok = False
        if ok:
            got += 1
            yield v
            if got >= want: return


def _special(w):
    """inputs at which integer, float and conversion operations change behaviour"""
    out = list(Val.SPECI)
    for k in (8, 15, 16, 23, 24, 25, 31, 32, 33, 52, 53, 54, 62, 63):
        if k < w: out += [1 << k, (1 << k) - 1, (1 << k) + 1, mask(w) ^ ((1 << k) - 1), (-(1 << k) - 1) & mask(w)]
    # ties of integer to float rounding, alone and with a sticky bit
    out += [0x8000008000000001, 0x8000008000000000, 0x4000004000000001, 0xbfffffbfffffffff, 0x8000000000000401, 0x8000000000000400, 0x8000000000000c00,
            0x4000000000000201, 0xbffffffffffffdff, 0x0020000000000001, 0x0020000000000003, 0xffdfffffffffffff, 0x01000001, 0x01000003, 0xfeffffff, 0x80000080, 0x800000c0, 0x80000180]
    fs = list(Val.SPECF) + [-1.5, -2.5, 0.49999997, 0.49999999999999994, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9007199254740993.0,
                            9223372036854775807.0, -9223372036854775808.0, 18446744073709549568.0, 18446744073709551616.0, -0.9, 0.9, -0.1, 4503599627370497.5, 8388609.5, 8388607.5, 1e-45, 5e-324, 3.4e38, 1.7e308, -9223371487098961920.0, 9223372036854774784.0, 2147483520.0, 9223371487098961920.0, 18446742974197923840.0]
    for x in fs:
        out.append(f2b(w, x))
    if w == 64: out += [0x7ff4000000000001, 0xfff4000000000001, 0x7ff0000000000001, 0xfff8000000000000, 1, 0x000fffffffffffff]
    else: out += [0x7fa00001, 0xffa00001, 0x7f800001, 0xffc00000, 1, 0x007fffff]
    r = []
    for x in out:
        x &= mask(w)
        if x not in r: r.append(x)
    return r


SPECIAL = {32: _special(32), 64: _special(64)}


def symbols(t, out, d=0):
    if isinstance(t, tuple):
        if t[:1] == ('s',):
            if t not in out: out.append(t)
            return
        if d < 40 and len(out) < 6:
            for x in t: symbols(x, out, d + 1)


def directed(terms, conds, groups=None):
    """valuations that put each of the (at most two) inputs of the terms at its special values"""
    syms = []
    for t in terms: symbols(t, syms)
    syms = [t for t in syms if t[1] in (32, 64)]
    if not 0 < len(syms) <= 2: return
    a = SPECIAL[syms[0][1]]
    if len(syms) == 1: jobs = [(x,) for x in a]
    else:
        b = SPECIAL[syms[1][1]]
        r = random.Random(5)
        jobs = [(r.choice(a), r.choice(b)) for _ in range(150)] + [(x, x) for x in a if x in b][:40]
        if syms[0][1] == syms[1][1]:
            jobs += [(x, x ^ 1 << (syms[0][1] - 1)) for x in a[::3]]
    for k, j in enumerate(jobs):
        v = Val(('dir', k), ())
        for t, x in zip(syms, j): v.preset(t, x)
        try:
            if holds(v, groups or [(conds, ())]): yield v
        except (Undef, NoMeaning): pass


def canonical(terms):
    """the terms with their input symbols renamed in order of occurrence, or None when too large"""
    names = {}
    n = [0]

    def go(t):
        if not isinstance(t, tuple): return t
        n[0] += 1
        if n[0] > 400: raise OverflowError
        if t[:1] == ('s',):
            return ('s', t[1], names.setdefault(t, len(names)))
        return tuple(go(x) for x in t)
    try:
        return tuple(go(t) for t in terms)
    except OverflowError:
        return None
