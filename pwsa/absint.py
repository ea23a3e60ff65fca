"""Path-partitioned abstract interpreter over the LLVM IR objects of ir.py.

Abstract values
  int                      a known integer (canonical unsigned)
  ('p', base, off)         pointer into an abstract object; off is an int or a term
  (op, bits, ...)          hash-consable pure term over unknown inputs; ('s', bits, name) is an input,
                           ('lin', bits, c, ((t,k),..)) a linear form modulo 2^bits
  ('fc', bits, x)          floating constant
Memory is a map object -> offset -> (size, value); objects never written at an offset yield an input
symbol named by its location ('lazy'), zero ('zero', calloc) or an undefined symbol ('undef', malloc).
An undecided branch splits the abstract state (both sides are kept, the condition is assumed);
undecided loops are cut off by widening: after WIDEN splits at one branch everything the loop has written
is forgotten.  Nothing of the analysed program runs and no solver is used.
"""
import sys, time

MASK = {1: 1, 8: 0xff, 16: 0xffff, 32: 0xffffffff, 64: 0xffffffffffffffff, 33: (1 << 33) - 1}
BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64, 'float': 32, 'double': 64, 'i33': 33}


class Broken(Exception):
    """the analysis itself cannot proceed: never reported as a violation"""


def mask(bits):
    m = MASK.get(bits)
    if m is None:
        m = MASK[bits] = (1 << bits) - 1
    return m


def sgn(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


def fbits(w, x):
    import struct
    if w == 64: return struct.unpack('<Q', struct.pack('<d', x))[0] if x == x else 0x7ff8000000000000
    if x != x: return 0x7fc00000
    try: return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError: return 0x7f800000 | (0x80000000 if x < 0 else 0)


def bitsof(t):
    if t[0] == 'p':
        return 64
    return t[1]


def _k(t):
    return repr(t)


def mklin(bits, c, terms):
    m = mask(bits)
    d = {}
    for t, k in terms:
        d[t] = (d.get(t, 0) + k) & m
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: _k(x[0])))
    c &= m
    if not items:
        return c
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    return ('lin', bits, c, items)


def lin(v, bits):
    """-> (const, ((term,coef)...))"""
    if isinstance(v, int):
        return v, ()
    if v[0] == 'lin':
        return v[2], v[3]
    return 0, ((v, 1),)


def lowbit(n): return n & -n


def fields(v, bits):
    """a linear form as single-bit-weight parts [(weight exponent, term, max)], or None"""
    if v[0] != 'lin' or len(v[3]) > 80: return None
    out = []
    c = v[2]
    if c: return None
    for t, k in v[3]:
        hi = urange(t)[1]
        if hi > 15: return None
        e = 0
        while k:
            if k & 1: out.append((e, t, hi))
            k >>= 1
            e += 1
    return out


def maskfields(v, bits, m):
    """linear form & constant mask, exact when no segment of the mask can carry into the next"""
    fs = fields(v, bits)
    if fs is None or len(fs) < 2: return None
    seg = []
    a = 0
    while a < bits:
        b = a
        bit = m >> a & 1
        while b < bits and (m >> b & 1) == bit: b += 1
        seg.append((a, b, bit))
        a = b
    keep = []
    for a, b, bit in seg:
        tot = 0
        for e, t, hi in fs:
            if a <= e < b:
                tot += hi << e
                if bit: keep.append((t, 1 << e))
        if b < bits and tot >> b: return None
        if b == bits and tot >> bits: return None
    return keep


COMM = {'mul', 'and', 'or', 'xor', 'fadd', 'fmul'}


def padd(p, o):
    """pointer + byte offset"""
    if isinstance(p, int):
        if isinstance(o, int):
            return (p + o) & MASK[64]
        if p == 0:
            return o
        return mkbin('add', 64, p, o)
    if p[0] == 'p':
        if isinstance(o, int) and o == 0:
            return p
        n = p[2]
        if isinstance(n, int) and isinstance(o, int):
            n = n + o
            if n >= 1 << 63:
                n -= 1 << 64
        else:
            n = mkbin('add', 64, n & MASK[64] if isinstance(n, int) else n, o & MASK[64] if isinstance(o, int) else o)
        if n == 0 and isinstance(p[1], tuple) and p[1][0] == 'd':
            return p[1][1]
        return ('p', p[1], n)
    if isinstance(o, int) and o == 0:
        return p
    c, ts = lin(p, 64)
    if p[0] == 'lin' and len(ts) == 1 and ts[0][1] == 1:
        return padd(('p', ('d', ts[0][0]), sgn(c, 64)), o)
    return padd(('p', ('d', p), 0), o)


ABS = []      # (lo, hi, base): absolute addresses that denote objects


def undefptr(b):
    """the base of a pointer that was read from memory nothing was written to"""
    return isinstance(b, tuple) and b[0] == 'd' and isinstance(b[1], tuple) and b[1][0] == 's' and b[1][1] == 64 and isinstance(b[1][2], tuple) and b[1][2][:1] == ('u',)


def aspair(v):
    """address value -> (base, off) or None"""
    if isinstance(v, tuple):
        if v[0] == 'p':
            return v[1], v[2]
        if v[0] == 'lin':
            c, ts = v[2], v[3]
            if len(ts) == 1 and ts[0][1] == 1:
                return ('d', ts[0][0]), sgn(c, 64)
            # a pointer-valued leading term
            for t, k in ts:
                if k == 1 and t[0] == 'p':
                    rest = mklin(64, c, [x for x in ts if x[0] != t])
                    q = padd(t, rest)
                    return q[1], q[2]
        return ('d', v), 0
    for lo, hi, base in ABS:
        if lo <= v < hi: return base, v - lo
    return ('abs',), v


def palign(base):
    """known alignment of an object"""
    if base == ('FP',): return 8           # a function frame starts at a multiple of 8
    if isinstance(base, tuple) and base[0] in ('h', 'STK'): return 16       # malloc, pwart_allocate_stack
    return 1


def mkbin(op, bits, a, b):
    m = mask(bits)
    if isinstance(a, int) and isinstance(b, int):
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < bits else ('undefshift', bits, op, a, b)
        if op == 'lshr': return a >> b if b < bits else ('undefshift', bits, op, a, b)
        if op == 'ashr': return (sgn(a, bits) >> b) & m if b < bits else ('undefshift', bits, op, a, b)
        if b == 0: return ('undefdiv', bits, op, a, b)
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        sa, sb = sgn(a, bits), sgn(b, bits)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0): q = -q
        if op == 'sdiv': return q & m
        if op == 'srem': return (sa - q * sb) & m
        raise Broken("op " + op)
    if op in ('add', 'sub'):
        pa = isinstance(a, tuple) and a[0] == 'p'
        pb = isinstance(b, tuple) and b[0] == 'p'
        if pa and pb and op == 'sub' and a[1] == b[1]:
            return mkbin('sub', 64, a[2] & MASK[64] if isinstance(a[2], int) else a[2], b[2] & MASK[64] if isinstance(b[2], int) else b[2])
        if pa and not pb:
            if op == 'add': return padd(a, b if not isinstance(b, int) else sgn(b, 64))
            if isinstance(b, int): return padd(a, -sgn(b, 64))
            return padd(a, mkbin('sub', 64, 0, b))
        if pb and not pa and op == 'add':
            return padd(b, a if not isinstance(a, int) else sgn(a, 64))
        if not pa and not pb:
            ca, ta = lin(a, bits)
            cb, tb = lin(b, bits)
            if op == 'sub':
                return mklin(bits, ca - cb, list(ta) + [(t, -k) for t, k in tb])
            return mklin(bits, ca + cb, list(ta) + list(tb))
        if op == 'sub':
            # pointer - term of other base
            return ('sub', bits, a, b)
    if op == 'mul':
        if isinstance(b, int): a, b = b, a
        if isinstance(a, int) and not (b[0] == 'p'):
            if a == 0: return 0
            c, ts = lin(b, bits)
            return mklin(bits, c * a, [(t, k * a) for t, k in ts])
    elif op == 'shl' and isinstance(b, int) and b < bits:
        if not (a[0] == 'p'):
            c, ts = lin(a, bits)
            return mklin(bits, c << b, [(t, k << b) for t, k in ts])
    elif op == 'and':
        if isinstance(b, int): a, b = b, a
        if isinstance(a, int):
            if a == 0: return 0
            if a == m: return b
            q = b[2] if b[0] == 'trunc' else b
            if q[0] == 'p' and isinstance(q[2], int):
                al = palign(q[1])
                if a < al: return q[2] & a
                if (m ^ a) < al and q is b: return ('p', q[1], q[2] - (q[2] & (m ^ a)))
            if b[0] == 'lin':
                if a & (a + 1) == 0 and all(k & a == 0 for _, k in b[3]): return b[2] & a
                kf = maskfields(b, bits, a)
                if kf is not None: return mklin(bits, 0, kf)
            if b[0] == 'and' and isinstance(b[2], int):
                return mkbin('and', bits, a & b[2], b[3])
            if b[0] == 'zext':
                iw = bitsof(b[2])
                if a & mask(iw) == mask(iw): return b
                if a & mask(iw) == 0: return 0
        elif a == b: return a
    elif op in ('or', 'xor'):
        if isinstance(b, int): a, b = b, a
        if isinstance(a, int):
            if a == 0: return b
            if op == 'or' and a == m: return m
        elif a == b:
            return a if op == 'or' else 0
    elif op in ('urem', 'srem') and isinstance(b, int) and b and b & (b - 1) == 0 and isinstance(a, tuple) and a[0] == 'p' and isinstance(a[2], int) and b <= palign(a[1]):
        if op == 'urem': return a[2] & (b - 1)
    elif op in ('lshr', 'ashr', 'shl'):
        if b == 0: return a
        if a == 0 and isinstance(a, int): return 0
        if op == 'lshr' and isinstance(b, int) and b < bits and a[0] == 'lin':
            kf = maskfields(a, bits, m ^ mask(b)) if b else None
            if kf is not None: return mklin(bits, 0, [(t, k >> b) for t, k in kf])
    elif op in ('udiv', 'sdiv'):
        if b == 1: return a
        if isinstance(b, int) and b and isinstance(a, tuple) and a[0] == 'lin':
            # exact element-index division  (k*i*sz)/sz
            if all(k % b == 0 for _, k in a[3]) and a[2] % b == 0:
                return mklin(bits, a[2] // b, [(t, k // b) for t, k in a[3]])
    if op in COMM and _k(b) < _k(a):
        a, b = b, a
    return (op, bits, a, b)


def mkcast(op, fb, tb, v):
    if op in ('zext', 'sext', 'trunc') and isinstance(v, tuple) and bitsof(v) == tb: return v
    if op == 'trunc':
        if isinstance(v, int): return v & mask(tb)
        if v[0] in ('zext', 'sext'):
            ib = bitsof(v[2])
            if ib == tb: return v[2]
            if ib < tb: return (v[0], tb, v[2])
            return mkcast('trunc', ib, tb, v[2])
        if v[0] == 'lin':
            return mklin(tb, v[2], [(mkcast('trunc', fb, tb, t) if True else t, k) for t, k in v[3] if True]) if all(
                not isinstance(mkcast('trunc', fb, tb, t), int) for t, k in v[3]) else ('trunc', tb, v)
        if v[0] == 'and' and isinstance(v[2], int):
            return mkbin('and', tb, v[2] & mask(tb), mkcast('trunc', fb, tb, v[3]))
        if v[0] == 'trunc': return ('trunc', tb, v[2])
        return ('trunc', tb, v)
    if op == 'zext':
        if isinstance(v, int): return v
        if v[0] == 'zext': return ('zext', tb, v[2])
        return ('zext', tb, v)
    if op == 'sext':
        if isinstance(v, int): return sgn(v, fb) & mask(tb)
        if v[0] == 'sext': return ('sext', tb, v[2])
        if v[0] == 'zext': return ('zext', tb, v[2])
        return ('sext', tb, v)
    return (op, tb, v)


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def mkicmp(pred, bits, a, b):
    if isinstance(a, int) and isinstance(b, int):
        if pred == 'eq': return int(a == b)
        if pred == 'ne': return int(a != b)
        if pred[0] == 's':
            a, b = sgn(a, bits), sgn(b, bits)
        p = pred[1:]
        return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
    if a == b:
        return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    if isinstance(a, int):
        a, b, pred = b, a, SWAP[pred]
    ap = a[0] == 'p'
    bp = isinstance(b, tuple) and b[0] == 'p'
    if ap and b == 0 and isinstance(b, int):
        # address of an abstract object (never null; 'd' bases: the term itself may be null)
        if not (isinstance(a[1], tuple) and a[1][0] == 'd' and a[2] == 0):
            return int(pred in ('ne', 'ugt'))
    if ap and bp:
        if a[1] == b[1]:
            if isinstance(a[2], int) and isinstance(b[2], int):
                return mkicmp(pred, 64, a[2] & MASK[64], b[2] & MASK[64])
            d = mkbin('sub', 64, a[2] & MASK[64] if isinstance(a[2], int) else a[2], b[2] & MASK[64] if isinstance(b[2], int) else b[2])
            if pred in ('eq', 'ne') and isinstance(d, int):
                return mkicmp(pred, 64, d, 0)
        elif pred in ('eq', 'ne') and not any(isinstance(x[1], tuple) and x[1][0] == 'd' for x in (a, b)):
            return int(pred == 'ne')
    if pred in ('eq', 'ne') and isinstance(b, int):
        if a[0] == 'zext':
            ib = bitsof(a[2])
            if b >> ib: return int(pred == 'ne')
            if ib == 1:
                inner = a[2]
                want = (pred == 'eq') == (b == 1)
                return inner if want else mknot(inner)
            return mkicmp(pred, ib, a[2], b)
        if a[0] == 'icmp' and bits == 1:
            want = (pred == 'eq') == (b == 1)
            return a if want else mknot(a)
        if a[0] == 'lin' and len(a[3]) == 1 and a[3][0][1] == 1:
            return mkicmp(pred, bits, a[3][0][0], (b - a[2]) & mask(bits))
    elif pred in ('eq', 'ne') and isinstance(b, tuple) and not ap and not bp:
        d = mkbin('sub', bits, a, b)
        if isinstance(d, int):
            return mkicmp(pred, bits, d, 0)
    return ('icmp', 1, pred, a, b, bits)


def mknot(c):
    if isinstance(c, int): return 1 - c
    if c[0] == 'icmp': return ('icmp', 1, NEG[c[2]], c[3], c[4], c[5])
    if c[0] == 'not': return c[2]
    return ('not', 1, c)


def urange(t, st=None, d=0):
    """unsigned range of a term"""
    if isinstance(t, int): return t, t
    if st is not None and t in st.rng: return st.rng[t]
    b = bitsof(t)
    if d < 6:
        if t[0] == 'zext': return urange(t[2], st, d + 1)
        if t[0] == 'and' and isinstance(t[2], int): return 0, t[2]
        if t[0] == 'lshr' and isinstance(t[3], int):
            lo, hi = urange(t[2], st, d + 1)
            return lo >> t[3], hi >> t[3]
        if t[0] == 'lin' and all(0 < k < 1 << 31 for _, k in t[3]):
            lo = hi = t[2]
            for x, k in t[3]:
                l2, h2 = urange(x, st, d + 1)
                lo += l2 * k
                hi += h2 * k
            if hi <= mask(b): return lo, hi
            if len(t[3]) == 1 and t[3][0][1] == 1 and lo > mask(b):
                return lo & mask(b), hi & mask(b)
        if t[0] == 'urem' and isinstance(t[3], int) and t[3]: return 0, t[3] - 1
        if t[0] == 'p': return 1, mask(64)
    return 0, mask(b)


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'env', 'prev', 'ret', 'args', 'forks', 'ctx')

    def copy(self):
        f = Frame()
        f.fn = self.fn; f.blk = self.blk; f.idx = self.idx
        f.env = dict(self.env); f.prev = self.prev; f.ret = self.ret; f.args = self.args
        f.forks = dict(self.forks) if self.forks else None
        f.ctx = self.ctx
        return f


class State:
    __slots__ = ('size', 'frames', 'mem', 'own', 'kind', 'eq', 'rng', 'assumed', 'events', 'nev', 'n', 'steps', 'freed', 'user', 'result', 'status', 'ver', 'incomplete')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.kind = {}       # base -> 'zero'|'undef'|'lazy'
        self.size = {}       # base -> size in bytes, where it is a constant
        self.eq = {}
        self.rng = {}
        self.assumed = {}
        self.events = None   # linked list (prev, ev)
        self.nev = 0
        self.n = 0           # fresh names
        self.steps = 0
        self.freed = {}
        self.user = {}
        self.result = None
        self.status = None
        self.ver = {}
        self.incomplete = False

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.kind = dict(self.kind)
        s.size = dict(self.size)
        s.eq = dict(self.eq)
        s.rng = dict(self.rng)
        s.assumed = dict(self.assumed)
        s.events = self.events
        s.nev = self.nev
        s.n = self.n
        s.steps = self.steps
        s.freed = dict(self.freed)
        s.user = dict(self.user)
        s.result = self.result
        s.status = self.status
        s.ver = dict(self.ver)
        s.incomplete = self.incomplete
        return s

    def fresh(self):
        self.n += 1
        return self.n

    def emit(self, ev):
        self.events = (self.events, ev)
        self.nev += 1

    def trace(self):
        out = []
        e = self.events
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def obj(self, base, kind='undef'):
        self.mem[base] = {}
        self.own.add(base)
        self.kind[base] = kind
        return ('p', base, 0)

    def wr(self, base):
        d = self.mem.get(base)
        if d is None:
            d = self.mem[base] = {}
            self.own.add(base)
        elif base not in self.own:
            d = self.mem[base] = dict(d)
            self.own.add(base)
        return d

    def put(self, base, off, size, val):
        """strong store"""
        if isinstance(val, tuple) and size in (4, 8):
            if val[0] == 'trunc' and isinstance(val[2], tuple) and val[2][0] == 'fc': val = val[2]
            if val[0] == 'fc': val = fbits(8 * size, val[2])
        d = self.wr(base)
        c = d.get(off)
        if c is None or c[0] != size:
            if isinstance(off, int):
                for o in range(off - 15, off + size):
                    c2 = d.get(o)
                    if c2 is not None and o < off + size and o + c2[0] > off and o != off:
                        del d[o]
                        self.split(d, o, c2, off, size)
                if c is not None and c[0] > size:
                    self.split(d, off, c, off, size)
                if len(d) > 60 or True:
                    # large cells (>16 bytes) do not exist: cells are scalars
                    pass
            else:
                key = lin(off, 64)[1]
                for o in [o for o in d if not isinstance(o, int) and lin(o, 64)[1] == key]:
                    c0 = sgn(lin(o, 64)[0], 64)
                    w0 = sgn(lin(off, 64)[0], 64)
                    if c0 < w0 + size and w0 < c0 + d[o][0]:
                        del d[o]
        d[off] = (size, val)
        # aliasing between different symbolic parts of one array object
        if not isinstance(off, int):
            key = lin(off, 64)[1]
            for o in [o for o in d if (isinstance(o, int) or lin(o, 64)[1] != key)]:
                del d[o]
            self.ver[base] = self.ver.get(base, 0) + 1
        elif self.ver.get(base):
            for o in [o for o in d if not isinstance(o, int)]:
                del d[o]

    @staticmethod
    def split(d, o, c, off, size):
        """keep the bytes of integer cell c (at o) not overwritten by [off,off+size)"""
        if isinstance(c[1], int):
            for i in range(c[0]):
                if not (off <= o + i < off + size):
                    d[o + i] = (1, (c[1] >> (8 * i)) & 0xff)

    def default(self, base, off, size, isf=False):
        k = self.kind.get(base, 'lazy')
        v = self.ver.get(base)
        if v:
            k = 'lazy'
        if k == 'zero':
            return 0
        nm = ('u' if k == 'undef' else 'm', base, off) + ((v,) if v else ())
        return ('s', size * 8, nm)

    def get(self, base, off, size):
        d = self.mem.get(base)
        if d is None:
            return self.default(base, off, size)
        c = d.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if isinstance(off, int):
            if c is not None and c[0] > size:
                if isinstance(c[1], int): return c[1] & mask(8 * size)
                if c[1][0] == 'p': return ('trunc', 8 * size, c[1])
                return mkcast('trunc', c[0] * 8, size * 8, c[1]) if c[1][0] not in ('fc',) else ('trunc', 8 * size, c[1])
            if d:
                # assemble from bytes / enclosing cell
                parts = {}
                hit = False
                for o in range(off - 8, off + size):
                    c2 = d.get(o)
                    if c2 is not None and o + c2[0] > off:
                        hit = True
                        for i in range(c2[0]):
                            parts[o + i] = (c2[1], i, o, c2[0])
                if hit:
                    val = 0
                    ok = True
                    for i in range(size):
                        p = parts.get(off + i)
                        if p is None:
                            if self.kind.get(base) == 'zero': continue
                            ok = False; break
                        if not isinstance(p[0], int):
                            ok = False; break
                        val |= ((p[0] >> (8 * p[1])) & 0xff) << (8 * i)
                    if ok: return val
                    p = parts.get(off)
                    if p and p[2] + p[3] >= off + size and not isinstance(p[0], int):
                        return ('extr', size * 8, p[0], off - p[2])
                    if p and p[1] == 0 and not isinstance(p[0], int) and p[3] in (1, 2, 4):
                        hi = [parts.get(off + i) for i in range(p[3], size)]
                        if all((x is None and self.kind.get(base) == 'zero') or (x is not None and isinstance(x[0], int) and x[0] >> 8 * x[1] & 255 == 0) for x in hi):
                            return mkcast('zext', 8 * p[3], 8 * size, p[0])
                    lst = tuple((i, parts.get(off + i, (None,))[:2]) for i in range(size))
                    return ('cat', size * 8, lst)
        elif d:
            key = lin(off, 64)[1]
            w0 = sgn(lin(off, 64)[0], 64)
            for o, c2 in d.items():
                if isinstance(o, int) or c2[0] < size or lin(o, 64)[1] != key: continue
                k = w0 - sgn(lin(o, 64)[0], 64)
                if 0 <= k and k + size <= c2[0]:
                    if isinstance(c2[1], int): return c2[1] >> 8 * k & mask(8 * size)
                    return ('extr', size * 8, c2[1], k)
        r = self.default(base, off, size)
        return r

    def havoc_at(self, base):
        self.mem[base] = {}
        self.own.add(base)
        self.ver[base] = self.ver.get(base, 0) + 1

    def res(self, v):
        if isinstance(v, tuple):
            e = self.eq.get(v)
            if e is not None: return e
        return v

    def assume(self, c, truth):
        """records that i1-term c is truth; False if contradictory"""
        if isinstance(c, int): return bool(c) == truth
        if c[0] == 'not':
            return self.assume(c[2], not truth)
        if c[0] == 'icmp':
            if not truth:
                c = mknot(c)
            pred, a, b, bits = c[2], c[3], c[4], c[5]
            self.assumed[c] = 1
            self.assumed[mknot(c)] = 0
            if pred == 'eq':
                if isinstance(b, int):
                    self.eq[a] = b
                    if a[0] == 'zext': self.eq[a[2]] = b
                    if a[0] == 'sext':
                        self.eq[a[2]] = b & mask(bitsof(a[2]))
                elif isinstance(b, tuple) and a[0] == 's':
                    self.eq[a] = b
            elif isinstance(b, int):
                lo, hi = urange(a, self)
                if pred == 'ult' and b > 0: hi = min(hi, b - 1)
                elif pred == 'ule': hi = min(hi, b)
                elif pred == 'ugt': lo = max(lo, b + 1)
                elif pred == 'uge': lo = max(lo, b)
                elif pred == 'ne':
                    if lo == b: lo += 1
                    if hi == b: hi -= 1
                elif pred in ('slt', 'sle', 'sgt', 'sge'):
                    half = 1 << (bits - 1)
                    sb = sgn(b, bits)
                    if pred == 'sgt' and sb >= -1: lo, hi = max(lo, sb + 1), min(hi, half - 1)
                    elif pred == 'sge' and sb >= 0: lo, hi = max(lo, sb), min(hi, half - 1)
                    elif pred == 'slt' and sb <= 0: lo = max(lo, half)
                    elif pred == 'sle' and sb < 0: lo = max(lo, half)
                    elif hi < half and pred == 'slt': hi = min(hi, sb - 1)
                    elif hi < half and pred == 'sle': hi = min(hi, sb)
                if lo > hi: return False
                self.rng[a] = (lo, hi)
                if a[0] == 'zext' : self.rng[a[2]] = (lo, hi)
                if lo == hi: self.eq[a] = lo
            return True
        self.assumed[c] = int(truth)
        self.assumed[mknot(c)] = int(not truth)
        self.eq[c] = int(truth)
        return True

    def decide(self, c):
        """truth of an i1 term, or None"""
        if isinstance(c, int): return bool(c)
        v = self.assumed.get(c)
        if v is not None: return bool(v)
        if c[0] == 'not':
            v = self.decide(c[2])
            return None if v is None else not v
        if c[0] == 'icmp':
            pred, a, b, bits = c[2], c[3], c[4], c[5]
            a2, b2 = self.res(a), self.res(b)
            if a2 is not a or b2 is not b:
                r = mkicmp(pred, bits, a2, b2)
                if isinstance(r, int): return bool(r)
                v = self.assumed.get(r)
                if v is not None: return bool(v)
                if r[0] == 'icmp': pred, a, b, bits = r[2], r[3], r[4], r[5]
            la, ha = urange(a, self)
            lb, hb = urange(b, self)
            if pred == 'eq' or pred == 'ne':
                if ha < lb or hb < la: return pred == 'ne'
                if la == ha == lb == hb: return pred == 'eq'
                if b == 0 and isinstance(a, tuple) and a[0] == 'lin' and a[2] and all(lowbit(k) > lowbit(a[2]) for _, k in a[3]):
                    return pred == 'ne'
                return None
            if pred[0] == 's':
                half = 1 << (bits - 1)
                # both within one sign half
                def sr(l, h):
                    if h < half: return l, h
                    if l >= half: return l - (1 << bits), h - (1 << bits)
                    return -half, half - 1
                la, ha = sr(la, ha); lb, hb = sr(lb, hb)
            p = pred[1:]
            if p == 'lt':
                if ha < lb: return True
                if la >= hb: return False
            elif p == 'le':
                if ha <= lb: return True
                if la > hb: return False
            elif p == 'gt':
                if la > hb: return True
                if ha <= lb: return False
            elif p == 'ge':
                if la >= hb: return True
                if ha < lb: return False
        return None


class Interp:
    WIDEN = 4
    MAXSTEPS = 400000

    def __init__(self, mod):
        self.m = mod
        self.gaddr = {}        # global -> its absolute address, where it has one (see ABS)
        self.ext = {}          # name -> handler(self, st, fr, inst, args) -> value | ('fork', [...]) | None
        self.hook_load = {}    # base -> handler(self, st, fr, inst, off, size) -> value or None; may raise Pause
        self.hook_call = {}    # name of a defined function -> handler
        self.truncated = 0
        self.maxstates = 4000
        self.steps = 0
        self.on_abort = None
        self._gl = {}
        self.funcs_seen = set()
        self.access_hook = None
        self.eventful = None   # base -> bool: accesses are recorded as events in order instead of being kept as state
        self.evload = None     # (st, base, off, size) -> value of a load from an eventful base

    # ---- memory of globals -------------------------------------------------
    def init_globals(self, st):
        for name, g in self.m.globals.items():
            if g['init'] is None: continue
            base = ('g', name)
            d = {}
            for off, (sz, op) in g['init'].items():
                d[off] = (sz, self.const(op))
            st.mem[base] = d
            st.kind[base] = 'zero'
            if self.sized: st.size[base] = g['size']
        return st

    def const(self, op):
        k = op[0]
        if k == 'c': return op[1]
        if k == 'g':
            if op[1] in self.gaddr: return self.gaddr[op[1]] + op[2]
            return ('p', ('g', op[1]), op[2])
        if k == 'f': return ('fc', 64, op[1])
        if k == 'undef': return ('s', 64, 'undef')
        raise Broken("const operand %r" % (op,))

    def call(self, st, name, args):
        fn = self.m.funcs[name]
        self.push(st, fn, list(args), None)
        return st

    def push(self, st, fn, args, ret):
        self.funcs_seen.add(fn.name)
        if len(st.frames) > 60:
            raise Broken("call depth")
        f = Frame()
        f.fn = fn; f.blk = 0; f.idx = 0; f.env = {}; f.prev = -1; f.ret = ret; f.args = args; f.forks = None
        f.ctx = None
        st.frames.append(f)

    deadline = None        # time after which no path is continued
    sized = False          # check accesses against the sizes of global objects

    def run(self, st0, stop=None):
        """runs every abstract path from st0; returns finished (or paused) states"""
        done = []
        work = [st0]
        while work:
            st = work.pop()
            if self.deadline and time.monotonic() > self.deadline: raise Broken("time limit of the case")
            out = self.path(st)
            for s in out:
                if s.status is None: work.append(s)
                else: done.append(s)
            if len(done) + len(work) > self.maxstates:
                self.truncated += len(work)
                for s in work: s.incomplete = True
                break
        return done

    def path(self, st):
        """runs until the path ends, pauses or splits"""
        frames = st.frames
        fr = frames[-1]
        insts = fr.fn.blocks[fr.blk].insts
        env = fr.env
        args = fr.args
        idx = fr.idx
        steps = 0
        gaddr = self.gaddr

        def val(op):
            k = op[0]
            if k == 'r':
                return env[op[1]]
            if k == 'c':
                return op[1]
            if k == 'a':
                return args[op[1]]
            if k == 'g':
                if gaddr and op[1] in gaddr: return gaddr[op[1]] + op[2]
                return ('p', ('g', op[1]), op[2])
            if k == 'f':
                return ('fc', 64, op[1])
            return ('s', 64, 'undef')

        while True:
            i = insts[idx]
            op = i.op
            steps += 1
            if op == 'load':
                a = val(i.ops[0])
                if isinstance(a, tuple) and a[0] == 'p':
                    base, off = a[1], a[2]
                else:
                    base, off = aspair(st.res(a))
                if self.access_hook: self.access_hook(st, i, 'load', base, off, i.w)
                h = self.hook_load.get(base)
                if self.eventful is not None and self.eventful(base):
                    r = self.evload(st, base, st.res(off), i.w)
                    if i.ty == 'i1': r = mkcast('trunc', 8, 1, r)
                elif h is not None:
                    r = h(self, st, fr, i, off, i.w)
                    if r is Pause:
                        fr.idx = idx
                        st.steps += steps; self.steps += steps
                        return [st]
                    if isinstance(r, Fork):
                        fr.idx = idx + 1
                        return self.dofork(st, i, r, steps)
                    if r is None: r = st.get(base, off, i.w)
                else:
                    if base in st.freed or base == ('abs',):
                        self.bad(st, i, 'use-after-free' if base in st.freed else 'null-deref', base, off)
                        if base == ('abs',):
                            st.status = 'crash'
                            return [st]
                    if undefptr(base): self.bad(st, i, 'read through an undefined pointer', base, off)
                    if not isinstance(off, int): off = st.res(off) if st.eq else off
                    elif base in st.size and (off < 0 or off + i.w > st.size[base]): self.bad(st, i, 'read outside the object', base, off)
                    r = st.get(base, off, i.w)
                    if i.ty == 'i1' : r = r & 1 if isinstance(r, int) else r
                env[i.id] = r
            elif op == 'store':
                a = val(i.ops[1])
                if isinstance(a, tuple) and a[0] == 'p':
                    base, off = a[1], a[2]
                else:
                    base, off = aspair(st.res(a))
                if self.access_hook: self.access_hook(st, i, 'store', base, off, i.w)
                if base in st.freed or base == ('abs',):
                    self.bad(st, i, 'use-after-free' if base in st.freed else 'null-deref', base, off)
                    if base == ('abs',):
                        st.status = 'crash'
                        return [st]
                v = val(i.ops[0])
                if self.eventful is not None and self.eventful(base):
                    st.user['evn'] = st.user.get('evn', 0) + 1
                    st.emit(('mst', (base, st.res(off)), i.w, v, i.file, i.line))
                else:
                    if undefptr(base): self.bad(st, i, 'write through an undefined pointer', base, off)
                    if isinstance(off, int) and base in st.size and (off < 0 or off + i.w > st.size[base]): self.bad(st, i, 'write outside the object', base, off)
                    st.put(base, off, i.w, v)
            elif op == 'gep':
                p = val(i.ops[0])
                off, var, _ = i.gep
                if var:
                    t = off
                    for o, sc in var:
                        x = val(o)
                        x = st.res(x)
                        ob = self.opbits(fr, o)
                        if ob != 64:
                            x = mkcast('sext', ob, 64, x)
                        if isinstance(x, int): x = sgn(x, 64)
                        if isinstance(x, int) and isinstance(t, int): t += x * sc
                        else:
                            t = mkbin('add', 64, t & MASK[64] if isinstance(t, int) else t, mkbin('mul', 64, x & MASK[64] if isinstance(x, int) else x, sc))
                    env[i.id] = padd(p, t)
                else:
                    env[i.id] = padd(p, off)
            elif op == 'br':
                if i.ops:
                    c = val(i.ops[0])
                    t = bool(c) if isinstance(c, int) else st.decide(c)
                    if t is None:
                        b = fr.fn.blocks[fr.blk]
                        key = (fr.blk,)
                        if fr.forks is None: fr.forks = {}
                        n = fr.forks[key] = fr.forks.get(key, 0) + 1
                        if n > self.WIDEN:
                            # exit preferring: cut the path here (counted)
                            self.truncated += 1
                            st.incomplete = True
                            st.status = 'truncated'
                            return [st]
                        fr.idx = idx
                        st.steps += steps; self.steps += steps
                        s2 = st.copy()
                        out = []
                        for s, truth, tgt in ((st, True, b.succs[0]), (s2, False, b.succs[1])):
                            if s.assume(c, truth):
                                f = s.frames[-1]
                                self.enter(s, f, tgt)
                                s.emit(('assume', c, truth, i.file, i.line))
                                out.append(s)
                        return out
                    tgt = fr.fn.blocks[fr.blk].succs[0 if t else 1]
                else:
                    tgt = fr.fn.blocks[fr.blk].succs[0]
                # enter block
                b = fr.fn.blocks[tgt]
                prev = fr.blk
                insts = b.insts
                idx = 0
                if insts[0].op == 'phi':
                    vals = []
                    while insts[idx].op == 'phi':
                        x = insts[idx]
                        for pb, pv in x.inc:
                            if pb == prev:
                                vals.append((x.id, val(pv)))
                                break
                        idx += 1
                    for k, v in vals: env[k] = v
                fr.blk = tgt
                if steps > 20000:
                    st.steps += steps; self.steps += steps; steps = 0
                    if st.steps > self.MAXSTEPS:
                        self.truncated += 1
                        st.incomplete = True
                        st.status = 'truncated'
                        return [st]
                continue
            elif op == 'call':
                r = None
                c = i.callee
                if c[0] == 'g':
                    name = c[1]
                elif c[0] == 'asm':
                    name = '*asm'
                else:
                    cv = st.res(val(c))
                    if isinstance(cv, tuple) and cv[0] == 'p' and isinstance(cv[1], tuple) and cv[1][0] == 'g' and cv[2] == 0:
                        name = cv[1][1]
                    else:
                        name = None
                av = [val(o) for o in i.ops]
                if name is None:
                    h = self.ext.get('*indirect')
                    r = h(self, st, fr, i, [cv] + av) if h else ('s', BITS.get(i.ty, 64), ('icall', st.fresh()))
                else:
                    h = self.hook_call.get(name)
                    if h is None and name in self.m.funcs:
                        fr.idx = idx + 1
                        self.push(st, self.m.funcs[name], av, i.id if i.ty != 'void' else None)
                        frames = st.frames
                        fr = frames[-1]
                        insts = fr.fn.blocks[0].insts
                        env = fr.env
                        args = fr.args
                        idx = 0
                        continue
                    if h is None: h = self.ext.get(name)
                    if h is None:
                        h = self.builtin(name)
                    fr.idx = idx + 1
                    r = h(self, st, fr, i, av)
                if r is Pause:
                    fr.idx = idx
                    st.steps += steps; self.steps += steps
                    return [st]
                if isinstance(r, Fork):
                    fr.idx = idx + 1
                    return self.dofork(st, i, r, steps)
                if st.status is not None:
                    st.steps += steps; self.steps += steps
                    return [st]
                if i.ty != 'void':
                    env[i.id] = r
            elif op == 'ret':
                v = val(i.ops[0]) if i.ops else None
                frames.pop()
                if not frames:
                    st.result = v
                    st.status = 'ret'
                    st.steps += steps; self.steps += steps
                    return [st]
                rid = fr.ret
                fr = frames[-1]
                if rid is not None: fr.env[rid] = v
                env = fr.env
                args = fr.args
                insts = fr.fn.blocks[fr.blk].insts
                idx = fr.idx
                continue
            elif op == 'icmp':
                a = val(i.ops[0]); b = val(i.ops[1])
                if st.eq:
                    a = st.res(a); b = st.res(b)
                env[i.id] = mkicmp(i.pred, BITS[i.aty], a, b)
            elif op in BIN:
                a = val(i.ops[0]); b = val(i.ops[1])
                if st.eq:
                    a = st.res(a); b = st.res(b)
                env[i.id] = mkbin(op, BITS[i.ty], a, b)
            elif op in ('zext', 'sext', 'trunc'):
                v = val(i.ops[0])
                if st.eq: v = st.res(v)
                if isinstance(v, tuple) and v[0] in ('icmp', 'not') :
                    t = st.decide(v)
                    if t is not None: v = int(t)
                env[i.id] = mkcast(op, BITS[i.aty], BITS[i.ty], v)
            elif op == 'switch':
                v = st.res(val(i.ops[0]))
                b = fr.fn.blocks[fr.blk]
                if isinstance(v, int):
                    tgt = i.inc
                    for cv, ct in i.cases:
                        if cv == v:
                            tgt = ct
                            break
                    self.enter(st, fr, tgt)
                    insts = fr.fn.blocks[fr.blk].insts
                    idx = fr.idx
                    continue
                fr.idx = idx
                st.steps += steps; self.steps += steps
                out = []
                bits = BITS[i.aty]
                groups = {}
                for cv, ct in i.cases:
                    s = st.copy()
                    if s.decide(mkicmp('eq', bits, v, cv)) is False: continue
                    if s.assume(mkicmp('eq', bits, v, cv), True):
                        self.enter(s, s.frames[-1], ct)
                        s.emit(('assume', v, cv, i.file, i.line))
                        out.append(s)
                s = st
                ok = True
                for cv, ct in i.cases:
                    if s.assume(mkicmp('eq', bits, v, cv), False) is False: ok = False; break
                if ok:
                    self.enter(s, s.frames[-1], i.inc)
                    s.emit(('assume', v, None, i.file, i.line))
                    out.append(s)
                return out
            elif op == 'phi':
                raise Broken("phi")
            elif op == 'alloca':
                base = ('a', st.fresh(), fr.fn.name, i.id)
                env[i.id] = st.obj(base, 'undef')
                st.size[base] = i.w
            elif op == 'select':
                c = val(i.ops[0])
                t = bool(c) if isinstance(c, int) else st.decide(c)
                if t is None:
                    r = Fork([(mknot(c) if not tr else c, val(i.ops[1 if tr else 2])) for tr in (True, False)])
                    fr.idx = idx + 1
                    return self.dofork(st, i, r, steps)
                env[i.id] = val(i.ops[1 if t else 2])
            elif op in ('ptrtoint', 'inttoptr'):
                v = val(i.ops[0])
                fb, tb = BITS[i.aty], BITS[i.ty]
                if fb > tb: v = mkcast('trunc', fb, tb, v)
                elif fb < tb: v = mkcast('zext', fb, tb, v)
                env[i.id] = v
            elif op == 'bitcast':
                v = val(i.ops[0])
                env[i.id] = self.bitcast(v, i.aty, i.ty)
            elif op in FOPS:
                vs = tuple(val(o) for o in i.ops)
                env[i.id] = self.fop(st, op, i, vs)
            elif op == 'fcmp':
                vs = tuple(val(o) for o in i.ops)
                env[i.id] = self.fcmp(st, i.pred, i.aty, vs)
            elif op == 'unreachable':
                st.status = st.status or 'unreachable'
                st.steps += steps; self.steps += steps
                return [st]
            elif op == 'extractvalue':
                a = val(i.ops[0])
                for k in i.inc:
                    if not (isinstance(a, tuple) and a and a[0] == 'agg'): raise Broken("part of an aggregate in %s" % fr.fn.name)
                    a = a[1][k]
                env[i.id] = a
            elif op in ('freeze',):
                env[i.id] = val(i.ops[0])
            else:
                raise Broken("IR op %s in %s" % (op, fr.fn.name))
            idx += 1

    def opbits(self, fr, o):
        if o[0] == 'r': return BITS.get(fr.fn.insts[o[1]].ty, 64)
        if o[0] == 'a': return BITS.get(fr.fn.argtys[o[1]], 64)
        return 64

    def fop(self, st, op, i, vs):
        return (op, BITS[i.ty]) + vs + ((i.aty,) if i.aty else ())

    def fcmp(self, st, pred, ty, vs):
        return ('fcmp', 1, pred) + vs + (ty,)

    def bitcast(self, v, fty, tty):
        if isinstance(v, int): return ('bits', BITS[tty], v) if tty in ('float', 'double') else v
        if v[0] == 'bitcast' and v[3] == tty: return v[2]
        return ('bitcast', BITS[tty], v, fty, tty)

    def enter(self, st, fr, tgt):
        b = fr.fn.blocks[tgt]
        prev = fr.blk
        idx = 0
        vals = []
        while b.insts[idx].op == 'phi':
            x = b.insts[idx]
            for pb, pv in x.inc:
                if pb == prev:
                    k = pv[0]
                    v = fr.env[pv[1]] if k == 'r' else fr.args[pv[1]] if k == 'a' else self.const(pv)
                    vals.append((x.id, v))
                    break
            idx += 1
        for k, v in vals: fr.env[k] = v
        fr.blk = tgt
        fr.idx = idx

    def dofork(self, st, i, fork, steps):
        st.steps += steps; self.steps += steps
        out = []
        n = len(fork.alts)
        for j, alt in enumerate(fork.alts):
            s = st if j == n - 1 else st.copy()
            cond, v = alt[0], alt[1]
            if cond is not None and not s.assume(cond, True): continue
            if len(alt) > 2: alt[2](s)
            if i.ty != 'void': s.frames[-1].env[i.id] = v
            if cond is not None: s.emit(('assume', cond, True, i.file, i.line))
            out.append(s)
        return out

    def bad(self, st, i, what, base, off):
        st.emit(('bad', what, base, off, i.file, i.line, i.fn.name))

    # ---- external functions ---------------------------------------------------
    def builtin(self, name):
        b = getattr(self, 'x_' + name.replace('.', '_'), None)
        if b: return lambda I, st, fr, i, a: b(st, i, a)
        for p, f in PREFIX.items():
            if name.startswith(p):
                return lambda I, st, fr, i, a: f(self, st, i, a)

        def unk(I, st, fr, i, a):
            st.emit(('ext', name, tuple(a), i.file, i.line))
            return ('s', BITS.get(i.ty, 64), ('ext', name, st.fresh()))
        return unk

    def chain(self, st, i):
        """call sites from the innermost out: (function, file, line)"""
        out = [(st.frames[-1].fn.name, i.file, i.line)]
        for f in reversed(st.frames[:-1]):
            bi = f.fn.blocks[f.blk].insts
            x = bi[min(max(f.idx - 1, 0), len(bi) - 1)]
            out.append((f.fn.name, x.file, x.line))
        return tuple(out)

    def heap(self, st, i, kind, size):
        base = ('h', st.fresh(), i.fn.name, i.line)
        st.obj(base, kind)
        size = st.res(size)
        if isinstance(size, int): st.size[base] = size
        st.emit(('alloc', base, size, i.file, i.line, self.chain(st, i)))
        return ('p', base, 0)

    def x_malloc(self, st, i, a): return self.heap(st, i, 'undef', a[0])

    def x_calloc(self, st, i, a): return self.heap(st, i, 'zero', mkbin('mul', 64, a[0], a[1]))

    def x_realloc(self, st, i, a):
        p = aspair(st.res(a[0]))
        q = self.heap(st, i, 'undef', a[1])
        if p[0] == ('abs',): return q
        old = st.mem.get(p[0], {})
        st.mem[q[1]] = dict(old)
        st.own.add(q[1])
        if p[0] in st.freed:
            self.bad(st, i, 'double-free', p[0], p[1])
        if q[1] in st.size:
            for o in [o for o, c in st.mem[q[1]].items() if isinstance(o, int) and o + c[0] > st.size[q[1]]]: del st.mem[q[1]][o]
        if p[0] in st.ver or st.kind.get(p[0], 'lazy') == 'lazy':
            # contents not fully known: keep naming by the old object
            st.kind[q[1]] = st.kind.get(p[0], 'lazy')
            st.ver[q[1]] = 1
        st.freed[p[0]] = (i.file, i.line)
        st.emit(('realloc', p[0], q[1], a[1], i.file, i.line))
        return q

    def x_free(self, st, i, a):
        v = st.res(a[0])
        if v == 0 and isinstance(v, int): return None
        p = aspair(v)
        if p[0] in st.freed:
            self.bad(st, i, 'double-free', p[0], p[1])
        elif isinstance(v, tuple) and v[0] == 's' and isinstance(v[2], tuple) and v[2][0] == 'u': self.bad(st, i, 'release of an undefined pointer', v[2][1], v[2][2])
        elif isinstance(p[0], tuple) and p[0][0] in ('h', 'd'):
            if p[0][0] == 'h' and p[1] != 0: self.bad(st, i, 'free-interior', p[0], p[1])
            st.freed[p[0]] = (i.file, i.line)
        elif isinstance(p[0], tuple) and p[0][0] in ('a', 'g'): self.bad(st, i, 'release of something not allocated', p[0], p[1])
        st.emit(('free', p[0], p[1], i.file, i.line))
        return None

    def x_exit(self, st, i, a):
        st.emit(('exit', a[0], i.file, i.line, [f.fn.name for f in st.frames]))
        st.status = 'exit'

    def x_abort(self, st, i, a):
        st.emit(('exit', 'abort', i.file, i.line, [f.fn.name for f in st.frames]))
        st.status = 'exit'

    def x_printf(self, st, i, a): return 0

    def x_vprintf(self, st, i, a): return 0

    def x_fflush(self, st, i, a): return 0

    def bytes_at(self, st, p, limit=1 << 17, i=None):
        """list of byte values of a C string, up to the first byte that is not known non-zero"""
        base, off = aspair(st.res(p))
        if i is not None and (base in st.freed or base == ('abs',)): self.bad(st, i, 'use-after-free' if base in st.freed else 'null-deref', base, off)
        out = []
        while len(out) < limit:
            if i is not None and isinstance(off, int) and base in st.size and not 0 <= off < st.size[base]:
                self.bad(st, i, 'read outside the object', base, off)
                return out, None
            b = st.get(base, off, 1)
            b = st.res(b)
            if not isinstance(b, int): return out, b
            if b == 0: return out, 0
            out.append(b)
            if not isinstance(off, int): return out, None
            off += 1
        return out, None

    def x_strlen(self, st, i, a):
        s, term = self.bytes_at(st, a[0], i=i)
        if isinstance(term, int): return len(s)
        return ('s', 64, ('strlen', a[0], st.nev))

    def x_strcmp(self, st, i, a):
        s, ts = self.bytes_at(st, a[0], i=i)
        t, tt = self.bytes_at(st, a[1], i=i)
        if isinstance(ts, int) and isinstance(tt, int):
            return 0 if s == t else (1 if s > t else mask(32))
        return ('s', 32, ('strcmp', a[0], a[1]))

    def x_strncmp(self, st, i, a):
        return ('s', 32, ('strncmp', a[0], a[1], a[2]))

    def x_memcpy(self, st, i, a):
        self.memcpy(st, i, a[0], a[1], a[2])
        return a[0]
    x_memmove = x_memcpy

    def x_memset(self, st, i, a):
        self.memset(st, i, a[0], a[1], a[2])
        return a[0]

    def memcpy(self, st, i, d, s, n):
        db, do = aspair(st.res(d)); sb, so = aspair(st.res(s))
        n = st.res(n)
        if self.access_hook:
            self.access_hook(st, i, 'memcpy-dst', db, do, n)
            self.access_hook(st, i, 'memcpy-src', sb, so, n)
        for b, o in ((db, do), (sb, so)):
            if b in st.freed: self.bad(st, i, 'use-after-free', b, 0)
            elif b in st.size and isinstance(o, int) and isinstance(n, int) and n and (o < 0 or o + n > st.size[b]):
                self.bad(st, i, 'copy outside the object', b, o)
        if db == sb and isinstance(do, int) and isinstance(so, int) and isinstance(n, int) and abs(do - so) < n and do != so and i.callee and i.callee[0] == 'g' and 'memcpy' in i.callee[1]:
            self.bad(st, i, 'memcpy of overlapping memory', db, do)
        if self.eventful is not None and (self.eventful(db) or self.eventful(sb)):
            if not (self.eventful(db) and self.eventful(sb)): raise Broken("copy between wasm memory and a C object")
            st.user['evn'] = st.user.get('evn', 0) + 1
            st.emit(('memcpy', (db, do), (sb, so), n, i.file, i.line, i.callee[1] if i.callee and i.callee[0] == 'g' else ''))
            return
        if not isinstance(n, int):
            st.emit(('memcpy', (db, do), (sb, so), n, i.file, i.line, i.callee[1] if i.callee and i.callee[0] == 'g' else ''))
            st.havoc_at(db)
            return
        if n == 0: return
        if n <= 1024 or (n <= 65536 and sb in self.hook_load):
            cells = []
            smem = st.mem.get(sb, {})
            k = 0
            while k < n:
                so2 = self.offadd(so, k)
                c = smem.get(so2)
                if c is None or k + c[0] > n:
                    sz = 8 if (n - k >= 8 and k % 8 == 0 and not any(self.offadd(so, k + j) in smem for j in range(1, 8))) else \
                         4 if (n - k >= 4 and k % 4 == 0 and not any(self.offadd(so, k + j) in smem for j in range(1, 4))) else 1
                    h = self.hook_load.get(sb)
                    v = None
                    if h is not None:
                        v = h(self, st, st.frames[-1], i, so2, sz if sz <= n - k else n - k)
                    if v is None or v is Pause: v = st.get(sb, so2, sz)
                    cells.append((k, sz, v))
                    k += sz
                else:
                    cells.append((k, c[0], c[1]))
                    k += c[0]
            for k, sz, v in cells:
                st.put(db, self.offadd(do, k), sz, v)
        else:
            smem = dict(st.mem.get(sb, {}))
            if isinstance(do, int) and isinstance(so, int):
                for o, c in smem.items():
                    if isinstance(o, int) and so <= o and o + c[0] <= so + n:
                        st.put(db, do + o - so, c[0], c[1])
            else:
                st.havoc_at(db)

    @staticmethod
    def offadd(o, k):
        if isinstance(o, int): return o + k
        if k == 0: return o
        return mkbin('add', 64, o, k)

    def memset(self, st, i, d, v, n):
        db, do = aspair(st.res(d))
        n = st.res(n)
        v = st.res(v)
        if self.access_hook: self.access_hook(st, i, 'memset', db, do, n)
        if db in st.freed: self.bad(st, i, 'use-after-free', db, do)
        elif db in st.size and isinstance(do, int) and isinstance(n, int) and n and (do < 0 or do + n > st.size[db]):
            self.bad(st, i, 'fill outside the object', db, do)
        if self.eventful is not None and self.eventful(db):
            st.user['evn'] = st.user.get('evn', 0) + 1
            st.emit(('memset', (db, do), v, n, i.file, i.line))
            return
        if not isinstance(n, int) or not isinstance(v, int) or n > 4096:
            st.emit(('memset', (db, do), v, n, i.file, i.line))
            if v == 0 and isinstance(v, int) and n == st.user.get(('alloc', db)):
                return
            st.havoc_at(db)
            return
        v &= 0xff
        w8 = int.from_bytes(bytes([v]) * 8, 'little')
        k = 0
        while k < n:
            sz = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
            st.put(db, self.offadd(do, k), sz, w8 & mask(8 * sz))
            k += sz


BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
FOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'}


class _Pause:
    pass


Pause = _Pause()


class Fork:
    def __init__(self, alts):
        self.alts = alts


def _mc(self, st, i, a):
    self.memcpy(st, i, a[0], a[1], a[2])


def _ms(self, st, i, a):
    self.memset(st, i, a[0], a[1], a[2])


def _nop(self, st, i, a):
    return None


def _fcall(self, st, i, a):
    return ('fcall', BITS[i.ty], i.callee[1]) + tuple(a)


PREFIX = {'llvm.memcpy': _mc, 'llvm.memmove': _mc, 'llvm.memset': _ms, 'llvm.lifetime': _nop, 'llvm.stacksave': _nop,
          'llvm.stackrestore': _nop, 'llvm.va_': _nop, 'llvm.ceil': _fcall, 'llvm.floor': _fcall, 'llvm.trunc': _fcall,
          'llvm.rint': _fcall, 'llvm.nearbyint': _fcall, 'llvm.roundeven': _fcall, 'llvm.fabs': _fcall, 'llvm.copysign': _fcall, 'llvm.sqrt': _fcall,
          'llvm.minnum': _fcall, 'llvm.maxnum': _fcall, 'llvm.minimum': _fcall, 'llvm.maximum': _fcall,
          'llvm.ctlz': _fcall, 'llvm.cttz': _fcall, 'llvm.ctpop': _fcall, 'llvm.fshl': _fcall, 'llvm.fshr': _fcall}
for _n in ('ceilf', 'ceil', 'floorf', 'floor', 'truncf', 'trunc', 'rintf', 'rint', 'nearbyintf', 'nearbyint', 'roundf', 'round', 'roundeven', 'roundevenf', 'sqrtf', 'sqrt', 'fabs', 'fabsf', 'copysign', 'copysignf', 'fmin', 'fmax', 'fminf', 'fmaxf'):
    def _mk(n):
        def f(self, st, i, a): return _fcall(self, st, i, a)
        return f
    setattr(Interp, 'x_' + _n, _mk(_n))
