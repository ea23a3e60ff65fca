"""Meaning of x86-64 machine code over the terms of absint.py: decodes bytes and folds every path of them into terms."""
from .absint import mkbin, mkcast, mkicmp, mknot, mask, sgn, aspair, Broken, State, bitsof
from . import val as _val


class BadCode(Exception):
    """the bytes are no meaningful code here: the processor would fault, or control leaves the code"""


W8 = {1: 8, 2: 16, 4: 32, 8: 64}


def T(v, w):
    """low w bits of a 64 bit term"""
    if isinstance(v, int): return v & mask(w)
    return v if bitsof(v) == w else mkcast('trunc', bitsof(v), w, v)


def Z(v, f, t):
    return v & mask(f) if isinstance(v, int) else v if f == t else mkcast('zext', f, t, v)


def S(v, f, t):
    return sgn(v & mask(f), f) & mask(t) if isinstance(v, int) else v if f == t else mkcast('sext', f, t, v)


def b_and(a, b):
    if isinstance(a, int): return b if a else 0
    if isinstance(b, int): return a if b else 0
    return mkbin('and', 1, a, b)


def b_or(a, b):
    if isinstance(a, int): return 1 if a else b
    if isinstance(b, int): return 1 if b else a
    return mkbin('or', 1, a, b)


def b_xor(a, b):
    if isinstance(a, int): return mknot(b) if a and not isinstance(b, int) else b ^ a if isinstance(b, int) else b
    if isinstance(b, int): return mknot(a) if b else a
    return mkbin('xor', 1, a, b)


def not1(c): return 1 - c if isinstance(c, int) else mknot(c)


def sel(c, w, a, b):
    if isinstance(c, int): return a if c else b
    if a == b: return a
    return ('select', w, c, a, b)


def neg(w, v): return mkicmp('slt', w, v, 0)


def fold(op, w, *a):
    """a term of an operation of EXT, evaluated when all its operands are known"""
    if all(isinstance(x, int) for x in a):
        try: return EXT[op](w, *a)
        except _val.Undef: pass
    return (op, w) + a


# ---- operations without an LLVM counterpart -----------------------------------------------------------------------
def _mulhu(w, a, b): return (a * b) >> w & mask(w)
def _mulhs(w, a, b): return (sgn(a, w) * sgn(b, w)) >> w & mask(w)
def _mulov(w, a, b, n):
    p = sgn(a & mask(n), n) * sgn(b & mask(n), n)
    return int(sgn(p & mask(n), n) != p)


def _divq(w, h, l, d, want=0):
    if d == 0: raise _val.Undef
    q, r = divmod(h << w | l, d)
    if q > mask(w): raise _val.Undef
    return r if want else q


def _divr(w, h, l, d): return _divq(w, h, l, d, 1)


def _idivq(w, h, l, d, want=0):
    n = sgn(h << w | l, 2 * w); d = sgn(d, w)
    if d == 0: raise _val.Undef
    q = abs(n) // abs(d)
    if (n < 0) != (d < 0): q = -q
    if not -(1 << w - 1) <= q < 1 << w - 1: raise _val.Undef
    return (n - q * d if want else q) & mask(w)


def _idivr(w, h, l, d): return _idivq(w, h, l, d, 1)
def _bswap(w, a): return int.from_bytes((a & mask(w)).to_bytes(w // 8, 'little'), 'big')
def _bsf(w, a):
    a &= mask(w)
    if not a: raise _val.Undef
    return (a & -a).bit_length() - 1
def _bsr(w, a):
    a &= mask(w)
    if not a: raise _val.Undef
    return a.bit_length() - 1


def _cvtt(w, x, fw, rnd=0):
    f = _val.b2f(fw, x & mask(fw))
    if f != f or abs(f) == float('inf'): return 1 << w - 1
    n = int(f)
    return n & mask(w) if -(1 << w - 1) <= n < 1 << w - 1 else 1 << w - 1


def _shld(w, a, b, n):
    n &= 63 if w == 64 else 31
    return (a << n | b >> (w - n)) & mask(w) if n else a


def _shrd(w, a, b, n):
    n &= 63 if w == 64 else 31
    return (a >> n | b << (w - n)) & mask(w) if n else a


EXT = {'mulhu': _mulhu, 'mulhs': _mulhs, 'mulov': _mulov, 'divq': _divq, 'divr': _divr, 'idivq': _idivq, 'idivr': _idivr,
       'bswap': _bswap, 'bsf': _bsf, 'bsr': _bsr, 'cvtt': _cvtt, 'shld': _shld, 'shrd': _shrd}
_val.EXT.update(EXT)

LEGPFX = {0x66, 0xf2, 0xf3, 0xf0, 0x2e, 0x36, 0x3e, 0x26, 0x64, 0x65}
INVALID = {0x06, 0x07, 0x0e, 0x16, 0x17, 0x1e, 0x1f, 0x27, 0x2f, 0x37, 0x3f, 0x60, 0x61, 0x82, 0x9a, 0xce, 0xd4, 0xd5, 0xd6, 0xea}


class Machine:
    def __init__(self, st, fetch):
        self.st = st              # memory
        self.fetch = fetch        # address -> byte value (int), or None outside of the code
        self.field = None         # (address, size) -> value of an immediate whose bytes are not all known integers
        self.r = [0] * 16
        self.x = [[0, 0] for _ in range(16)]
        self.xs = {}              # upper parts ignored
        self.cf = self.zf = self.sf = self.of = self.pf = 0
        self.cmp = None           # (w, a, b) when the flags come from a comparison a - b
        self.ip = 0
        self.conds = []
        self.n = 0
        self.log = []             # memory accesses
        self.calls = []

    def copy(self):
        m = Machine.__new__(Machine)
        m.__dict__.update(self.__dict__)
        m.st = self.st.copy()
        m.r = list(self.r)
        m.x = [list(x) for x in self.x]
        m.conds = list(self.conds)
        m.log = list(self.log)
        m.calls = list(self.calls)
        return m

    def junk(self, w=1):
        self.n += 1
        return ('s', w, ('junk', self.ip, self.n))

    # ---- fetching --------------------------------------------------------------------------------
    def u8(self):
        b = self.fetch(self.ip)
        if b is None: raise BadCode("control leaves the generated code at %#x" % self.ip)
        if not isinstance(b, int): raise Broken("code byte that is not known at %#x" % self.ip)
        self.ip += 1
        return b

    def un(self, n):
        if n >= 4 and self.field:
            v = self.field(self.ip, n)
            if v is not None:
                self.ip += n
                return v
        v = 0
        for k in range(n): v |= self.u8() << 8 * k
        return v

    def sn(self, n):
        v = self.un(n)
        return sgn(v, 8 * n) if isinstance(v, int) else v

    # ---- registers -------------------------------------------------------------------------------
    def get(self, r, w):
        if w == 8 and not self.rex and 4 <= r < 8:
            return T(mkbin('lshr', 64, self.r[r - 4], 8), 8)
        return T(self.r[r], w)

    def set(self, r, w, v):
        if w == 64: self.r[r] = v
        elif w == 32: self.r[r] = Z(v, 32, 64)
        elif w == 8 and not self.rex and 4 <= r < 8:
            o = self.r[r - 4]
            self.r[r - 4] = mkbin('or', 64, mkbin('and', 64, o, mask(64) ^ 0xff00), mkbin('shl', 64, Z(v, 8, 64), 8))
        else:
            o = self.r[r]
            if isinstance(o, tuple) and o[0] == 'p': o = ('s', 64, ('ptr', o))
            self.r[r] = mkbin('or', 64, mkbin('and', 64, o, mask(64) ^ mask(w)), Z(v, w, 64))

    # ---- memory ----------------------------------------------------------------------------------
    def load(self, a, w):
        b, o = aspair(a)
        self.log.append(('r', b, o, w // 8))
        v = self.st.get(b, o, w // 8)
        return v

    def store(self, a, w, v):
        b, o = aspair(a)
        if isinstance(b, tuple) and b[0] == 'CODE': raise BadCode("writes to code")
        self.log.append(('w', b, o, w // 8))
        self.st.put(b, o, w // 8, T(v, w) if not (isinstance(v, tuple) and v[0] == 'p' and w == 64) else v)

    def modrm(self):
        m = self.u8()
        self.mod, self.reg, rm = m >> 6, (m >> 3 & 7) | (self.R << 3), m & 7
        if self.mod == 3:
            self.rm = rm | self.B << 3
            self.ea = None
            return
        self.rm = None
        base = 0
        if rm == 4:
            s = self.u8()
            sc, ix, bs = s >> 6, (s >> 3 & 7) | self.X << 3, (s & 7) | self.B << 3
            if s & 7 == 5 and self.mod == 0: base = ('d32',)
            else: base = self.r[bs]
            idx = 0 if ix == 4 else mkbin('shl', 64, self.r[ix], sc) if sc else self.r[ix]
        elif rm == 5 and self.mod == 0:
            d = self.sn(4)
            self.ea = ('rip', d)
            return
        else:
            base = self.r[rm | self.B << 3]
            idx = 0
        if base == ('d32',):
            d = self.sn(4); base = 0
        else: d = self.sn(1) if self.mod == 1 else self.sn(4) if self.mod == 2 else 0
        a = mkbin('add', 64, base, idx) if idx != 0 or not isinstance(idx, int) else base
        d &= mask(64)
        self.ea = mkbin('add', 64, a, d) if d else a

    def fixrip(self, extra=0):
        """called when the whole instruction but `extra` immediate bytes has been read"""
        if isinstance(self.ea, tuple) and self.ea[:1] == ('rip',): self.ea = (self.ip + extra + self.ea[1]) & mask(64)

    def rme(self, w):
        return self.get(self.rm, w) if self.rm is not None else self.load(self.ea, w)

    def wme(self, w, v):
        if self.rm is not None: self.set(self.rm, w, v)
        else: self.store(self.ea, w, v)

    # ---- flags -----------------------------------------------------------------------------------
    def fres(self, w, r):
        self.zf, self.sf = mkicmp('eq', w, r, 0), neg(w, r)
        b = T(r, 8)
        self.pf = ('parity', 1, b) if not isinstance(b, int) else 1 - bin(b).count('1') % 2
        self.cmp = None

    def alu(self, k, w, a, b):
        """-> result (None for cmp)"""
        if k in (0, 2):
            r = mkbin('add', w, a, b)
            c1 = mkicmp('ult', w, r, a)
            if k == 2:
                r1, r = r, mkbin('add', w, r, Z(self.cf, 1, w))
                c1 = b_or(c1, mkicmp('ult', w, r, r1))
            of = neg(w, mkbin('and', w, mkbin('xor', w, a, r), mkbin('xor', w, b, r)))
            self.fres(w, r)
            self.cf, self.of = c1, of
            return r
        if k in (5, 7, 3):
            r = mkbin('sub', w, a, b)
            c = mkicmp('ult', w, a, b)
            if k == 3:
                r1, r = r, mkbin('sub', w, r, Z(self.cf, 1, w))
                c = b_or(c, mkicmp('ult', w, r1, Z(self.cf, 1, w)))
            of = neg(w, mkbin('and', w, mkbin('xor', w, a, b), mkbin('xor', w, a, r)))
            self.fres(w, r)
            self.cf, self.of = c, of
            if k != 3:
                self.cmp = (w, a, b)
                self.zf = mkicmp('eq', w, a, b)
            return None if k == 7 else r
        r = mkbin({1: 'or', 4: 'and', 6: 'xor'}[k], w, a, b)
        self.fres(w, r)
        self.cf = self.of = 0
        return r

    def cond(self, cc):
        k, n = cc >> 1, cc & 1
        c = self.cmp
        if k == 0: t = self.of
        elif k == 1: t = self.cf
        elif k == 2: t = self.zf
        elif k == 3: t = mkicmp('ule', *c) if c else b_or(self.cf, self.zf)
        elif k == 4: t = self.sf
        elif k == 5: t = self.pf
        elif k == 6: t = mkicmp('slt', *c) if c else b_xor(self.sf, self.of)
        else: t = mkicmp('sle', *c) if c else b_or(b_xor(self.sf, self.of), self.zf)
        return not1(t) if n else t

    def shift(self, k, w, a, cnt):
        """cnt: 8 bit term"""
        m = 63 if w == 64 else 31
        cnt = mkbin('and', 8, cnt, m)
        if cnt == 0 and isinstance(cnt, int): return a
        n = Z(cnt, 8, w) if w > 8 else cnt
        z = mkicmp('eq', 8, cnt, 0)
        old = (self.cf, self.zf, self.sf, self.of, self.pf)
        if w < 32 and k > 3 and not (isinstance(cnt, int) and cnt < w): raise Broken("narrow shift by a variable count")
        if k in (0, 1):
            r = mkbin('rotl' if k == 0 else 'rotr', w, a, n) if not (isinstance(a, int) and isinstance(n, int)) else _rot(k, w, a, n)
            cf = T(r, 1) if k == 0 else T(mkbin('lshr', w, r, w - 1), 1)
            self.cf = sel(z, 1, old[0], cf); self.of = self.junk(); self.cmp = None
            return r
        if k in (2, 3): raise Broken("rcl/rcr")
        if k in (4, 6):
            r = mkbin('shl', w, a, n)
            cf = T(mkbin('lshr', w, a, mkbin('and', w, mkbin('sub', w, w, n), w - 1)), 1)
        else:
            op = 'lshr' if k == 5 else 'ashr'
            r = mkbin(op, w, a, n)
            cf = T(mkbin(op, w, a, mkbin('and', w, mkbin('sub', w, n, 1), w - 1)), 1)
        self.fres(w, r)
        self.cf, self.of = cf, self.junk()
        if not isinstance(z, int):
            self.cf, self.zf, self.sf, self.of, self.pf = (sel(z, 1, o, x) for o, x in zip(old, (self.cf, self.zf, self.sf, self.of, self.pf)))
        return r

    # ---- one instruction -------------------------------------------------------------------------
    def push(self, v):
        self.r[4] = mkbin('sub', 64, self.r[4], 8)
        self.store(self.r[4], 64, v)

    def pop(self):
        v = self.load(self.r[4], 64)
        self.r[4] = mkbin('add', 64, self.r[4], 8)
        return v

    def branch(self, c, target):
        """conditional jump -> list of machines"""
        if isinstance(c, int):
            if c: self.ip = target
            return [self]
        for t, tr in self.conds:
            if t == c:
                if tr: self.ip = target
                return [self]
            if t == mknot(c):
                if not tr: self.ip = target
                return [self]
        o = self.copy()
        o.conds.append((c, False))
        self.conds.append((c, True))
        self.ip = target
        return [self, o]

    def step(self):
        start = self.ip
        self.rex = self.R = self.X = self.B = self.Wb = 0
        p66 = rep = lock = 0
        while True:
            b = self.u8()
            if b == 0x66: p66 = 1
            elif b in (0xf2, 0xf3): rep = b
            elif b == 0xf0: lock = 1
            elif b in (0x2e, 0x36, 0x3e, 0x26): pass
            elif b in (0x64, 0x65): raise Broken("segment override")
            else: break
        if 0x40 <= b <= 0x4f:
            self.rex = 1
            self.Wb, self.R, self.X, self.B = b >> 3 & 1, b >> 2 & 1, b >> 1 & 1, b & 1
            b = self.u8()
        w = 64 if self.Wb else 16 if p66 else 32
        self.lock = lock
        if b == 0x0f: return self.two(self.u8(), w, p66, rep)
        if b in INVALID: raise BadCode("invalid opcode %02x at %#x" % (b, start))
        if b < 0x40 and b & 7 < 6:
            k, f = b >> 3, b & 7
            if f < 4:
                ww = w if f & 1 else 8
                self.modrm(); self.fixrip()
                if f & 2:
                    r = self.alu(k, ww, self.get(self.reg, ww), self.rme(ww))
                    if r is not None: self.set(self.reg, ww, r)
                else:
                    r = self.alu(k, ww, self.rme(ww), self.get(self.reg, ww))
                    if r is not None: self.wme(ww, r)
            else:
                ww = w if f & 1 else 8
                im = self.sn(1 if ww == 8 else 2 if ww == 16 else 4) & mask(ww)
                r = self.alu(k, ww, self.get(0, ww), im)
                if r is not None: self.set(0, ww, r)
            return [self]
        if 0x50 <= b <= 0x57: self.push(self.r[b & 7 | self.B << 3]); return [self]
        if 0x58 <= b <= 0x5f:
            v = self.pop()
            self.r[b & 7 | self.B << 3] = v
            return [self]
        if b == 0x63:
            self.modrm(); self.fixrip()
            self.set(self.reg, w, S(self.rme(32), 32, w) if w == 64 else self.rme(w))
            return [self]
        if b in (0x68, 0x6a):
            self.push(self.sn(4 if b == 0x68 else 1) & mask(64)); return [self]
        if b in (0x69, 0x6b):
            self.modrm()
            n = 1 if b == 0x6b else 2 if w == 16 else 4
            self.fixrip(n)
            im = self.sn(n) & mask(w)
            self.imul(self.reg, w, self.rme(w), im)
            return [self]
        if 0x70 <= b <= 0x7f:
            d = self.sn(1)
            return self.branch(self.cond(b & 15), (self.ip + d) & mask(64))
        if b in (0x80, 0x81, 0x83):
            ww = 8 if b == 0x80 else w
            self.modrm()
            n = 1 if b != 0x81 else 2 if ww == 16 else 4
            self.fixrip(n)
            im = self.sn(n) & mask(ww)
            r = self.alu(self.reg & 7, ww, self.rme(ww), im)
            if r is not None: self.wme(ww, r)
            return [self]
        if b in (0x84, 0x85):
            ww = w if b & 1 else 8
            self.modrm(); self.fixrip()
            self.alu(4, ww, self.rme(ww), self.get(self.reg, ww))
            return [self]
        if b in (0x86, 0x87):
            ww = w if b & 1 else 8
            self.modrm(); self.fixrip()
            v = self.rme(ww); g = self.get(self.reg, ww)
            self.wme(ww, g); self.set(self.reg, ww, v)
            return [self]
        if b in (0x88, 0x89):
            ww = w if b & 1 else 8
            self.modrm(); self.fixrip()
            self.wme(ww, self.get(self.reg, ww))
            return [self]
        if b in (0x8a, 0x8b):
            ww = w if b & 1 else 8
            self.modrm(); self.fixrip()
            self.set(self.reg, ww, self.rme(ww))
            return [self]
        if b == 0x8d:
            self.modrm(); self.fixrip()
            if self.rm is not None: raise BadCode("lea of a register at %#x" % start)
            self.set(self.reg, w, T(self.ea, w) if not (isinstance(self.ea, tuple) and self.ea[0] == 'p' and w == 64) else self.ea)
            return [self]
        if b == 0x8f:
            v = self.pop()          # the address is formed with the incremented stack pointer
            self.modrm(); self.fixrip()
            self.wme(64, v)
            return [self]
        if 0x90 <= b <= 0x97:
            r = b & 7 | self.B << 3
            if r:
                x, y = self.get(0, w), self.get(r, w)
                self.set(0, w, y); self.set(r, w, x)
            return [self]
        if b == 0x98:
            h = w // 2
            self.set(0, w, S(self.get(0, h), h, w)); return [self]
        if b == 0x99:
            s = mkbin('ashr', w, self.get(0, w), w - 1)
            self.set(2, w, s); return [self]
        if b == 0x9c:
            self.push(('flags', 64, (self.cf, self.zf, self.sf, self.of, self.pf, self.cmp))); return [self]
        if b == 0x9d:
            v = self.pop()
            if not (isinstance(v, tuple) and v[0] == 'flags'): raise Broken("popf of a computed value")
            self.cf, self.zf, self.sf, self.of, self.pf, self.cmp = v[2]
            return [self]
        if b in (0xa8, 0xa9):
            ww = w if b & 1 else 8
            im = self.sn(1 if ww == 8 else 2 if ww == 16 else 4) & mask(ww)
            self.alu(4, ww, self.get(0, ww), im); return [self]
        if 0xb0 <= b <= 0xb7:
            self.set(b & 7 | self.B << 3, 8, self.un(1)); return [self]
        if 0xb8 <= b <= 0xbf:
            v = self.un(8 if w == 64 else 2 if w == 16 else 4)
            self.set(b & 7 | self.B << 3, w, v); return [self]
        if b in (0xc0, 0xc1, 0xd0, 0xd1, 0xd2, 0xd3):
            ww = w if b & 1 else 8
            self.modrm()
            self.fixrip(1 if b < 0xd0 else 0)
            cnt = self.un(1) if b < 0xd0 else 1 if b < 0xd2 else self.get1(1)
            v = self.rme(ww)
            m = 63 if ww == 64 else 31
            r = self.shift(self.reg & 7, ww, v, cnt)
            self.wme(ww, r)
            return [self]
        if b in (0xc2, 0xc3):
            n = self.un(2) if b == 0xc2 else 0
            v = self.pop()
            if n: self.r[4] = mkbin('add', 64, self.r[4], n)
            self.ip = v
            return [self]
        if b in (0xc6, 0xc7):
            ww = w if b & 1 else 8
            self.modrm()
            if self.reg & 7: raise BadCode("invalid opcode %02x /%d" % (b, self.reg & 7))
            n = 1 if ww == 8 else 2 if ww == 16 else 4
            self.fixrip(n)
            self.wme(ww, self.sn(n) & mask(ww))
            return [self]
        if b == 0xc9:
            self.r[4] = self.r[5]
            self.r[5] = self.pop()
            return [self]
        if b == 0xcc: raise BadCode("int3 at %#x" % start)
        if b in (0xe8, 0xe9, 0xeb):
            d = self.sn(1 if b == 0xeb else 4)
            t = (self.ip + d) & mask(64)
            if b == 0xe8: self.push(self.ip)
            self.ip = t
            return [self]
        if b in (0xf6, 0xf7):
            ww = w if b & 1 else 8
            self.modrm()
            k = self.reg & 7
            n = (1 if ww == 8 else 2 if ww == 16 else 4) if k < 2 else 0
            self.fixrip(n)
            if k < 2:
                im = self.sn(n) & mask(ww)
                self.alu(4, ww, self.rme(ww), im)
            elif k == 2: self.wme(ww, mkbin('xor', ww, self.rme(ww), mask(ww)))
            elif k == 3:
                v = self.rme(ww)
                r = self.alu(5, ww, 0, v)
                self.wme(ww, r)
            else:
                if ww < 32: raise Broken("narrow multiplication or division")
                v = self.rme(ww)
                a, d = self.get(0, ww), self.get(2, ww)
                if k in (4, 5):
                    h = fold('mulhu' if k == 4 else 'mulhs', ww, a, v)
                    lo = mkbin('mul', ww, a, v)
                    self.set(0, ww, lo); self.set(2, ww, h)
                    self.zf, self.sf, self.pf = self.junk(), self.junk(), self.junk()
                    self.cf = self.of = not1(mkicmp('eq', ww, h, 0)) if k == 4 else mulov(a, v, ww)
                    self.cmp = None
                else:
                    if k == 6 and d == 0 and isinstance(d, int): q, r = mkbin('udiv', ww, a, v), mkbin('urem', ww, a, v)
                    elif k == 7 and d == mkbin('ashr', ww, a, ww - 1): q, r = mkbin('sdiv', ww, a, v), mkbin('srem', ww, a, v)
                    else: q, r = fold('divq' if k == 6 else 'idivq', ww, d, a, v), fold('divr' if k == 6 else 'idivr', ww, d, a, v)
                    self.set(0, ww, q); self.set(2, ww, r)
                    self.cf, self.zf, self.sf, self.of, self.pf = [self.junk() for _ in range(5)]
                    self.cmp = None
            return [self]
        if b in (0xfe, 0xff):
            ww = w if b & 1 else 8
            self.modrm(); self.fixrip()
            k = self.reg & 7
            if k < 2:
                c = self.cf
                r = self.alu(0 if k == 0 else 5, ww, self.rme(ww), 1)
                self.cf = c
                self.cmp = None
                self.wme(ww, r)
            elif b == 0xff and k == 2:
                t = self.rme(64)
                self.push(self.ip)
                self.ip = t
            elif b == 0xff and k == 4: self.ip = self.rme(64)
            elif b == 0xff and k == 6: self.push(self.rme(64))
            else: raise BadCode("invalid opcode %02x /%d at %#x" % (b, k, start))
            return [self]
        raise Broken("instruction %02x at %#x is not modelled" % (b, start))

    def get1(self, r):
        return T(self.r[r], 8)

    def imul(self, reg, w, a, b):
        r = mkbin('mul', w, a, b)
        self.set(reg, w, r)
        self.zf, self.sf, self.pf = self.junk(), self.junk(), self.junk()
        self.cf = self.of = mulov(a, b, w)
        self.cmp = None

    # ---- 0f xx -----------------------------------------------------------------------------------
    def xrm(self, w):
        """low w bits of the xmm/memory operand"""
        return T(self.x[self.rm][0], w) if self.rm is not None else self.load(self.ea, w)

    def xrm128(self):
        if self.rm is not None: return list(self.x[self.rm])
        a = aspair(self.ea)
        if isinstance(a[1], int) and self.align(a) % 16: raise BadCode("16 byte operand at an unaligned address")
        return [self.load(self.ea, 64), self.load(mkbin('add', 64, self.ea, 8), 64)]

    def align(self, a):
        if a[0] == ('abs',): return a[1]
        al = getattr(self, 'alignof', None)
        return a[1] + (al(a[0]) if al else 0)

    def xset(self, r, w, v):
        """write the low w bits, keeping the rest"""
        o = self.x[r]
        if w == 64: o[0] = v
        else: o[0] = cat32(v, hi32(o[0]))

    def two(self, b, w, p66, rep):
        at = self.ip
        f = rep == 0xf2 and 64 or rep == 0xf3 and 32 or 0
        if b == 0x0b: raise BadCode("ud2")
        if b in (0x1e, 0x1f, 0x18, 0x19, 0x0d):
            self.modrm(); self.fixrip()
            return [self]
        if b in (0x10, 0x11):
            self.modrm(); self.fixrip()
            if f:
                if b == 0x10:
                    if self.rm is not None: self.xset(self.reg, f, T(self.x[self.rm][0], f))
                    else: self.x[self.reg] = [Z(self.load(self.ea, f), f, 64), 0]
                elif self.rm is not None: self.xset(self.rm, f, T(self.x[self.reg][0], f))
                else: self.store(self.ea, f, T(self.x[self.reg][0], f))
            else:
                if b == 0x10: self.x[self.reg] = list(self.x[self.rm]) if self.rm is not None else [self.load(self.ea, 64), self.load(mkbin('add', 64, self.ea, 8), 64)]
                else: self.x128store(0)
            return [self]
        if b in (0x28, 0x29):
            self.modrm(); self.fixrip()
            if b == 0x28: self.x[self.reg] = self.xrm128()
            else: self.x128store(1)
            return [self]
        if b in (0x12, 0x13, 0x16, 0x17) and not rep:
            self.modrm(); self.fixrip()
            h = b >> 2 & 1
            if b & 1:
                if self.rm is not None: raise BadCode("movlp/movhp between registers")
                self.store(self.ea, 64, self.x[self.reg][h])
            else:
                v = self.x[self.rm][1 - h] if self.rm is not None else self.load(self.ea, 64)
                self.x[self.reg][h] = v
            return [self]
        if b == 0x14 and not rep:
            self.modrm(); self.fixrip()
            s = self.xrm128(); d = self.x[self.reg]
            if p66: self.x[self.reg] = [d[0], s[0]]
            else: self.x[self.reg] = [cat32(T(d[0], 32), T(s[0], 32)), cat32(hi32(d[0]), hi32(s[0]))]
            return [self]
        if b == 0x2a and f:
            self.modrm(); self.fixrip()
            iw = 64 if self.Wb else 32
            v = self.rme(iw)
            self.xset(self.reg, f, ('sitofp', f, v, iw) if not isinstance(v, int) else _val.i2f(f, sgn(v, iw)))
            return [self]
        if b in (0x2c, 0x2d) and f:
            self.modrm(); self.fixrip()
            iw = 64 if self.Wb else 32
            if b == 0x2d: raise Broken("cvtsd2si")
            self.set(self.reg, iw, fold('cvtt', iw, self.xrm(f), f))
            return [self]
        if b in (0x2e, 0x2f) and not rep:
            self.modrm(); self.fixrip()
            fw = 64 if p66 else 32
            a, c = T(self.x[self.reg][0], fw), self.xrm(fw)
            self.cf, self.zf, self.pf = (('fcmp', 1, q, fw, a, c) for q in ('ult', 'ueq', 'uno'))
            self.sf = self.of = 0
            self.cmp = None
            return [self]
        if 0x40 <= b <= 0x4f:
            self.modrm(); self.fixrip()
            c = self.cond(b & 15)
            self.set(self.reg, w, sel(c, w, self.rme(w), self.get(self.reg, w)))
            return [self]
        if b in (0x51, 0x58, 0x59, 0x5c, 0x5d, 0x5e, 0x5f) and f:
            self.modrm(); self.fixrip()
            a, c = T(self.x[self.reg][0], f), self.xrm(f)
            if b == 0x51: v = ('fcall', f, 'sqrt', c)
            elif b in (0x5d, 0x5f): v = sel(('fcmp', 1, 'olt' if b == 0x5d else 'ogt', f, a, c), f, a, c)
            else: v = ({0x58: 'fadd', 0x59: 'fmul', 0x5c: 'fsub', 0x5e: 'fdiv'}[b], f, a, c)
            self.xset(self.reg, f, v)
            return [self]
        if b == 0xc2 and f:
            self.modrm(); self.fixrip(1)
            a, c = T(self.x[self.reg][0], f), self.xrm(f)
            im = self.un(1)
            if im > 7: raise Broken("comparison predicate %d" % im)
            self.xset(self.reg, f, sel(('fcmp', 1, ('oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord')[im], f, a, c), f, mask(f), 0))
            return [self]
        if b in (0x54, 0x55, 0x56, 0x57) and not rep or b in (0xdb, 0xef, 0xeb, 0xdf) and p66:
            self.modrm(); self.fixrip()
            s = self.xrm128(); d = self.x[self.reg]
            op = {0x54: 'and', 0x55: 'andn', 0x56: 'or', 0x57: 'xor', 0xdb: 'and', 0xef: 'xor', 0xeb: 'or', 0xdf: 'andn'}[b]
            if op == 'andn': d = [mkbin('xor', 64, x, mask(64)) for x in d]; op = 'and'
            self.x[self.reg] = [mkbin(op, 64, x, y) for x, y in zip(d, s)]
            return [self]
        if b == 0x5a:
            self.modrm(); self.fixrip()
            if f == 64: self.xset(self.reg, 32, ('fptrunc', 32, self.xrm(64)))
            elif f == 32: self.xset(self.reg, 64, ('fpext', 64, self.xrm(32)))
            elif not p66:
                s = self.x[self.rm][0] if self.rm is not None else self.load(self.ea, 64)
                self.x[self.reg] = [('fpext', 64, T(s, 32)), ('fpext', 64, hi32(s))]
            else:
                s = self.xrm128()
                self.x[self.reg] = [cat32(('fptrunc', 32, s[0]), ('fptrunc', 32, s[1])), 0]
            return [self]
        if b in (0x6e, 0x7e, 0xd6) and (p66 or rep == 0xf3 and b == 0x7e):
            self.modrm(); self.fixrip()
            iw = 64 if self.Wb else 32
            if b == 0x6e: self.x[self.reg] = [Z(self.rme(iw), iw, 64), 0]
            elif b == 0x7e and rep: self.x[self.reg] = [self.xrm(64), 0]
            elif b == 0x7e: self.wme(iw, T(self.x[self.reg][0], iw))
            elif self.rm is not None: self.x[self.rm] = [self.x[self.reg][0], 0]
            else: self.store(self.ea, 64, self.x[self.reg][0])
            return [self]
        if b == 0x6f or b == 0x7f:
            self.modrm(); self.fixrip()
            if b == 0x6f: self.x[self.reg] = self.xrm128() if p66 else list(self.x[self.rm]) if self.rm is not None else [self.load(self.ea, 64), self.load(mkbin('add', 64, self.ea, 8), 64)]
            else: self.x128store(p66)
            return [self]
        if b in (0x70, 0xc6) and (p66 or b == 0xc6) and not rep:
            self.modrm(); self.fixrip(1)
            im = self.un(1)
            s = self.xrm128(); d = self.x[self.reg]
            sl = [T(s[0], 32), hi32(s[0]), T(s[1], 32), hi32(s[1])]
            dl = [T(d[0], 32), hi32(d[0]), T(d[1], 32), hi32(d[1])]
            if b == 0x70: o = [sl[im >> 2 * k & 3] for k in range(4)]
            elif p66:
                self.x[self.reg] = [d[im & 1], s[im >> 1 & 1]]
                return [self]
            else: o = [dl[im & 3], dl[im >> 2 & 3], sl[im >> 4 & 3], sl[im >> 6 & 3]]
            self.x[self.reg] = [cat32(o[0], o[1]), cat32(o[2], o[3])]
            return [self]
        if b in (0x72, 0x73, 0x71) and p66:
            self.modrm()
            im = self.un(1)
            k = self.reg & 7
            d = self.x[self.rm]
            if b == 0x73 and k in (2, 6):
                op = 'lshr' if k == 2 else 'shl'
                self.x[self.rm] = [mkbin(op, 64, x, im) if im < 64 else 0 for x in d]
            elif b == 0x72 and k in (2, 4, 6):
                op = {2: 'lshr', 4: 'ashr', 6: 'shl'}[k]
                g = lambda x: mkbin(op, 32, x, min(im, 31)) if im < 32 or k == 4 else 0
                self.x[self.rm] = [cat32(g(T(x, 32)), g(hi32(x))) for x in d]
            else: raise Broken("0f %02x /%d is not modelled" % (b, k))
            return [self]
        if b == 0x76 and p66:
            self.modrm(); self.fixrip()
            s = self.xrm128(); d = self.x[self.reg]
            if s == d: self.x[self.reg] = [mask(64), mask(64)]; return [self]
            raise Broken("pcmpeqd")
        if 0x80 <= b <= 0x8f:
            d = self.sn(4)
            return self.branch(self.cond(b & 15), (self.ip + d) & mask(64))
        if 0x90 <= b <= 0x9f:
            self.modrm(); self.fixrip()
            self.wme(8, Z(self.cond(b & 15), 1, 8))
            return [self]
        if b == 0xa2: raise Broken("cpuid")
        if b in (0xa4, 0xa5, 0xac, 0xad):
            self.modrm()
            self.fixrip(0 if b & 1 else 1)
            cnt = self.get1(1) if b & 1 else self.un(1)
            if w == 16: raise Broken("16 bit double shift")
            n = mkbin('and', 8, cnt, 63 if w == 64 else 31)
            a, c = self.rme(w), self.get(self.reg, w)
            left = b < 0xa8
            if n == 0 and isinstance(n, int): return [self]
            r = fold('shld' if left else 'shrd', w, a, c, Z(n, 8, w))
            self.fres(w, r)
            self.cf, self.of = self.junk(), self.junk()
            if not isinstance(n, int): self.zf, self.sf, self.pf = self.junk(), self.junk(), self.junk()
            self.wme(w, r)
            return [self]
        if b == 0xae:
            self.modrm(); self.fixrip()
            if self.rm is not None and (self.reg & 7) in (5, 6, 7) or self.rm is None and (self.reg & 7) == 7: return [self]
            if rep == 0xf3 and self.rm is not None: raise Broken("shadow stack instruction")
            raise Broken("0f ae /%d" % (self.reg & 7))
        if b == 0xaf:
            self.modrm(); self.fixrip()
            self.imul(self.reg, w, self.get(self.reg, w), self.rme(w))
            return [self]
        if b in (0xb0, 0xb1):
            ww = w if b & 1 else 8
            self.modrm(); self.fixrip()
            old = self.rme(ww)
            acc = self.get(0, ww)
            self.alu(7, ww, acc, old)
            e = mkicmp('eq', ww, acc, old)
            new = sel(e, ww, self.get(self.reg, ww), old)
            self.wme(ww, new)
            self.set(0, ww, sel(e, ww, acc, old)) if ww != 32 else self.r.__setitem__(0, sel(e, 64, self.r[0], Z(old, 32, 64)))
            return [self]
        if b in (0xc0, 0xc1):
            ww = w if b & 1 else 8
            self.modrm(); self.fixrip()
            a, c = self.rme(ww), self.get(self.reg, ww)
            r = self.alu(0, ww, a, c)
            self.set(self.reg, ww, a)
            self.wme(ww, r)
            return [self]
        if b in (0xb6, 0xb7, 0xbe, 0xbf):
            fw = 16 if b & 1 else 8
            self.modrm(); self.fixrip()
            v = self.rme(fw)
            self.set(self.reg, w, (S if b & 8 else Z)(v, fw, w))
            return [self]
        if b in (0xbc, 0xbd):
            self.modrm(); self.fixrip()
            v = self.rme(w)
            z = mkicmp('eq', w, v, 0)
            if rep == 0xf3 and (self.has('tzcnt') if b == 0xbc else self.has('lzcnt')):
                r = _cnt('ctz' if b == 0xbc else 'clz', w, v)
                self.set(self.reg, w, r)
                self.cf, self.zf = z, mkicmp('eq', w, r, 0)
                self.sf, self.of, self.pf = self.junk(), self.junk(), self.junk()
            else:
                r = sel(z, w, self.junk(w), fold('bsf' if b == 0xbc else 'bsr', w, v)) if not isinstance(v, int) or v else self.junk(w)
                self.set(self.reg, w, r)
                self.zf = z
                self.cf, self.sf, self.of, self.pf = self.junk(), self.junk(), self.junk(), self.junk()
            self.cmp = None
            return [self]
        if 0xc8 <= b <= 0xcf:
            r = b & 7 | self.B << 3
            if w == 16: raise Broken("bswap of 16 bits")
            self.set(r, w, fold('bswap', w, self.get(r, w)))
            return [self]
        if b == 0x3a and p66:
            c = self.u8()
            self.modrm()
            self.fixrip(1)
            im = self.un(1)
            if c == 0x16:
                iw = 64 if self.Wb else 32
                v = self.x[self.reg][im & 1] if iw == 64 else (T, lambda v, w: hi32(v))[im & 1](self.x[self.reg][im >> 1 & 1], 32)
                self.wme(iw, v)
            elif c == 0x22:
                iw = 64 if self.Wb else 32
                v = self.rme(iw)
                x = self.x[self.reg]
                if iw == 64: x[im & 1] = v
                else:
                    h = im >> 1 & 1
                    x[h] = cat32(T(x[h], 32), v) if im & 1 else cat32(v, hi32(x[h]))
            elif c in (0x0a, 0x0b):
                fw = 32 if c == 0x0a else 64
                if im & 4: raise Broken("rounding by MXCSR")
                self.xset(self.reg, fw, ('fcall', fw, ('nearbyint', 'floor', 'ceil', 'trunc')[im & 3], self.xrm(fw)))
            else: raise Broken("0f 3a %02x is not modelled" % c)
            return [self]
        if b == 0x38:
            c = self.u8()
            if c in (0xf0, 0xf1) and rep != 0xf2:
                if not self.has('movbe'): raise Broken("movbe")
            raise Broken("0f 38 %02x is not modelled" % c)
        raise Broken("instruction 0f %02x at %#x is not modelled" % (b, at))

    feats = frozenset()

    def has(self, f): return f in self.feats

    def x128store(self, aligned):
        if self.rm is not None:
            self.x[self.rm] = list(self.x[self.reg])
            return
        a = aspair(self.ea)
        if aligned and isinstance(a[1], int) and self.align(a) % 16: raise BadCode("16 byte operand at an unaligned address")
        self.store(self.ea, 64, self.x[self.reg][0])
        self.store(mkbin('add', 64, self.ea, 8), 64, self.x[self.reg][1])


def mulov(a, b, n):
    if isinstance(a, int) and isinstance(b, int): return _mulov(1, a, b, n)
    if isinstance(a, int) or not isinstance(b, int) and repr(b) < repr(a): a, b = b, a
    return ('mulov', 1, a, b, n)


def _rot(k, w, a, n):
    n %= w
    if k: n = -n % w
    return (a << n | a >> (w - n)) & mask(w) if n else a


def _cnt(op, w, v):
    if isinstance(v, int):
        v &= mask(w)
        return w - v.bit_length() if op == 'clz' else (v & -v).bit_length() - 1 if v else w
    return (op, w, v)


def hi32(v):
    if isinstance(v, int): return v >> 32 & mask(32)
    if v[0] == 'cat32': return v[3]
    if v[0] == 'zext' and bitsof(v[2]) <= 32: return 0
    return T(mkbin('lshr', 64, v, 32), 32)


def cat32(lo, hi):
    if isinstance(lo, int) and isinstance(hi, int): return lo & mask(32) | (hi & mask(32)) << 32
    if isinstance(hi, int) and hi == 0: return Z(lo, 32, 64)
    if isinstance(lo, tuple) and isinstance(hi, tuple) and lo[0] == 'trunc' and hi == hi32(lo[2]) and bitsof(lo[2]) == 64: return lo[2]
    return ('cat32', 64, lo, hi)


def _cat32(w, lo, hi): return lo & mask(32) | (hi & mask(32)) << 32


def _parity(w, v): return 1 - bin(v & 0xff).count('1') % 2


_val.EXT.update(cat32=_cat32, parity=_parity)
