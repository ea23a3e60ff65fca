"""Comparison of the abstract meaning of the emitted code with the WebAssembly semantics of the fragment."""
import itertools
from .absint import *
from .gen import *
from .lir import Lir, Wrong, Unknown, zext, trunc
from . import spec as SP
from .spec import Spec, SpecError
from .val import Val, Undef, NoMeaning, valuations, directed, canonical


class Helpers:
    """abstract effect of the translator's C helper functions, from their IR, in the caller's context"""

    def __init__(self, gen):
        self.g = gen
        self.I = gen.I
        self.used = {}
        self.cutpaths = 0

    def hook(self, L, m):
        def f(I, st, fr, i, off, size):
            if not isinstance(off, int): return None
            d = st.mem.get(('FP',), {})
            if any(x < off + size and off < x + c[0] for x, c in d.items() if isinstance(x, int)): return None
            for num, fo in reversed(m.calls):
                if off >= fo: return ('s', size * 8, ('ret', num, off - fo))
            return None
        return f

    def apply(self, L, m, name, o, e):
        if name not in self.g.p.m.funcs: raise Unknown("helper " + name)
        self.used[name] = self.used.get(name, 0) + 1
        fp = ('FP',)
        outs, pre = self.interpret(L, m, name, o)
        op = L.curop(m)
        if op == 0x40: return self.grow(L, m, o, outs, name)
        full = [s for s in outs if not s.incomplete]
        if not full: raise Unknown("helper %s has an unbounded loop" % name)
        if len(full) < len(outs): self.cutpaths = self.cutpaths + len(outs) - len(full)
        fin = []
        for s in full:
            x = m if s is full[-1] else m.copy()
            for ev in s.trace():
                if ev[0] == 'bad': raise Wrong('helper', 'helper %s: %s' % (name, ev[1:]))
                if ev[0] == 'memcpy':
                    dr, da = self.reg(L, x, *ev[1]); sr, sa = self.reg(L, x, *ev[2])
                    x.eff.append(('copy', dr, da, sr, sa, ev[3]) if 'move' in ev[6] else ('copy-nooverlap', dr, da, sr, sa, ev[3]))
                elif ev[0] == 'memset':
                    dr, da = self.reg(L, x, *ev[1])
                    x.eff.append(('fill', dr, da, ev[2], ev[3]))
                elif ev[0] == 'mst':
                    dr, da = self.reg(L, x, *ev[1])
                    x.eff.append(('st', ev[2] * 8, dr, da, ev[3]))
                elif ev[0] in ('ext', 'exit'):
                    raise Unknown("helper %s: %s" % (name, ev))
            x.st.mem[fp] = dict(s.mem[fp]); x.st.own.add(fp)
            for b in list(s.mem):
                if b[0] == 'GLB' and s.mem[b]:
                    x.st.mem[b] = dict(s.mem[b]); x.st.own.add(b)
            for c, tv in s.assumed.items():
                if c in pre or not tv: continue
                x.declist.append((c, True))
                x.dec[c] = True
                x.st.assume(c, True)
            fin.append(x)
        return fin

    def interpret(self, L, m, name, o):
        g = self.g
        base = g.setup(L.env, [])
        fp = ('FP',)
        base.obj(fp, 'lazy')
        base.mem[fp] = dict(m.st.mem[fp]); base.own.add(fp)
        for b in m.st.mem:
            if b[0] == 'GLB' and m.st.mem[b]: base.mem[b] = dict(m.st.mem[b]); base.own.add(b)
        base.eq.update(m.st.eq); base.rng.update(m.st.rng); base.assumed.update(m.st.assumed)
        for k in range(len(L.env.memories)): base.obj(('MB', k), 'lazy')
        pre = set(base.assumed)
        for b in set(('MB', v[1][1], v[1][2]) for _, v in [c for c in base.mem[fp].values()] if isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'MB' and len(v[1]) == 3):
            base.obj(b, 'lazy')
        for k in range(L.env.tables): base.obj(('TE', k), 'lazy')
        self.I.hook_load[fp] = self.hook(L, m)
        n0 = len(m.eff)
        if L.curop(m) != 0x40:
            self.I.eventful = lambda b: isinstance(b, tuple) and b[0] in ('MB', 'TE', 'd')
            self.I.evload = lambda st, b, off, w: ('ld', 8 * w) + self.region(L, b, off) + (n0 + st.user.get('evn', 0),)
        base.user['evn'] = 0
        try:
            self.I.call(base, name, [('p', fp, o)])
            outs = self.I.run(base)
        except Broken as x:
            raise Unknown("helper %s: %s" % (name, x))
        finally:
            del self.I.hook_load[fp]
            self.I.eventful = None
        return outs, pre

    def region(self, L, b, o):
        if b[0] == 'MB': return ('M', b[1]), o
        if b[0] == 'TE': return ('T', b[1]), o
        return ('N',), L.num(('p', b, o))

    def reg(self, L, x, b, o):
        if b[0] == 'MB':
            L.stale(x, b if len(b) == 3 else b + (x.mver,))
            return ('M', b[1]), o
        if b[0] == 'TE': return ('T', b[1]), o
        if b[0] == 'd': return ('N',), L.num(('p', b, o))
        if b[0] == 'abs': return ('N',), o
        raise Unknown("helper touches %r" % (b,))

    def grow(self, L, m, o, outs, name):
        P = self.g.p
        po = P.off('Memory', 'pages')
        seen = set()
        for s in outs:
            for b in s.mem:
                if b[0] == 'MEM' and po in s.mem[b]:
                    v = s.mem[b][po][1]
                    seen.add((b[1], mkbin('sub', 32, v, ('s', 32, ('m', b, po)))))
        if len(seen) != 1: raise Unknown("memory.grow helper")
        k, d = seen.pop()
        m.eff.append(('grow', k, d))
        m.mver += 1
        m.st.put(('FP',), o, 4, ('s', 32, ('growres', len(m.eff))))
        return [m]


def normpred(n):
    if n == 0x41: return n


class Finding:
    def __init__(self, cat, op, msg, site, shape=''):
        self.cat = cat        # kind of contradiction
        self.op = op          # wasm opcode (or ('fc', sub))
        self.msg = msg
        self.site = site      # (file, line, call chain)
        self.shape = shape

    def __repr__(self): return "%s op=%s %s @%s [%s]" % (self.cat, opname(self.op), self.msg, self.site, self.shape)


def opname(op):
    if op is None: return '-'
    if isinstance(op, tuple): return SP.SUBN.get(op[1], 'fc %s' % op[1])
    return SP.NAMES.get(op, hex(op))


def short(t, n=160):
    s = repr(t)
    return s if len(s) <= n else s[:n] + '...'


class TV:
    def __init__(self, gen, maxvisit=2):
        self.dircache = set()
        self.g = gen
        self.h = Helpers(gen)
        self.L = Lir(gen.p, self.h, maxvisit)
        self.stats = dict(fragments=0, paths=0, points=0, equal=0, folded=0, undecided=0, unknown=0, errors=0)
        self.unk = {}

    def opat(self, code, pc):
        op = code[pc][1]
        return ('fc', code[pc + 1][1]) if op == 0xfc else op

    def check(self, env, code, shape=''):
        """-> (list of Finding, outcome)   outcome: 'ok' | ('error', msg)"""
        self.valcache = {}
        self.stats['fragments'] += 1
        self.shape = shape
        self.code = code
        L = self.L
        L.env = env
        L.curop = lambda m: code[m.marks[-1][0][1]][1] if m.marks else None
        out = []
        outcome = None
        for st in self.g.emit(env, code):
            tr = st.trace()
            if st.status != 'ret':
                return [Finding('translator', None, 'translation does not return: %s' % (st.status,), None, shape)], ('bad', st.status)
            if st.result != 0:
                outcome = ('error', self.errstr(st.result))
                self.stats['errors'] += 1
                continue
            for e in tr:
                if e[0] == 'bad':
                    out.append(Finding('translator', None, 'translator accesses memory wrongly: %r' % (e[1:],), e[-2:], shape))
            if outcome is None: outcome = 'ok'
            ev = []
            on = False
            for e in tr:
                if e[0] == 'gen-begin': on = True
                elif on and e[0] in ('op', 'lir'): ev.append(e)
            self.cfgenv = env
            try:
                ms = L.run(ev, env, st.user.get('locals', ()))
            except Unknown as u:
                self.unknown('lir', str(u)); continue
            except Wrong as w:
                out.append(Finding(w.kind, None, str(w), self.site(w.site), shape)); continue
            for m in ms:
                self.stats['paths'] += 1
                f = self.compare(env, code, m)
                if f: out.append(f)
        return out, outcome

    def errstr(self, r):
        try:
            return bytes(self.g.I.bytes_at(State(), r)).decode()
        except Exception:
            return repr(r)

    def unknown(self, where, msg):
        self.stats['unknown'] += 1
        k = (where, msg.split(':')[0][:60])
        self.unk[k] = self.unk.get(k, 0) + 1

    def site(self, e):
        if not e or e[0] != 'lir': return None
        return (e[4], e[5], e[6])

    # ---- one LIR path ------------------------------------------------------------
    def compare(self, env, code, m):
        specs = [Spec(env, code)]
        conds0 = [(t, tr) for t, tr in m.declist]
        first = None
        while specs:
            s = specs.pop()
            try:
                f = self.follow(s, m, conds0, specs)
            except SpecError as x:
                self.unknown('spec', str(x)); continue
            except Unknown as x:
                self.unknown('cmp', str(x)); continue
            if f: return f
        return None

    STRUCT = (0x02, 0x03, 0x05, 0x0b, 0x01)

    def follow(self, s, m, conds0, specs):
        code = self.code
        lm = [x for x in m.marks]
        k = s.k
        npc = 0
        lastop = s.lastop
        self.cur = s.cur
        while True:
            if s.pending is not None: pass
            elif s.end is None:
                op = code[s.pc][1]
                struct = op in self.STRUCT
                # advance LIR marks over structural opcodes
                while k < len(lm) and code[lm[k][0][1]][1] in self.STRUCT and not (struct and lm[k][0][1] == s.pc): k += 1
                if struct and (k >= len(lm) or lm[k][0][1] != s.pc):
                    pass     # structural opcode not visited by the path: no constraint
                else:
                    if k >= len(lm):
                        return self.atend(s, m, conds0, lastop)
                    e, view = lm[k]
                    if e[1] != s.pc:
                        ok = self.feasible(m, s, conds0)
                        if not ok: self.unknown('path', 'infeasible'); return None
                        return Finding('control', lastop, 'after %s the emitted code continues with the instruction at %d (%s) instead of the one at %d (%s)' % (
                            opname(lastop), e[1], opname(self.opat(code, e[1])), s.pc, opname(self.opat(code, s.pc))), self.last_site(m, e), self.shape)
                    f = self.point(s, m, e, view, conds0, lastop, k)
                    if f: return f
                    k += 1
            else:
                while k < len(lm) and code[lm[k][0][1]][1] in self.STRUCT: k += 1
                if k < len(lm):
                    if s.end[0] in ('trap',): return None
                    if not self.feasible(m, s, conds0): return None
                    return Finding('control', lastop, 'after %s the emitted code continues with the instruction at %d although the function has ended (%s)' % (opname(lastop), lm[k][0][1], s.end[0]), None, self.shape)
                return self.atend(s, m, conds0, lastop)
            if s.pending is None:
                lastop = s.lastop = self.opat(code, s.pc)
                self.cur = s.cur = s.pc
                s.pending = (s.step(),)
            while s.pending[0] is not None:
                cond, then = s.pending[0]
                d = self.choose(m, s, cond)
                if d is None:
                    # the path does not separate the two cases (branch-free code): follow both
                    if len(s.conds) > 4: raise Unknown("too many undivided conditions")
                    s2 = s.copy()
                    s2.conds.append((cond, False)); s.conds.append((cond, True))
                    s2.k = k
                    s2.pending = (then(s2, False),)
                    specs.append(s2)
                    d = True
                s.pending = (then(s, d),)
            s.pending = None
            npc += 1
            if npc > 400: return None

    def choose(self, m, s, cond):
        if isinstance(cond, int): return bool(cond)
        neg = False
        c = cond
        if c[0] == 'not': c, neg = c[2], True
        d = m.st.decide(c)
        if d is not None: return d != neg
        for cc, ng in ((c, False), (mknot(c), True)):
            if isinstance(cc, int): return bool(cc) != ng != neg
            d = m.dec.get(cc)
            if d is not None: return (d != ng) != neg
        # constant folding under the path's valuations
        got = set()
        for v in self.vals(m, s):
            v.eff = tuple(m.eff); v.evmemo = {}
            try: got.add(bool(v.ev(cond)))
            except (Undef, NoMeaning): pass
        if len(got) == 1: return got.pop()
        if not got: raise Unknown("condition %s" % short(cond))
        return None

    def vals(self, m, s):
        key = (tuple(m.declist), tuple(s.conds))
        r = self.valcache.get(key)
        if r is None: r = self.valcache[key] = list(valuations(list(m.declist) + list(s.conds), 7, groups=[(list(m.declist), tuple(m.eff)), (list(s.conds), tuple(s.eff))]))
        return r

    def feasible(self, m, s, conds0):
        for v in self.vals(m, s): return True
        return False

    def last_site(self, m, e):
        return (e[3], e[4], ())

    # ---- comparing values ------------------------------------------------------------
    def same(self, m, s, a, b, bits, aeff=None, beff=None):
        """a: emitted code, b: semantics.  True / False / None (undecided)"""
        if isinstance(a, int) and isinstance(b, int):
            self.witness = '%#x instead of %#x' % (a & mask(bits), b & mask(bits))
            return (a ^ b) & mask(bits) == 0
        if a == b: return True
        a2, b2 = m.st.res(a), m.st.res(b)
        if a2 == b2: return True
        ra, rb = urange(a2, m.st), urange(b2, m.st)
        if ra[0] == ra[1] and rb[0] == rb[1]:
            if ra[0] == rb[0]: return True
        ae, be = tuple(m.eff), tuple(s.eff)
        n = 0
        conds = list(m.declist) + list(s.conds)
        ck = canonical([a, b] + [c for c, _ in conds])
        if ck is not None: ck = (ck, tuple(bool(t) for _, t in conds))
        dirs = () if ck in self.dircache else directed((a, b), conds, [(list(m.declist), ae), (list(s.conds), be)])      # the same question was answered before
        for v in itertools.chain(self.vals(m, s), dirs):
            try:
                v.eff = be; v.evmemo = {}
                y = v.ev(b) & mask(bits)
            except (Undef, NoMeaning): continue
            try:
                v.eff = ae; v.evmemo = {}
                x = v.ev(a) & mask(bits)
            except NoMeaning: continue
            except Undef:
                self.witness = 'undefined behaviour'
                return False
            n += 1
            if x != y:
                self.witness = '%#x instead of %#x' % (x, y)
                return False
        if ck is not None: self.dircache.add(ck)
        if n:
            self.stats['folded'] += 1
            return None if n < 1 else True
        self.stats['undecided'] += 1
        return None

    def bad(self, cat, lastop, msg, site):
        return Finding(cat, lastop, msg, site, self.shape)

    def opsite(self, m, lastpc):
        """last LIR instruction emitted for the opcode at code position lastpc"""
        best = None
        cur = None
        for e in self.L.prog:
            if e[0] == 'op': cur = e[1]
            elif cur == lastpc: best = e
        return self.site(best) if best else None

    def cmpvals(self, s, m, pairs, cat_of, lastop):
        for what, t, a, b in pairs:
            bits = SP.tbits(t)
            self.stats['points'] += 1
            if isinstance(a, tuple) and a[0] == 'UNKNOWN':
                self.unknown('slot', a[1]); continue
            if isinstance(a, tuple) and a[0] == 'WRONG':
                w = a[1]
                if not self.feasible(m, s, None): continue
                return self.bad(w.kind if w.kind in ('stale-base',) else cat_of(what), lastop, '%s: %s' % (what, w), self.opsite(m, self.cur))
            if isinstance(a, tuple) and a[0] == 'dummy': continue
            r = self.same(m, s, a, b, bits)
            if r is False:
                return self.bad(cat_of(what), lastop, '%s is %s, semantics %s (%s)' % (what, short(a), short(b), self.witness), self.opsite(m, self.cur))
            if r: self.stats['equal'] += 1
        return None

    def effects(self, s, m, n, lastop):
        """effects emitted since the last point"""
        a = m.eff[:n]
        b = s.eff
        i0, j0 = getattr(s, 'effchk', (0, 0))
        f = self.effects1(s, m, a[i0:], b[j0:], lastop)
        if f and f.cat == 'effect':
            # the sequences differ: compare what they leave in memory
            r = self.memequal(s, m, a, b, i0, j0)
            if r is True:
                self.stats['folded'] += 1
                f = None
            elif r is None:
                self.stats['undecided'] += 1
                f = None
            else: f.msg += ' (%s)' % r
        if f: return f
        s.effchk = (len(a), len(b))
        return None

    BARRIER = ('call', 'grow')

    def memequal(self, s, m, a, b, i0, j0):
        """True: the same memory contents under every valuation; None: no valuation; otherwise a description of the difference"""
        na, nb = a[i0:], b[j0:]
        if any(e[0] in self.BARRIER for e in na) or any(e[0] in self.BARRIER for e in nb):
            ka = [e for e in na if e[0] in self.BARRIER]; kb = [e for e in nb if e[0] in self.BARRIER]
            if [e[0] for e in ka] != [e[0] for e in kb]: return 'different calls'
            return 'around a call'
        ae, be = tuple(a), tuple(b)
        got = 0
        vs = list(self.vals(m, s)) + list(self.near(s, m, na, nb))
        for v in vs:
            try:
                v.eff = be; v.evmemo = {}
                pts = self.touched(v, nb)
                yb = None
                v.eff = ae; v.evmemo = {}
                pts |= self.touched(v, na)
                pts = sorted(pts, key=repr)[:400]
                xa = [v.membyte(r, ad, len(ae), ae) for r, ad in pts]
                if any(e[0] == 'copy-nooverlap' and not self.disjoint(v, e) for e in na): return 'memcpy of overlapping ranges'
                v.eff = be; v.evmemo = {}
                yb = [v.membyte(r, ad, len(be), be) for r, ad in pts]
            except (Undef, NoMeaning): continue
            got += 1
            for (r, ad), x, y in zip(pts, xa, yb):
                if x != y: return 'byte %#x of %s becomes %#x instead of %#x' % (ad, r, x, y)
        return True if got else None

    @staticmethod
    def disjoint(v, e):
        if e[1] != e[3]: return True
        d, s, n = v.ev(e[2]), v.ev(e[4]), v.ev(e[5])
        return d + n <= s or s + n <= d or n == 0

    @staticmethod
    def touched(v, effs):
        out = set()
        for e in effs:
            if e[0] == 'st':
                ad = v.ev(e[3])
                for k in range(e[1] // 8): out.add((e[2], (ad + k) & mask(64)))
            elif e[0] in ('fill', 'tfill', 'copy', 'copy-nooverlap'):
                n = v.ev(e[5] if e[0][0] == 'c' else e[4]) * (8 if e[0] == 'tfill' else 1)
                ad = v.ev(e[2])
                for k in sorted({0, 1, 2, 3, 7, 8, 15, 255, 256, 65535, 65536, n // 2, n - 9, n - 8, n - 2, n - 1, n, n + 1, -1}):
                    if -1 <= k <= n + 1: out.add((e[1], (ad + k) & mask(64)))
        return out

    def near(self, s, m, na, nb):
        """valuations that make the ranges of bulk operations overlap and their lengths small"""
        from .val import symbols, Val
        ranges, lens = [], []
        for e in list(na) + list(nb):
            if e[0][:4] == 'copy':
                ranges += [e[2], e[4]]; lens.append(e[5])
            elif e[0] in ('fill', 'tfill'): ranges.append(e[2]); lens.append(e[4])
            elif e[0] == 'st':
                ranges.append(e[3])
                if isinstance(e[4], tuple) and e[4][0] == 'ld': ranges.append(e[4][3])
        sy, ln = [], []
        for t in ranges: symbols(t, sy)
        for t in lens: symbols(t, ln)
        if len(sy) > 4: return
        k = 0
        for d in ((64, 65), (65, 64), (64, 64), (64, 66), (80, 64), (64, 72)):
            for n in (3, 2, 1, 8, 17):
                v = Val(('near', k), ()); k += 1
                for i, t in enumerate(sy): v.preset(t, d[i & 1])
                for t in ln:
                    if t not in sy: v.preset(t, n)
                try:
                    if all(bool(v.ev(t)) == tr for t, tr in list(m.declist) + list(s.conds)): yield v
                except (Undef, NoMeaning): pass

    def effects1(self, s, m, a, b, lastop):
        for i in range(max(len(a), len(b))):
            if i >= len(a):
                return self.bad('effect', lastop, 'no %s is emitted' % (b[i][0] if b[i][0] != 'st' else 'store'), self.opsite(m, self.cur))
            if i >= len(b):
                return self.bad('effect', lastop, 'an additional %s is emitted: %s' % (a[i][0], short(a[i][1:5])), self.opsite(m, self.cur))
            x, y = a[i], b[i]
            if x[0] != y[0]:
                return self.bad('effect', lastop, 'a %s is emitted where the semantics has a %s' % (x[0], y[0]), self.opsite(m, self.cur))
            if x[0] == 'st':
                if x[1] != y[1] or x[2] != y[2]:
                    return self.bad('effect', lastop, 'stores %d bits to %s, semantics %d bits to %s' % (x[1], x[2], y[1], y[2]), self.opsite(m, self.cur))
                fl = [('store address', I64, x[3], y[3]), ('stored value', I32 if x[1] == 32 else I64, x[4], y[4])]
                if x[1] < 32: fl[1] = ('stored value', I32, trunc(x[4], 64, x[1]) if bitsz(x[4]) > x[1] else x[4], trunc(y[4], 64, x[1]) if bitsz(y[4]) > x[1] else y[4])
                f = self.cmpvals(s, m, fl, lambda w: 'effect', lastop)
            elif x[0] == 'fill':
                if x[1] != y[1]: return self.bad('effect', lastop, 'fills %s, semantics %s' % (x[1], y[1]), self.opsite(m, self.cur))
                f = self.cmpvals(s, m, [('fill address', I64, x[2], y[2]), ('fill byte', I32, mkbin('and', 32, 255, x[3]), mkbin('and', 32, 255, y[3])), ('fill length', I64, x[4], y[4])], lambda w: 'effect', lastop)
            elif x[0] == 'copy':
                if x[1] != y[1] or x[3] != y[3]: return self.bad('effect', lastop, 'copies %s to %s, semantics %s to %s' % (x[3], x[1], y[3], y[1]), self.opsite(m, self.cur))
                f = self.cmpvals(s, m, [('copy destination', I64, x[2], y[2]), ('copy source', I64, x[4], y[4]), ('copy length', I64, x[5], y[5])], lambda w: 'effect', lastop)
            elif x[0] == 'grow':
                if x[1] != y[1]: return self.bad('effect', lastop, 'grows memory %s, semantics memory %s' % (x[1], y[1]), self.opsite(m, self.cur))
                f = self.cmpvals(s, m, [('memory.grow delta', I32, x[2], y[2])], lambda w: 'effect', lastop)
            elif x[0] == 'call':
                f = self.cmpcall(s, m, x, y, lastop)
            else: f = None
            if f: return f
        return None

    def cmpcall(self, s, m, x, y, lastop):
        _, tgt, o, st, calls, tail, gst, e, gver = x
        _, tgt2, args, types, globs, gver2, tail2 = y
        fl = [('call target', I64, tgt, tgt2)]
        if tail2 and not tail: return None
        po, _ = layout(types, self.cfgenv.align)
        if tail and o != 0:
            return self.bad('call', lastop, 'tail call passes frame offset %d' % o, self.site(e))
        if self.cfgenv.align and o % 8:
            return self.bad('call', lastop, 'callee frame at unaligned offset %d' % o, self.site(e))
        mm = m.copy(); mm.st = st; mm.calls = list(calls)
        for k, (t, po1, v) in enumerate(zip(types, po, args)):
            fl.append(('call argument %d' % k, t, self.L.load(mm, ('p', ('FP',), o + po1), SP.tbits(t)), v))
        for k, t in enumerate(self.cfgenv.globals):
            fl.append(('global %d at the call' % k, t, self.gval(st, k, t, gver), dict(globs).get(k, ('s', SP.tbits(t), ('glob', k, gver2)))))
        return self.cmpvals(s, m, fl, lambda w: 'call', lastop)

    def gval(self, st, k, t, gver):
        d = st.mem.get(('GLB', k), {})
        if not d: return ('s', SP.tbits(t), ('glob', k, gver))
        n = SP.tbits(t) // 8
        if 0 in d and d[0][0] == n: return d[0][1]
        c = d.get(0)
        if c is None: return ('s', SP.tbits(t), ('glob', k, gver))
        if c[0] > n: return trunc(c[1], c[0] * 8, n * 8)
        # partial store: the upper part keeps its old value
        old = ('s', n * 8, ('glob', k, gver))
        return mkbin('or', n * 8, mkbin('and', n * 8, mask(n * 8) ^ mask(c[0] * 8), old), mkcast('zext', c[0] * 8, n * 8, c[1]))

    def live(self, k, pc):
        """may local k be read after code position pc (textually, any loop counts)"""
        code = self.code
        p = 0
        while p < len(code):
            op = code[p][1]
            if op == 3: return True
            if p >= pc and op in (0x20, 0x21, 0x22) and code[p + 1][1] == k: return op == 0x20
            p += SP.iplen(code, p)
        return False

    def point(self, s, m, e, view, conds0, lastop, k):
        stack, loc, neff, gst, glb, nd = view
        spst = s.stack
        first = k == 0
        f = self.effects(s, m, neff, lastop)
        if f: return f
        if first:
            pairs = [('local %d at entry' % i, t, a, b) for i, (t, a, b) in enumerate(zip(s.ltypes, loc, s.locals)) if not uninit(b) and self.live(i, s.pc) and not undefd(a)]
            return self.cmpvals(s, m, pairs, lambda w: 'entry', None)
        if len(stack) != len(spst):
            return self.bad('height', lastop, 'operand stack has %d entries, semantics %d' % (len(stack), len(spst)), self.opsite(m, self.cur))
        new = getattr(s, 'prevtop', 0)
        nres = 1
        pairs = []
        for i, ((wt, a), (t, b)) in enumerate(zip(stack, spst)):
            pairs.append(('operand %d from top' % (len(spst) - 1 - i), t, a, b))
        pairs.reverse()
        f = self.cmpvals(s, m, pairs, lambda w: 'result' if w == 'operand 0 from top' and produces(lastop) else 'operand', lastop)
        if f: return f
        wl = self.code[self.cur + 1][1] if lastop in (0x21, 0x22) else None
        pairs = [('local %d' % i, t, a, b) for i, (t, a, b) in enumerate(zip(s.ltypes, loc, s.locals)) if not uninit(b) and self.live(i, s.pc) and not undefd(a)]
        f = self.cmpvals(s, m, pairs, lambda w: 'result' if w == 'local %s' % wl else 'local', lastop)
        if f: return f
        pairs = []
        for g, t in enumerate(self.cfgenv.globals):
            d = glb.get(g)
            if d or g in s.glob:
                st = State(); st.obj(('GLB', g), 'lazy'); st.mem[('GLB', g)] = d or {}
                pairs.append(('global %d' % g, t, self.gval(st, g, t, s.gver), s.gget(g)))
        return self.cmpvals(s, m, pairs, lambda w: 'effect', lastop)

    def atend(self, s, m, conds0, lastop):
        kind = m.end[0]
        if kind == 'unknown':
            self.unknown('lir', m.end[1]); return None
        if kind == 'cut': return None
        if kind == 'wrong':
            if not self.feasible(m, s, None): return None
            w = m.end[1]
            return self.bad(w.kind, lastop, str(w), self.site(w.site) if w.site else self.opsite(m, self.cur))
        if s.end is None:
            if not self.feasible(m, s, None): return None
            return self.bad('control', lastop, 'the emitted code leaves the function (%s) before the instruction at %d' % (kind, s.pc), self.opsite(m, self.cur))
        if s.end[0] == 'trap': return None
        f = self.effects(s, m, len(m.eff), lastop)
        if f: return f
        if s.end[0] == 'tailcall' or kind == 'tailcall':
            return None
        if kind != 'return':
            if not self.feasible(m, s, None): return None
            return self.bad('control', lastop, 'the emitted code runs off its end', None)
        ro, _ = layout(self.cfgenv.results, self.cfgenv.align)
        vals = s.end[1]
        if len(vals) < len(ro): raise SpecError("results")
        pairs = []
        for k, (t, o, (_, v)) in enumerate(zip(self.cfgenv.results, ro, vals)):
            try: a = self.L.load(m, ('p', ('FP',), o), SP.tbits(t))
            except Wrong as w: a = ('WRONG', w)
            pairs.append(('function result %d' % k, t, a, v))
        f = self.cmpvals(s, m, pairs, lambda w: 'return', lastop)
        if f: return f
        pairs = []
        for g, t in enumerate(self.cfgenv.globals):
            d = m.st.mem.get(('GLB', g))
            if d or g in s.glob:
                pairs.append(('global %d' % g, t, self.gval(m.st, g, t, s.gver), s.gget(g)))
        return self.cmpvals(s, m, pairs, lambda w: 'effect', lastop)


def undefd(a):
    return isinstance(a, tuple) and (a[0] == 'WRONG' and a[1].kind == 'undef-reg' or a[0] == 's' and isinstance(a[2], tuple) and a[2][0] == 'uninit-sp')


def uninit(b): return isinstance(b, tuple) and b[0] == 's' and isinstance(b[2], tuple) and b[2][0] == 'uninit-local'


def bitsz(t): return 64 if isinstance(t, int) else bitsof(t)


def produces(op):
    return isinstance(op, tuple) or op is not None and (op in (0x10, 0x11, 0x1b, 0x1c, 0x20, 0x22, 0x23, 0x25, 0x28) or 0x28 <= op <= 0x35 or 0x3f <= op <= 0xd2)
