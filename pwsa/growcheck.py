"""P15: what memory.grow does when it runs.  The helper the emitted code calls is interpreted in the state
of the call (frame, context and memories as they are there), once with and once without a successful
allocation, and every path is compared with the contract of memory.grow."""
from .tv import *
from .frags import *
from .lir import Wrong, Unknown
from .val import Val, Undef, NoMeaning

PAGE = 65536


def points(kind):
    """(pages, maximum, delta)"""
    out = []
    if kind == 'raw':
        for d in (0, 1, 0x80000000, 0xffffffff): out.append((0x7fffffff, 0x7fffffff, d))
        return out
    for prev in (0, 1, 2, 5, 100, 32767, 32768, 65535, 65536):
        for mx in sorted({prev, prev + 1, prev + 2, 7, 200, 40000, 65535, 65536}):
            if mx < prev or mx > 65536: continue
            for d in sorted({0, 1, 2, 3, mx - prev, mx - prev + 1, max(mx - prev - 1, 0), mx, mx + 1, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xffff0000, 0xffffffff, (-prev) & 0xffffffff, (mx - prev) + 0x10000 & 0xffffffff, (1 - prev) & 0xffffffff, (mx - 2 * prev) & 0xffffffff}):
                out.append((prev, mx, d))
    return out


class Helpers15(Helpers):
    def grow(self, L, m, o, outs, name):
        tv = self.tv
        pc = m.marks[-1][0][1]
        x = tv.code[pc + 1]
        k = x[1] if x[0] == 'imm' else None
        tv.grown = True
        if isinstance(k, int) and k < len(L.env.memories):
            self.I.ext['realloc'] = self.I.ext['malloc'] = self.I.ext['calloc'] = self.nomem
            try: fail = self.interpret(L, m, name, o)[0]
            finally:
                for n in ('realloc', 'malloc', 'calloc'): del self.I.ext[n]
            for what, l in (('', outs), ('without memory', fail)):
                self.contract(L, m, o, k, what, l, name)
        return super().grow(L, m, o, outs, name)

    def apply(self, L, m, name, o, e):
        n = self.I.MAXSTEPS
        if L.curop(m) == 0x40: self.I.MAXSTEPS = 30000
        try: return super().apply(L, m, name, o, e)
        finally: self.I.MAXSTEPS = n

    def where(self, name):
        for b in self.g.p.m.funcs[name].blocks:
            for i in b.insts:
                if i.file: return '%s (%s)' % (name, i.file)
        return name

    def nomem(self, I, st, fr, i, a):
        st.emit(('nomem',))
        return 0

    def contract(self, L, m, o, k, what, outs, name):
        tv = self.tv
        p = self.g.p
        kind = L.env.memories[k]
        MO = lambda f: p.off('Memory', f)
        B = ('MEM', k)
        C = lambda f, n=4: ('s', 8 * n, ('m', B, MO(f)))
        delta = L.env.delta
        if delta is None: return
        done = set()
        trace = {id(s): s.trace() for s in outs if not s.incomplete}
        for t in trace.values():
            if len(t) > 200: raise Unknown("memory.grow helper with long loops")
        init = self.g.setup(L.env, [])
        for s in outs:
            if s.incomplete: continue
            for e in trace[id(s)]:
                if e[0] == 'bad': raise Wrong('memory.grow', '%s: memory access %s of %s' % (self.where(name), e[1], e[2:]))
                if e[0] == 'exit': raise Wrong('memory.grow', '%s: the process is ended%s' % (self.where(name), ' when there is no memory' if what else ''))
        for prev, mx, d in points(kind):
            v = Val(7)
            v.preset(C('pages'), prev); v.preset(C('maximum'), mx); v.preset(C('initial'), min(prev, 1))
            if isinstance(delta, int):
                if delta != d and d not in (0, 1): continue
                if delta != d and (prev, mx) in done: continue
                done.add((prev, mx))
                d = delta & 0xffffffff
            else: v.preset(delta, d)
            hit = None
            for s in outs:
                try:
                    if all(v.ev(c) == t for c, t in s.assumed.items()): hit = s if hit is None else 'many'
                except (Undef, NoMeaning): hit = 'many'
            if hit is None or hit == 'many' or hit.incomplete or hit.status != 'ret':
                tv.stats['undecided'] += 1; continue
            try: bad = self.judge(L, m, hit, v, o, k, kind, prev, mx, d, C, MO, init, trace.get(id(hit)))
            except (Undef, NoMeaning): tv.stats['undecided'] += 1; continue
            tv.stats['equal'] += 1
            if bad: raise Wrong('memory.grow', '%s: %s (memory of kind %s with %d pages, maximum %d, grown by %d%s)' % (self.where(name), bad, kind, prev, mx, d, ', the allocation fails' if what else ''))

    def judge(self, L, m, s, v, o, k, kind, prev, mx, d, C, MO, init, tr):
        B = ('MEM', k)
        nomem = any(e[0] == 'nomem' for e in tr)
        new = prev + d
        fits = new <= mx
        res = v.ev(s.res(s.get(('FP',), o, 4))) & 0xffffffff
        now = {f: s.res(s.get(B, MO(f), n)) for f, n in (('pages', 4), ('maximum', 4), ('initial', 4), ('fixed', 1), ('bytes', 8))}
        old = {f: C(f, n) for f, n in (('pages', 4), ('maximum', 4), ('initial', 4))}
        for f in ('maximum', 'initial'):
            if v.ev(now[f]) != v.ev(old[f]): return 'the %s size changes' % f
        if v.ev(now['fixed']) != (0 if kind == 'grow' else 1): return 'the fixed mark changes'
        for j in range(len(L.env.memories)):
            if j != k:
                for off, (n, x) in s.mem.get(('MEM', j), {}).items():
                    if isinstance(off, int) and x != init.get(('MEM', j), off, n): return 'memory %d changes instead of memory %d' % (j, k)
        for off, (n, x) in m.st.mem[('FP',)].items():
            if isinstance(off, int) and off + n <= o:
                y = s.get(('FP',), off, n)
                if y != x and v.ev(y) != v.ev(x): return 'the frame of the caller changes below the arguments'
        old_b = 0 if kind == 'raw' else ('p', ('MB', k), 0)
        moved = now['bytes'] != old_b
        gone = set(s.freed) | {e[1] for e in tr if e[0] == 'free'}
        sets = []
        for e in tr:
            if e[0] in ('memset', 'memcpy'):
                b, off = e[1]
                sets.append((b, v.ev(off) & MASK[64], (v.ev(e[2]) & 0xff) if e[0] == 'memset' else None, v.ev(e[3]) & MASK[64]))
        if res == 0xffffffff:
            if v.ev(now['pages']) != prev: return 'the operation fails but the size changes'
            if moved: return 'the operation fails but the storage changes'
            if any(x[3] for x in sets): return 'the operation fails but the content changes'
            if ('MB', k) in gone: return 'the operation fails but the storage was released'
            if fits and not nomem: return 'the operation fails although the new size is allowed'
            return None
        if not fits: return 'the operation succeeds although the new size is not allowed'
        if res != prev: return 'the result is %d instead of the previous size' % res
        if v.ev(now['pages']) != new: return 'the new size is %d instead of %d pages' % (v.ev(now['pages']), new)
        if kind != 'grow':
            if moved: return 'the storage of a fixed memory is replaced'
            for b, off, val, n in sets:
                if n and (val != 0 or off < prev * PAGE or off + n > new * PAGE): return 'the content of a fixed memory changes'
            return None
        if not isinstance(now['bytes'], tuple): return 'the memory has no storage after growing' if d or moved else None
        nb = now['bytes'][1]
        if now['bytes'][2] != 0: return 'the storage does not start where the allocation starts'
        if moved:
            size = [e[2] for e in tr if e[0] == 'alloc' and e[1] == nb]
            if not size: return None
            z = v.ev(size[0]) & MASK[64]
            if z < new * PAGE: return 'the storage has %d bytes for %d pages' % (z, new)
            keep = any(e[0] == 'realloc' and e[1] == ('MB', k) and e[2] == nb for e in tr) or any(e[0] == 'memcpy' and e[1][0] == nb and e[2][0] == ('MB', k) and v.ev(e[1][1]) == 0 and v.ev(e[2][1]) == 0 and v.ev(e[3]) >= prev * PAGE for e in tr)
            if not keep and prev: return 'the content of the memory is lost'
            if ('MB', k) not in gone and prev: return 'the previous storage is not released'
        elif ('MB', k) in gone: return 'the storage was released'
        elif d: return 'no storage is obtained for the new pages'
        cover = sorted((off, n) for b, off, val, n in sets if b == nb and val == 0 and n)
        pos = prev * PAGE
        for off, n in cover:
            if off < prev * PAGE: return 'content below the previous size is cleared'
            if off + n > new * PAGE: return 'memory behind the new size is written'
            if off <= pos: pos = max(pos, off + n)
        if pos < new * PAGE and not (s.kind.get(nb) == 'zero' and moved): return 'new pages are not cleared'
        return None


class TV15(TV):
    def __init__(self, gen, maxvisit=2):
        super().__init__(gen, maxvisit)
        self.h = Helpers15(gen)
        self.h.tv = self
        self.L.helpers = self.h


def growing(tier):
    def e(mem, k=0, **kw):
        x = env(mem=mem, **kw)
        x.delta = None
        return x
    P0 = param(I32)
    d0 = ('s', 32, ('m', ('FP',), 0))
    mems = [('grow',), ('fixed',), ('raw',), ('grow', 'fixed'), ('fixed', 'grow'), ('grow', 'grow'), ('raw', 'grow'), ('grow',) * 3, ('fixed', 'fixed', 'grow', 'raw')]
    for mem in mems:
        for k in range(len(mem)):
            tag = '/%s memory %d' % ('+'.join(mem), k)
            for al in (0, 1):
                for np_ in ((0, 1, 2) if tier == 'quick' else range(6)):
                    x = e(mem, align=al); x.delta = d0
                    yield x, pressmix(np_) + get(P0) + [OP(0x40), IMM(k), OP(0x1a)] + drops(np_) + END, 'memory.grow param%s/p%d/align%d' % (tag, np_, al)
            for c in (0, 1, 2, 3, 65535, 65536, 0xffffffff, 0x80000000):
                x = e(mem); x.delta = c
                yield x, [OP(0x41), IMM(c - (1 << 32) if c >> 31 else c), OP(0x40), IMM(k), OP(0x1a)] + END, 'memory.grow %d%s' % (c, tag)
            x = e(mem); x.delta = d0
            yield x, get(P0) + lset(slocal(I32)) + get(slocal(I32)) + [OP(0x40), IMM(k), OP(0x1a)] + END, 'memory.grow register local%s' % tag
            x = e(mem); x.delta = d0
            yield x, get(P0) + lset(mlocal(I32)) + get(mlocal(I32)) + [OP(0x40), IMM(k), OP(0x1a)] + END, 'memory.grow local%s' % tag
