"""P23: executable memory (histories of sljit_malloc_exec, sljit_free_exec, sljit_free_unused_memory_exec), P24: what the
entry points of sljit do when memory runs out"""
import time
from . import absint
from .absint import Broken, State
from .sjmach import SJ, Failed, FULL
from .ir import IRError
from .report import Report, AnalysisBroken
from .sjprops import TRUST

LO = 0x10000000


class Wrong(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


class Heap:
    """heap states of the allocator: st.user['chunks'] = ((number, address, size), ...) that are mapped, st.user['live'] = ((id, address, size), ...)"""

    def __init__(self, sj):
        self.sj = sj
        I = self.I = sj.I
        x = I.ext
        self.old = {n: x.get(n) for n in ('mmap', 'munmap', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'mprotect')}
        x['mmap'] = self.mmap
        x['munmap'] = self.munmap
        x['pthread_mutex_lock'] = self.lock
        x['pthread_mutex_unlock'] = self.unlock
        x['pthread_mutex_trylock'] = self.trylock
        I.access_hook = self.access
        self.fail = False
        self.nob = 0
        self.mut = None

    def close(self):
        for n, f in self.old.items():
            if f: self.I.ext[n] = f
        self.I.access_hook = None

    # ---- the system ----------------------------------------------------------------------------------------------
    def mmap(self, I, st, fr, i, a):
        n = st.res(a[1])
        if not isinstance(n, int): raise Broken("mmap of a size that is not known")
        st.user['maps'] = st.user.get('maps', 0) + 1
        if n == 0: raise Wrong('chunk', 'maps 0 bytes')
        if not isinstance(st.res(a[2]), int) or a[2] & 7 != 7: raise Wrong('chunk', 'maps memory with protection %s instead of read, write and execute' % (a[2],))
        if self.fail: return (1 << 64) - 1
        ch = st.user.get('chunks', ())
        n = (n + 4095) & ~4095
        at = LO
        for _, p, z in sorted(ch, key=lambda c: c[1]):
            if p - at >= n: break
            at = p + z
        k = st.user['nch'] = st.user.get('nch', 0) + 1
        b = ('CHUNK', k)
        st.obj(b, 'zero')
        st.size[b] = n
        st.user['chunks'] = ch + ((k, at, n),)
        absint.ABS.append((at, at + n, b))
        return at

    def munmap(self, I, st, fr, i, a):
        p, n = st.res(a[0]), st.res(a[1])
        if not isinstance(p, int) or not isinstance(n, int): raise Wrong('chunk', 'unmaps memory at an address read from a used block')
        n = (n + 4095) & ~4095
        ch = st.user.get('chunks', ())
        for c in ch:
            if c[1] == p and c[2] == n: break
        else: raise Wrong('chunk', 'unmaps %d bytes at %#x, which is no mapped chunk (%s)' % (n, p, ', '.join('%d bytes at %#x' % (z, q) for _, q, z in ch) or 'none is mapped'))
        for _, q, z in st.user.get('live', ()):
            if q < p + n and p < q + z: raise Wrong('chunk', 'unmaps a chunk with the used block of %d bytes at %#x' % (z, q))
        st.user['chunks'] = tuple(x for x in ch if x is not c)
        st.freed[('CHUNK', c[0])] = (i.file, i.line)
        absint.ABS[:] = [x for x in absint.ABS if x[2] != ('CHUNK', c[0])]
        return 0

    def lock(self, I, st, fr, i, a):
        if st.user.get('lock'): raise Wrong('lock', 'locks the allocator twice')
        st.user['lock'] = (st.res(a[0]),)
        return 0

    def trylock(self, I, st, fr, i, a):
        if st.user.get('lock'): return 16
        return self.lock(I, st, fr, i, a)

    def unlock(self, I, st, fr, i, a):
        l = st.user.get('lock')
        if not l: raise Wrong('lock', 'unlocks the allocator, which is not locked')
        if l != (st.res(a[0]),): raise Wrong('lock', 'unlocks another lock than the one it took')
        st.user['lock'] = None
        return 0

    def access(self, st, i, kind, base, off, n):
        """the heap is read and written with the lock held only"""
        if st.user.get('lock') or not isinstance(base, tuple): return
        if base[0] == 'CHUNK' and kind == 'store' or base[0] == 'g' and base[1] in self.mutable():
            raise Wrong('lock', '%s %s without the lock at %s:%s' % ('reads' if kind == 'load' else 'writes', base[1] if base[0] == 'g' else 'a block', i.file, i.line))

    def mutable(self):
        """globals the allocator changes"""
        if self.mut is None:
            self.mut = set()
            seen, work = set(), [n for n in ('sljit_malloc_exec', 'sljit_free_exec', 'sljit_free_unused_memory_exec') if n in self.sj.m.funcs]
            while work:
                n = work.pop()
                if n in seen: continue
                seen.add(n)
                for b in self.sj.m.funcs[n].blocks:
                    for i in b.insts:
                        if i.op == 'store' and i.ops[1][0] == 'g': self.mut.add(i.ops[1][1])
                        if i.op == 'call' and i.callee[0] == 'g' and i.callee[1] in self.sj.m.funcs: work.append(i.callee[1])
        return self.mut

    # ---- one operation --------------------------------------------------------------------------------------------
    def op(self, st, name, *args):
        absint.ABS[:] = self.sj.abs + [(p, p + n, ('CHUNK', k)) for k, p, n in st.user.get('chunks', ())]
        st = st.copy()
        st.user['maps'] = 0
        st.user['lock'] = None
        self.nob += 1
        I = self.I
        st.frames = []; st.status = None; st.steps = 0
        st.events = None
        I.call(st, name, list(args))
        n0 = I.truncated
        I.MAXSTEPS = 60000
        try: outs = I.run(st)
        finally: I.MAXSTEPS = 4000000
        for o in outs:
            for e in o.trace():
                if e[0] == 'bad': raise Wrong('memory', '%s: %s of %s at %s:%s' % (e[1], e[2], e[3], e[4], e[5]) if e[1] != 'use-after-free' else 'accesses memory of a chunk that is unmapped at %s:%s' % e[4:6])
                if e[0] == 'exit': raise Wrong('assertion', 'ends the process at %s:%s' % tuple(e[2:4]))
        if len(outs) != 1: raise Wrong('memory', 'depends on the contents of used blocks')
        o = outs[0]
        if o.status == 'truncated': raise Wrong('loop', 'does not end')
        if o.status != 'ret': raise Broken("%s: %s" % (name, o.status))
        if o.user.get('lock'): raise Wrong('lock', 'returns with the allocator locked')
        o.events = None
        for k, q, z in o.user.get('live', ()):
            b, f = self.at(o, q)
            if o.get(b, f, z) != ('s', 8 * z, ('data', k)): raise Wrong('contents', 'writes into the used block of %d bytes at %#x' % (z, q))
        return o, o.result

    def at(self, st, p):
        for k, q, n in st.user.get('chunks', ()):
            if q <= p < q + n: return ('CHUNK', k), p - q
        return None

    def malloc(self, st, size, fail=False):
        self.fail = fail
        try: o, p = self.op(st, 'sljit_malloc_exec', size)
        finally: self.fail = False
        if p == 0 and isinstance(p, int):
            if not (fail and o.user['maps']): raise Wrong('failure', 'fails although memory can be mapped')
            return o, None
        if fail and o.user['maps']: raise Wrong('failure', 'returns %r although no memory could be mapped' % (p,))
        if not isinstance(p, int): raise Wrong('memory', 'returns an address read from a used block')
        w = self.at(o, p)
        if w is None: raise Wrong('block', 'returns %#x, which is not in mapped memory' % p)
        z = dict((k, n) for k, q, n in o.user['chunks'])[w[0][1]]
        if w[1] + size > z: raise Wrong('block', 'returns a block that ends %d bytes behind the chunk' % (w[1] + size - z))
        if p & 7: raise Wrong('block', 'returns the unaligned address %#x' % p)
        for k, q, n in o.user.get('live', ()):
            if p < q + n and q < p + size: raise Wrong('block', 'returns %d bytes at %#x, which overlap the used block of %d bytes at %#x' % (size, p, n, q))
        ids = [k for k, q, n in o.user.get('live', ())]
        k = min(x for x in range(len(ids) + 1) if x not in ids)
        o.user['live'] = tuple(sorted(o.user.get('live', ()) + ((k, p, size),)))
        o.put(w[0], w[1], size, ('s', 8 * size, ('data', k)))
        return o, p

    def free(self, st, k):
        st = st.copy()
        l = st.user['live']
        p, n = [(q, n) for i, q, n in l if i == k][0]
        st.user['live'] = tuple(x for x in l if x[0] != k)
        b, f = self.at(st, p)
        if n: st.put(b, f, n, ('s', 8 * n, ('data', 'old')))
        o, _ = self.op(st, 'sljit_free_exec', p)
        return o, p, n

    def key(self, st):
        g = tuple(sorted((n, tuple(sorted((o, c[1]) for o, c in st.mem.get(('g', n), {}).items()))) for n in self.mutable()))
        m = tuple(sorted((p, n, frozenset((o, c) for o, c in st.mem.get(('CHUNK', k), {}).items() if not (isinstance(c[1], tuple) and c[1][0] in ('s', 'ext', 'cat')))) for k, p, n in st.user.get('chunks', ())))
        return g, m, st.user.get('live', ())


def edge(sj):
    """sizes around the limits of a chunk"""
    CH = 65536
    return CH, [1, 49, 200, 30000, CH - 200, CH - 32, CH + 8]


def run23(tier):
    r = Report('P23', tier, 'other', 'abstract interpretation')
    r.assume = TRUST
    try: sj = SJ()
    except IRError as e: raise AnalysisBroken("cannot load /repo/sljit: %s" % e)
    t0 = time.monotonic()
    lim = 200 if tier == 'quick' else 840
    maxlive, maxn = (4, 4500) if tier == 'quick' else (6, 60000)
    sj.use()
    H = Heap(sj)
    for n in ('sljit_malloc_exec', 'sljit_free_exec'):
        if n not in sj.m.funcs: raise AnalysisBroken("no function %s" % n)
    st0 = sj.start()
    CH, sizes = edge(sj)
    fine = [x for c in (64, CH - 32, CH - 96, 2 * CH - 32) for x in range(c - 24, c + 25, 8)] + [0, 7, 8, 9, 1 << 20]
    count = dict(states=0, malloc=0, free=0, unused=0, empty=0)
    bad = {}

    def prob(h, e, what):
        k = (what, e.key)
        m = '%s: %s' % (' '.join(h), e.msg)
        if k not in bad or len(bad[k]) > len(m): bad[k] = m

    seen = {}
    work = [(st0, (), 0)]
    brk = []
    while work:
        nxt = []
        for st, h, d in work:
            if time.monotonic() - t0 > lim or count['states'] >= maxn: break
            count['states'] += 1
            live = st.user.get('live', ())
            acts = []
            for z in (sizes + fine if d == 0 else sizes):
                acts.append(('m', z, False))
                if z in sizes[1::3] or d == 0: acts.append(('m', z, True))
            for x in live: acts.append(('f', x[0], False))
            acts.append(('u', 0, False))
            for a, z, fail in acts:
                try:
                    if a == 'm':
                        if len(live) >= maxlive: continue
                        count['malloc'] += 1
                        hh = h + ('malloc_exec(%d)%s' % (z, ' with no memory' if fail else ''),)
                        o, p = H.malloc(st, z, fail)
                        if p is not None: hh = h + ('malloc_exec(%d)=%#x' % (z, p),)
                        if z in fine and not fail and p is not None:
                            # the neighbour that follows must not overlap either, and both can be released
                            w, q = H.malloc(o, 200)
                            w, _, _ = H.free(w, 0); w, _, _ = H.free(w, 1)
                            continue
                    elif a == 'f':
                        count['free'] += 1
                        hh = h + ('free_exec(%#x)' % [x[1] for x in live if x[0] == z][0],)
                        n0 = len(st.user['chunks'])
                        o, p, n = H.free(st, z)
                        if len(o.user['chunks']) == n0:
                            # what was released can be used again
                            try: w, q = H.malloc(o, n)
                            except Wrong as e: raise Wrong(e.key, 'the next malloc_exec(%d) %s' % (n, e.msg))
                            if w.user['maps']: raise Wrong('leak', 'the released block of %d bytes is not used again by the next malloc_exec(%d)' % (n, n))
                    else:
                        count['unused'] += 1
                        hh = h + ('free_unused_memory_exec()',)
                        if 'sljit_free_unused_memory_exec' not in sj.m.funcs: continue
                        o, _ = H.op(st, 'sljit_free_unused_memory_exec')
                        used = [k for k, q, n in o.user.get('chunks', ()) if any(q <= p < q + n for _, p, _ in live)]
                        if len(used) != len(o.user.get('chunks', ())): raise Wrong('leak', 'a chunk without a used block stays mapped')
                    if not o.user.get('live') and a == 'f':
                        count['empty'] += 1
                        w = o
                        if 'sljit_free_unused_memory_exec' in sj.m.funcs: w, _ = H.op(o, 'sljit_free_unused_memory_exec')
                        if w.user.get('chunks'): raise Wrong('leak', 'with every block released, free_unused_memory_exec leaves %d chunks mapped' % len(w.user['chunks']))
                except Wrong as e:
                    prob(hh, e, {'m': 'sljit_malloc_exec', 'f': 'sljit_free_exec', 'u': 'sljit_free_unused_memory_exec'}[a])
                    continue
                except Broken as e:
                    brk.append('%s: %s' % (' '.join(h), e))
                    continue
                if z in fine and a == 'm': continue
                k = H.key(o)
                if k in seen: continue
                seen[k] = 1
                nxt.append((o, hh, d + 1))
        work = nxt
    H.close()
    for (f, k), m in sorted(bad.items()): r.add('%s %s' % (f, k), 'sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c (%s)' % f, m)
    r.cov.update(states=count['states'], transitions=H.nob, cases=count['malloc'] + count['free'] + count['unused'], obligations=H.nob, functions=len(H.I.funcs_seen), not_analysed=len(brk), not_analysed_samples=brk[:5],
                 details=count, sizes=sizes + fine,
                 samples=['malloc_exec(1) malloc_exec(30000) free_exec(first) free_exec(second)', 'malloc_exec(65504) free_exec', 'malloc_exec(30000) with no memory'],
                 rule='blocks of executable memory lie in mapped chunks, are as large as asked for, aligned and disjoint; nothing writes into a used block; chunks are unmapped whole, and only without used blocks; released memory is used again and '
                      'returned; a failed mapping gives NULL; the heap is only changed with the lock held, and every return releases it',
                 explanation='The heap states the allocator can reach are enumerated by interpreting its IR: every operation from every state, with the contents of used blocks as symbols, so that a result that depends on them is a difference. '
                             'States are equal when the allocator data, the headers and the used blocks are.')
    if (count['states'] < 500 or len(brk) > count['states'] // 10) and not r.items:
        r.finish()
        raise AnalysisBroken("only %d heap states could be analysed: %s" % (count['states'], brk[:3]))
    return r.finish()


# ---- P24 ----------------------------------------------------------------------------------------------------------
POINTER = ('sljit_emit_jump', 'sljit_emit_call', 'sljit_emit_cmp', 'sljit_emit_fcmp', 'sljit_emit_label', 'sljit_emit_aligned_label', 'sljit_emit_const', 'sljit_emit_op_addr', 'sljit_emit_op2cmpz')


class Hit(Exception):
    def __init__(self, name, st, res):
        self.name, self.st, self.res = name, st, res


class Proxy:
    """an SJ whose calls stop the sequence when an allocation has failed"""

    def __init__(self, sj):
        self.sj = sj
        self.k = sj.k
        self.n = 0

    def call(self, st, name, *args):
        self.n += 1
        st, r = self.sj.call(st, name, *args)
        if st.user.get('hit'): raise Hit(name, st, r)
        return st, r


class Oom:
    def __init__(self, sj, cpu):
        self.sj, self.cpu = sj, cpu
        self.k = sj.k
        x = sj.I.ext
        x['malloc'] = self.malloc
        x['calloc'] = self.malloc
        x['free'] = self.free
        self.mmap0 = sj.mmap
        x['mmap'] = self.mmap
        self.bad = {}
        self.stats = dict(obligations=0, hits=0, cases=0)
        self.broken = []
        self.deep = {}

    def malloc(self, I, st, fr, i, a):
        m = st.user.get('oom')
        if m is not None:
            if m <= 0:
                st.user['hit'] = 1
                return 0
            st.user['oom'] = m - 1
        p = I.x_malloc(st, i, a)
        st.user['al'] = st.user.get('al', ()) + (p[1],)
        return p

    def free(self, I, st, fr, i, a):
        I.x_free(st, i, a)
        v = st.res(a[0])
        if isinstance(v, tuple) and v[0] == 'p': st.user['al'] = tuple(b for b in st.user.get('al', ()) if b != v[1])

    def mmap(self, I, st, fr, i, a):
        if st.user.get('nomap'): return (1 << 64) - 1
        return self.mmap0(I, st, fr, i, a)

    def prob(self, name, what, ctx):
        k = (name, what.split(' (')[0])
        m = '%s: %s' % (ctx, what)
        if k not in self.bad or len(self.bad[k]) > len(m): self.bad[k] = m

    # ---- states with little room left ------------------------------------------------------------------------------
    def create(self):
        st = self.sj.start(self.cpu)
        st, c = self.sj.call(st, 'sljit_create_compiler', 0)
        k = self.k
        nr, ns = k['NUMBER_OF_REGISTERS'], k['NUMBER_OF_SAVED_REGISTERS']
        nf, nfs = k['NUMBER_OF_FLOAT_REGISTERS'], k['NUMBER_OF_SAVED_FLOAT_REGISTERS']
        st, e = self.sj.call(st, 'sljit_emit_enter', c, 0, 0, nr - ns | nf - nfs << 8, ns | nfs << 8, 256)
        return st, c

    def fills(self, want, filler, many):
        """states just before one more filler needs an allocation, nearest first"""
        st, c = self.create()
        st.user['oom'] = 0
        hist = []
        for _ in range(many):
            prev = st.copy()
            try: st = filler(st, c)
            except Failed: raise
            if st.user.get('hit'):
                hist.append(prev)
                return c, hist[::-1][:want]
            hist.append(prev)
            if len(hist) > want + 2: hist.pop(0)
        raise Broken("no allocation after %d operations" % many)

    def prepare(self):
        k, call = self.k, self.sj.call

        def nop(st, c):
            st, _ = call(st, 'sljit_emit_op0', c, k['NOP'])
            return st

        def mov(st, c):
            st, _ = call(st, 'sljit_emit_op1', c, k['MOV'], 1, 0, 2, 0)
            return st

        def const(st, c):
            st, _ = call(st, 'sljit_emit_const', c, k['MOV'], 1, 0, 5)
            return st
        self.c, self.states = None, []
        c, a = self.fills(40, nop, 6000)
        self.c = c
        self.states += [('%d fillers before the code buffer is full' % n, s) for n, s in enumerate(a)]
        c2, b = self.fills(1, const, 3000)
        self.two = [(c2, 'the buffer of labels, jumps and constants is full', s) for s in b]

    # ---- one sequence ----------------------------------------------------------------------------------------------
    def run(self, name, emit, every=1):
        self.stats['cases'] += 1
        px = Proxy(self.sj)
        l = [(self.c, t, s) for t, s in self.states[::every]] + self.two
        dry = False
        for n, (c, t, s) in enumerate(l):
            if dry and s is not self.two[0][2]: continue
            st = s.copy()
            st.user['oom'] = 0
            try:
                emit(px, st, c)
                if n and s is not self.two[0][2]: dry = True        # fits here, so it fits where there is more room
            except Hit as h: self.failed(name, t, h, c)
            except Failed as e:
                self.prob(name.split(':')[0], str(e), '%s, %s' % (name, t))
                return
            except Broken as e:
                self.broken.append('%s: %s' % (name, e))
                return

    def failed(self, name, t, h, c):
        st, r = h.st, h.res
        self.stats['hits'] += 1
        k = self.k
        ctx = '%s, %s' % (name, t)
        st.user['hit'] = 0

        def need(cond, fn, what):
            self.stats['obligations'] += 1
            if not cond: self.prob(fn, what, ctx)
        if h.name in POINTER: need(r == 0 and isinstance(r, int), h.name, 'returns %s after an allocation failed (instead of NULL)' % ('an object' if not isinstance(r, int) else hex(r)))
        elif h.name.startswith('sljit_emit') or h.name.startswith('sljit_get_local') or h.name.startswith('sljit_set_context'):
            need(r == k['ERR_ALLOC_FAILED'] & 0xffffffff, h.name, 'returns %r after an allocation failed (instead of SLJIT_ERR_ALLOC_FAILED)' % (r,))
        try:
            st, e = self.sj.call(st, 'w_error', c)
            need(e == k['ERR_ALLOC_FAILED'] & 0xffffffff, h.name, 'leaves the error of the compiler at %r after an allocation failed' % (e,))
            n = self.deep[h.name] = self.deep.get(h.name, 0) + 1
            if n > 3: return
            self.after(st, c, k['ERR_ALLOC_FAILED'] & 0xffffffff, need)
        except Failed as e: self.prob(h.name, 'after an allocation failed, %s' % e, ctx)
        except Broken as e: self.broken.append('%s: %s' % (ctx, e))

    def after(self, st, c, err, need):
        """a compiler with an error: everything else fails too, and it can be released"""
        call, k = self.sj.call, self.k
        st.user['oom'] = None           # memory is there again
        FN = [('sljit_emit_op1', (c, k['MOV'], 1, 0, 2, 0), err), ('sljit_emit_op2', (c, k['ADD'], 1, 0, 2, 0, 3, 0), err), ('sljit_emit_label', (c,), 0), ('sljit_emit_jump', (c, k['JUMP']), 0), ('sljit_emit_const', (c, k['MOV'], 1, 0, 7), 0),
              ('sljit_emit_enter', (c, 0, 0, 1, 1, 0), err), ('sljit_emit_fop1', (c, k['NEG_F64'], 1, 0, 2, 0), err), ('sljit_emit_return_void', (c,), err), ('sljit_emit_return', (c, k['MOV'], 1, 0), err),
              ('sljit_emit_icall', (c, k['CALL'], 0, 1, 0), err), ('sljit_set_label', (0, 0), None), ('sljit_set_target', (0, 5), None), ('sljit_generate_code', (c, 0, 0), 0)]
        for n, a, want in FN:
            if n not in self.sj.m.funcs: continue
            st, r = call(st, n, *a)
            if want is not None: need(r == want and isinstance(r, int), n, 'returns %s for a compiler with an error (instead of %d)' % ('an object' if not isinstance(r, int) else r, want))
        st, e = call(st, 'w_error', c)
        need(e == err, 'sljit_generate_code', 'changes the error of the compiler to %r' % (e,))
        self.release(st, c, need)

    def release(self, st, c, need, fn='sljit_free_compiler'):
        st, _ = self.sj.call(st, 'sljit_free_compiler', c)
        need(not st.user.get('al'), fn, 'leaves %d of its allocations (those of %s)' % (len(st.user.get('al', ())), ', '.join(sorted({str(b[2]) for b in st.user.get('al', ())}))))
        return st

    # ---- creation, code generation, release -----------------------------------------------------------------------
    def whole(self):
        sj, k = self.sj, self.k

        def need(cond, fn, what):
            self.stats['obligations'] += 1
            if not cond: self.prob(fn, what, ctx)
        for n in range(6):
            ctx = 'allocation %d fails' % (n + 1)
            st = sj.start(self.cpu)
            st.user['oom'] = n
            try:
                st, c = sj.call(st, 'sljit_create_compiler', 0)
                if st.user.get('hit'):
                    self.stats['hits'] += 1
                    need(c == 0 and isinstance(c, int), 'sljit_create_compiler', 'returns a compiler although an allocation failed')
                    need(not st.user.get('al'), 'sljit_create_compiler', 'leaves %d of its allocations when another one fails' % len(st.user.get('al', ())))
                else:
                    need(not isinstance(c, int), 'sljit_create_compiler', 'fails although no allocation does')
                    st.user['oom'] = None
                    self.release(st, c, need)
            except Failed as e: self.prob('sljit_create_compiler', str(e), ctx)
        # many fragments, executable memory that cannot be had, a second attempt
        for frags in (0, 1, 3):
            for fail in (False, True):
                ctx = '%d more buffers, %s' % (frags, 'no executable memory' if fail else 'enough memory')
                try:
                    st, c = self.create()
                    l = None
                    for n in range(frags * 180):
                        st, _ = sj.call(st, 'sljit_emit_const', c, k['MOV'], 1, 0, 0x123456789abc + n)
                        st, l = sj.call(st, 'sljit_emit_label', c)
                        st, j = sj.call(st, 'sljit_emit_jump', c, k['JUMP'])
                        st, _ = sj.call(st, 'sljit_set_label', j, l)
                    st, _ = sj.call(st, 'sljit_emit_return_void', c)
                    st.user['nomap'] = fail
                    st, code = sj.call(st, 'sljit_generate_code', c, 0, 0)
                    st, e = sj.call(st, 'w_error', c)
                    if fail:
                        self.stats['hits'] += 1
                        want = k['ERR_EX_ALLOC_FAILED'] & 0xffffffff
                        need(code == 0 and isinstance(code, int), 'sljit_generate_code', 'returns %r although there is no executable memory' % (code,))
                        need(e == want, 'sljit_generate_code', 'leaves the error %r when there is no executable memory' % (e,))
                        st.user['nomap'] = False
                        st, code = sj.call(st, 'sljit_generate_code', c, 0, 0)
                        need(code == 0 and isinstance(code, int), 'sljit_generate_code', 'returns code for a compiler with an error')
                        self.release(st, c, need)
                    else:
                        need(code != 0, 'sljit_generate_code', 'fails although there is memory')
                        need(e == k['ERR_COMPILED'] & 0xffffffff, 'sljit_generate_code', 'leaves the error %r instead of SLJIT_ERR_COMPILED' % (e,))
                        st, n = sj.call(st, 'w_code_size', c)
                        need(isinstance(n, int) and n > 0, 'sljit_generate_code', 'gives the code size %r' % (n,))
                        st, again = sj.call(st, 'sljit_generate_code', c, 0, 0)
                        need(again == 0 and isinstance(again, int), 'sljit_generate_code', 'generates code twice')
                        st = self.release(st, c, need)
                        if 'sljit_free_code' in sj.m.funcs: sj.call(st, 'sljit_free_code', code, 0)
                except Failed as e: self.prob('sljit_generate_code', str(e), ctx)
                except Broken as e: self.broken.append('%s: %s' % (ctx, e))


def sequences(tier):
    from . import sjfam, sjfnfam
    from .sjprops import mainop
    seen = {}
    lim = 1 if tier == 'quick' else 8

    def shape(o): return tuple(x[0] if isinstance(x, tuple) and x else x if isinstance(x, str) else type(x).__name__ for x in o)
    for c in sjfam.cases(tier):
        key = (tuple(shape(o) for o in c.ops), c.cpu)
        n = seen[key] = seen.get(key, 0) + 1
        if n <= lim: yield c.name, c.cpu, (lambda px, st, cc, ops=c.ops: emitall(px, st, cc, ops)), 2
    seen = {}
    for f in sjfnfam.cases(tier):
        key = (tuple((o[0],) if o[0] in ('pad', 'enter') else shape(o) for o in f.ops), f.cpu)
        n = seen[key] = seen.get(key, 0) + 1
        if n <= lim: yield f.name, f.cpu, (lambda px, st, cc, ops=f.ops: buildall(px, st, cc, ops)), 3


def emitall(px, st, c, ops):
    from .sjprops import Gen
    g = Gen(px)
    for o in ops: st = g.emit(st, c, o)
    return st


def buildall(px, st, c, ops):
    from .sjfunc import FGen
    st, labels, named = FGen(px).build(st, c, [o for o in ops if o[0] != 'pad'])
    return st


_w = {}


def _go24(part):
    sj, end, seqs = _w['sj'], _w['end'], _w['seqs']
    from .absint import Interp
    out = []
    os = {}
    skipped = 0
    sj.use()
    for n in part:
        name, cpu, emit, every = seqs[n]
        if time.monotonic() > end:
            skipped += 1
            continue
        Interp.deadline = time.monotonic() + 200
        o = os.get(cpu)
        if o is None:
            o = os[cpu] = Oom(sj, cpu)
            o.prepare()
        sj.I.ext['malloc'] = sj.I.ext['calloc'] = o.malloc
        sj.I.ext['free'] = o.free
        sj.I.ext['mmap'] = o.mmap
        o.run(name, emit, every)
    st = {}
    for o in os.values():
        for k, v in o.stats.items(): st[k] = st.get(k, 0) + v
    return [(k, m) for o in os.values() for k, m in o.bad.items()], [b for o in os.values() for b in o.broken], st, skipped


def run24(tier):
    import multiprocessing, os
    r = Report('P24', tier, 'fault_enumeration', 'abstract interpretation')
    r.assume = TRUST
    try: sj = SJ()
    except IRError as e: raise AnalysisBroken("cannot load /repo/sljit: %s" % e)
    sj.use()
    w = Oom(sj, FULL)
    w.whole()
    seqs = list(sequences(tier))
    _w['sj'], _w['seqs'], _w['end'] = sj, seqs, time.monotonic() + (500 if tier == 'quick' else 2400)
    n = min(8, os.cpu_count() or 1)
    parts = [range(len(seqs))[k::n] for k in range(n)]
    with multiprocessing.get_context('fork').Pool(n) as pool: res = pool.map(_go24, parts, chunksize=1)
    bad, brk, tot, skipped = dict(w.bad), list(w.broken), dict(w.stats), 0
    for b, k, s, sk in res:
        for key, m in b:
            if key not in bad or len(bad[key]) > len(m): bad[key] = m
        brk += k; skipped += sk
        for a, v in s.items(): tot[a] = tot.get(a, 0) + v
    for (f, k), m in sorted(bad.items()): r.add('%s %s' % (f, k), 'sljit/sljit_src (%s)' % f, m[:600])
    r.cov.update(cases=tot['cases'], faults=tot['hits'], obligations=tot['obligations'], not_analysed=len(brk) + skipped, not_analysed_samples=brk[:5], functions=len(sj.m.funcs),
                 samples=[seqs[k][0] for k in sorted({0, len(seqs) // 3, len(seqs) // 2, len(seqs) - 1})],
                 rule='an entry point of sljit during which an allocation fails returns NULL or SLJIT_ERR_ALLOC_FAILED, keeps that error in the compiler and touches no memory it does not own; every later entry point returns the error, no code is '
                      'generated, and releasing the compiler frees each of its allocations once',
                 explanation='Every operation is interpreted from compiler states in which the code buffer or the buffer of labels, jumps and constants has room for less and less, with an allocator that fails.')
    if tot['hits'] < 5000 and not r.items:
        r.finish()
        raise AnalysisBroken("only %d failing allocations could be analysed: %s" % (tot['hits'], brk[:3]))
    return r.finish()
