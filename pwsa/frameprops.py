"""P14: the embedder's side of the calling convention.  P18: the builtin functions as documented in pwart.h."""
import itertools, random
from .hostprops import *
from .absint import State, Broken, Fork
from .nsprops import NS, wasm, TWO

TN = {I32: 'i32', I64: 'i64', F32: 'f32', F64: 'f64', REF: 'ref'}
SZ = {I32: 4, I64: 8, F32: 4, F64: 8, REF: 8}
TY = [I32, I64, F32, F64, REF]


def layout(types, align, at=0):
    """offsets of the values of a frame, and its end"""
    out = []
    o = at
    for t in types:
        if align and o % SZ[t]: o += SZ[t] - o % SZ[t]
        out.append(o)
        o += SZ[t]
    return out, o


def one(R, C, st, name, args):
    o = [s for s in R.call(st, name, args) if C.ended(s)]
    if len(o) != 1: raise Broken('%s: %d results' % (name, len(o)))
    return o[0]


def frames_case(R, C, seq, align, at):
    st = R.start(stack_flags=align)
    sp = ('SPVAR',)
    st.obj(sp, 'undef')
    st.obj(('FP',), 'lazy')
    offs, end = layout(seq, align, at)
    st.put(sp, 0, 8, ('p', ('FP',), at))
    old = {o: ('s', 8, ('in', 'old%d' % o)) for o in range(0, end + 16)}
    for o, v in old.items(): st.put(('FP',), o, 1, v)
    vals = []
    for k, t in enumerate(seq):
        v = ('s', 8 * SZ[t], ('in', 'v%d' % k)) if t != REF else ('p', ('REFV', k), 0) if k % 2 else ('s', 64, ('in', 'v%d' % k))
        vals.append(v)
        st = one(R, C, st, 'pwart_rstack_put_' + TN[t], [('p', sp, 0), v])
        C.eq(st, 'stack pointer after put_%s' % TN[t], st.get(sp, 0, 8), ('p', ('FP',), offs[k] + SZ[t]), 64)
    seen = set()
    for k, t in enumerate(seq):
        C.eq(st, 'value put by put_%s' % TN[t], st.get(('FP',), offs[k], SZ[t]), vals[k], 8 * SZ[t])
        seen |= set(range(offs[k], offs[k] + SZ[t]))
    C.ob += 1
    for o in range(0, end + 16):
        if o not in seen and st.get(('FP',), o, 1) != old[o]: C.prob('frame', None, 'putting %s writes the byte at %s, outside the values' % (' '.join(TN[t] for t in seq), o))
    for o in st.mem[('FP',)]:
        if not isinstance(o, int) or not 0 <= o < end + 16: C.prob('frame', None, 'putting %s writes at %s, outside the values' % (' '.join(TN[t] for t in seq), o))
    st.put(sp, 0, 8, ('p', ('FP',), at))
    for k, t in enumerate(seq):
        st = one(R, C, st, 'pwart_rstack_get_' + TN[t], [('p', sp, 0)])
        C.eq(st, 'value got by get_%s' % TN[t], st.result, vals[k], 8 * SZ[t])
        C.eq(st, 'stack pointer after get_%s' % TN[t], st.get(sp, 0, 8), ('p', ('FP',), offs[k] + SZ[t]), 64)
    C.mem(st)


def st2get(R, o, n):
    s = R.start()
    s.obj(('FP',), 'lazy')
    return s.get(('FP',), o, n)


def stack_case(R, C, size, r):
    """pwart_allocate_stack, with an allocator whose blocks start at r modulo 16"""
    st = R.start()
    blk = []

    def malloc(I, st, fr, i, a):
        b = ('STK', 'blk%d' % st.fresh())
        st.obj(b, 'undef')
        n = st.res(a[0])
        if isinstance(n, int): st.size[b] = n + r
        blk.append((b, n))
        return ('p', b, r)
    freed = []
    R.I.ext['malloc'] = malloc
    R.I.ext['free'] = lambda I, st, fr, i, a: freed.append(st.res(a[0]))
    try:
        st = one(R, C, st, 'pwart_allocate_stack', [size])
        q = st.res(st.result)
        C.ob += 3
        if not isinstance(q, tuple) or q[0] != 'p' or not blk or q[1] != blk[-1][0]:
            C.prob('stack', None, 'pwart_allocate_stack gives %s' % sh(q)); return
        b, n = blk[-1]
        if not isinstance(q[2], int): C.und += 1; return
        if q[2] % 16: C.prob('stack', None, 'a stack is not aligned to 16 bytes (block at %d modulo 16, stack %d bytes into it)' % (r, q[2] - r))
        if isinstance(n, int) and (q[2] < r or q[2] + size > r + n): C.prob('stack', None, 'a stack of %d bytes starts %d bytes into a block of %d' % (size, q[2] - r, n))
        pre = dict(st.mem[b])
        # the user fills the whole stack
        for o in list(pre):
            if isinstance(o, int) and q[2] <= o < q[2] + size: st.put(b, o, pre[o][0], (1 << 8 * pre[o][0]) - 1)
        st.put(b, q[2], 1, 0xee) if size else None
        st = one(R, C, st, 'pwart_free_stack', [q])
        C.ob += 1
        if [x for x in freed if x != 0] != [('p', b, r)]: C.prob('stack', None, 'pwart_free_stack releases %s instead of the block at offset %d' % (sh(freed), r))
        for e in R.bad(st): C.prob(e[1], '%s:%s (%s)' % e[4:7], '%s at offset %s of a stack of %d bytes' % (e[1], sh(e[3]), size))
    finally:
        del R.I.ext['malloc'], R.I.ext['free']


def call_case(R, C):
    st = R.start()
    st.obj(('FP',), 'lazy')
    got = []
    R.host['fn'] = lambda s, a, i: got.append(tuple(a))
    for sp in (('p', ('FP',), 0), ('p', ('FP',), 32), 0, ('s', 64, ('in', 'anything'))):
        for wrap in (False, True):
            f = R.fn('fn')
            if wrap:
                st = one(R, C, st, 'pwart_wrap_host_function_c', [f])
                f = st.result
            del got[:]
            st = one(R, C, st, 'pwart_call_wasm_function', [f, sp])
            C.ob += 1
            if [x[:1] for x in got] != [(sp,)]: C.prob('call', None, 'pwart_call_wasm_function calls the function with %s instead of once with the stack pointer' % sh(got))
            if wrap: st = one(R, C, st, 'pwart_free_wrapped_function', [f])
    leak_check(R, C, st, 'the calls')


def config_case(R, C):
    p = R.p
    sf, mf = p.off('pwart_global_compile_config', 'stack_flags'), p.off('pwart_global_compile_config', 'misc_flags')
    st = State()
    R.I.init_globals(st)
    b, c = ('CFG', 1), ('CFG', 2)
    st.obj(b, 'undef')
    st = one(R, C, st, 'pwart_get_global_compile_config', [('p', b, 0)])
    d = [st.res(st.get(b, o, 1)) for o in (sf, mf)]
    C.ob += 2
    if not isinstance(d[0], int) or not d[0] & 1: C.prob('configuration', None, 'operands are not aligned by default (stack_flags %s)' % sh(d[0]))
    if not isinstance(d[1], int) or not d[1] & 2: C.prob('configuration', None, 'locals are not zero-initialised by default (misc_flags %s)' % sh(d[1]))
    for k, (x, y) in enumerate([(0, 0), (1, 0), (0, 1), (0, 2), (1, 3), (1, 2), (255, 127), (('s', 8, ('in', 'x')), ('s', 8, ('in', 'y')))]):
        st.obj(c, 'undef')
        st.put(c, sf, 1, x); st.put(c, mf, 1, y)
        st = one(R, C, st, 'pwart_set_global_compile_config', [('p', c, 0)])
        C.eq(st, 'result of setting the configuration', st.result, 0, 64)
        st.put(c, sf, 1, 0x55); st.put(c, mf, 1, 0x55)
        st.obj(b, 'undef')
        st = one(R, C, st, 'pwart_get_global_compile_config', [('p', b, 0)])
        C.eq(st, 'configured stack_flags', st.get(b, sf, 1), x, 8)
        C.eq(st, 'configured misc_flags', st.get(b, mf, 1), y, 8)
    st = one(R, C, st, 'pwart_get_version', [])
    C.eq(st, 'version', st.result, 1, 32)
    C.mem(st)


def user_case(R, C, mod, how):
    """user data and resolver of an instance"""
    for st, rc, err, h in load(R, mod):
        if rc is None: continue
        vals = [('s', 64, ('in', 'ud')), ('p', ('UD',), 4), 0, ('p', ('UD',), 0)]
        for v in vals:
            st = one(R, C, st, 'pwart_module_state_set_user_data', [rc, v])
            st = one(R, C, st, 'pwart_module_state_get_user_data', [rc])
            C.eq(st, 'user data', st.result, v, 64)
        for v in (('p', ('RES2',), 0), 0, ('p', ('RES3',), 0), ('p', ('RESOLVER',), 0)):
            st = one(R, C, st, 'pwart_set_state_symbol_resolver', [rc, v])
            ib = st.obj(('INS', 2), 'undef')
            st = one(R, C, st, 'pwart_inspect_module_state', [rc, ib])
            C.eq(st, 'symbol resolver of the instance', st.get(('INS', 2), R.p.o['pwart_inspect_result1', 'symbol_resolver'], 8), v, 64)
        C.mem(st)
        if how: instance(C, mod, st, rc, h)


def frames(tier):
    n = 3 if tier == 'quick' else 4
    rnd = random.Random(3)
    seqs = [()] + [x for k in range(1, n + 1) for x in itertools.product(TY, repeat=k)]
    seqs += [tuple(rnd.choice(TY) for _ in range(rnd.randint(5, 20))) for _ in range(60 if tier == 'quick' else 600)]
    for s in seqs:
        for al in (0, 1):
            for at in (0, 4, 8, 12):
                if at > 4 and len(s) > 2: continue
                yield 'put and get %s, align=%d, from %d' % (' '.join(TN[t] for t in s), al, at), lambda R, C, s=s, al=al, at=at: frames_case(R, C, s, al, at)
    for size in list(range(0, 40)) + [63, 64, 100, 4095, 4096, 65536, 1 << 20, 0x7ffffff0]:
        for r in range(16) if size in (0, 1, 16, 64, 65536) else (0, 8, 1, 15):
            yield 'stack of %d bytes, block at %d modulo 16' % (size, r), lambda R, C, size=size, r=r: stack_case(R, C, size, r)
    yield 'calls', call_case
    yield 'configuration', config_case
    for k, (n, m) in enumerate(shapes('quick')):
        if k % 7 == 0: yield 'user data, ' + n, lambda R, C, m=m: user_case(R, C, m, True)


# ---- P18: builtin functions ------------------------------------------------------
def builtins_of(R, st):
    st, bl = builtin_list(R, st)
    return st, {n: (k, v) for n, k, v in bl}, bl


class Bi:
    """calls builtin functions with a frame"""

    def __init__(self, R, C, align=1, at=0, st=None):
        self.R, self.C, self.align, self.at = R, C, align, at
        self.st = st or R.start(stack_flags=align)
        self.st, self.names, self.list = builtins_of(R, self.st)

    def call(self, name, args, results=(), forks=False):
        """args: [(type, value)]; results: [(type, expected or None)] -> states"""
        R, C = self.R, self.C
        if name not in self.names: C.prob('builtin', None, 'there is no builtin symbol "%s"' % name); raise Broken('stop')
        st = self.st
        st.mem.pop(('FP',), None)
        st.obj(('FP',), 'lazy')
        for (t, v), o in zip(args, layout([t for t, v in args], self.align, self.at)[0]): st.put(('FP',), o, SZ[t], v)
        out = []
        for s in R.call(st, 'pwart_call_wasm_function', [self.names[name][1], ('p', ('FP',), self.at)]):
            if not C.ended(s): continue
            offs, end = layout([t for t, v in results], self.align, self.at)
            s.user['res'] = [s.res(s.get(('FP',), o, SZ[t])) for (t, v), o in zip(results, offs)]
            for (t, v), got in zip(results, s.user['res']):
                if v is not None: C.eq(s, 'result of %s' % name, got, v, 8 * SZ[t])
            C.ob += 1
            for e in s.trace():
                if e[0] == 'store' and e[1] == ('FP',) and isinstance(e[2], int) and e[2] < self.at:
                    C.prob('frame', '%s:%s (%s)' % e[4:7], '%s writes below its frame' % name)
            out.append(s)
        if not forks:
            if len(out) != 1: raise Broken('%s: %d results' % (name, len(out)))
            self.st = out[0]
        return out


def with_ext(R, d, f):
    old = {k: R.I.ext.get(k) for k in d}
    R.I.ext.update(d)
    try: return f()
    finally:
        for k, v in old.items():
            if v is None: R.I.ext.pop(k, None)
            else: R.I.ext[k] = v


def simple_case(R, C, align, at):
    B = Bi(R, C, align, at)
    B.call('version', [], [(I32, 1)])
    B.call('native_index_size', [], [(I32, 8)])
    for v in (S('x'), 0, ('p', ('REFV', 1), 0), MASK[64], 1 << 31, 1 << 63):
        B.call('ref_from_i64', [(I64, v)], [(REF, v)])
        B.call('i64_from_ref', [(REF, v)], [(I64, v)])
    for t in ('', 'a', 'hello', 'x' * 300, 'y' * 70001):
        p = R.str(B.st, t)
        B.call('ref_string_length', [(REF, p)], [(I32, len(t))])
        p = ('p', p[1], len(t) // 2)
        B.call('ref_string_length', [(REF, p)], [(I32, len(t) - len(t) // 2)])
    C.mem(B.st)


def alloc_case(R, C, align, at):
    B = Bi(R, C, align, at)
    log = []
    blk = {}

    def malloc(I, st, fr, i, a):
        log.append(('malloc', st.res(a[0])))
        return blk['r']
    D = {'malloc': malloc, 'free': lambda I, st, fr, i, a: log.append(('free', st.res(a[0])))}

    def f():
        for size in (0, 1, 8, 65536, 0x7fffffff, 0x80000000, 0xffffffff, S('size', 32)):
            for r in (('p', ('BLK', 1), 0), 0, ('p', ('BLK', 2), 16)):
                blk['r'] = r
                del log[:]
                B.call('memory_alloc', [(I32, size)], [(I64, r)])
                C.ob += 1
                if len(log) != 1 or log[0][0] != 'malloc': C.prob('memory_alloc', None, 'memory_alloc does %s instead of one allocation' % sh(log)); continue
                C.eq(B.st, 'size allocated by memory_alloc', log[0][1], size if isinstance(size, int) else ('zext', 64, size), 64)
        for q in (('p', ('BLK', 1), 0), ('p', ('BLK', 2), 16), 0):
            del log[:]
            B.call('memory_free', [(I64, q)])
            C.ob += 1
            if [x for x in log if x != ('free', 0)] != ([('free', q)] if q else []): C.prob('memory_free', None, 'memory_free of %s does %s' % (sh(q), sh(log)))
    with_ext(R, D, f)
    C.mem(B.st)


def copy_case(R, C, align, at):
    B = Bi(R, C, align, at)
    for n in (0, 1, 2, 3, 7, 8, 9, 16, 33, 100):
        for d, s in ((0, 200), (200, 0), (0, 1), (1, 0), (0, 5), (5, 0), (0, 8), (8, 0), (3, 3)):
            st = B.st
            b = ('BUF',)
            st.mem.pop(b, None)
            st.obj(b, 'undef')
            init = {}
            for k in range(-8, 340):
                init[k] = ('s', 8, ('in', 'm%d' % k)); st.put(b, k, 1, init[k])
            want = dict(init)
            for k in range(n): want[d + k] = init[s + k]
            B.call('ref_copy_bytes', [(REF, ('p', b, d)), (REF, ('p', b, s)), (I32, n)])
            C.ob += 1
            bad = [k for k in init if differs(B.st.get(b, k, 1), want[k], 8)]
            if bad: C.prob('ref_copy_bytes', None, 'copying %d bytes from %d to %d leaves the wrong value in byte %d' % (n, s, d, bad[0]))
    # the count is unsigned
    for n in (0x80000000, 0xffffffff):
        s0 = B.st.copy()
        s0.obj(('BIG', 1), 'lazy'); s0.obj(('BIG', 2), 'lazy')
        T = B.st; B.st = s0
        for s in B.call('ref_copy_bytes', [(REF, ('p', ('BIG', 1), 0)), (REF, ('p', ('BIG', 2), 0)), (I32, n)], forks=True):
            for e in s.trace():
                if e[0] == 'store' and e[1] == ('BIG', 1) and len(s.trace()) < 5000: C.eq(s, 'count copied by ref_copy_bytes', e[3], n, 64)
        B.st = T
    C.mem(B.st)


def predefined():
    import subprocess
    try: t = subprocess.run(['clang', '-dM', '-E', '-x', 'c', '/dev/null'], capture_output=True, text=True).stdout
    except OSError: return {}
    return {l.split()[1]: ' '.join(l.split()[2:]) for l in t.splitlines()}


MACROS = predefined()


def hostdef_case(R, C, align, at):
    B = Bi(R, C, align, at)
    seen = []
    for k in range(200):
        B.call('host_definition', [(I32, k)], [(REF, None)])
        q = B.st.user['res'][0]
        if q == 0 and isinstance(q, int): break
        t = R.text(B.st, q) if isinstance(q, tuple) and q[0] == 'p' else None
        C.ob += 1
        if not t or not t.isprintable(): C.prob('host_definition', None, 'entry %d of the host definitions is not a string (%s)' % (k, sh(q))); return
        seen.append(t)
    else: C.prob('host_definition', None, 'the host definitions have no end'); return
    C.ob += 1
    for t in ('__linux__', '__x86_64__'):
        if t not in seen: C.prob('host_definition', None, 'the host definitions lack %s: %s' % (t, seen))
    for t in seen:
        n, _, v = t.partition('=')
        C.ob += 1
        if MACROS and (n not in MACROS or v and MACROS[n] != v): C.prob('host_definition', None, 'the host definition "%s" is none of this host' % t)
    C.mem(B.st)


def stdio_case(R, C, align, at):
    B = Bi(R, C, align, at)
    log = []
    ret = {}
    ERR = ('s', 32, ('in', 'errno'))

    def ext(name, n):
        def f(I, st, fr, i, a):
            log.append((name,) + tuple(st.res(x) for x in a[:n]))
            v = ret[name]
            st.put(('ERRNO',), 0, 4, ret.get('errno', ERR))
            return v
        return f
    D = {n: ext(n, k) for n, k in (('fopen', 2), ('fopen64', 2), ('fread', 4), ('fwrite', 4), ('fclose', 1))}
    D['__errno_location'] = lambda I, st, fr, i, a: ('p', ('ERRNO',), 0)
    P = lambda n: ('p', (n,), 0)

    def case(name, args, cargs, results, r, errno=ERR, stale=('s', 32, ('in', 'stale'))):
        del log[:]
        ret[name] = ret[name + '64'] = r
        ret['errno'] = errno
        B.st.obj(('ERRNO',), 'undef')
        B.st.put(('ERRNO',), 0, 4, stale)
        B.call(name, args, results)
        C.ob += 1
        if len(log) != 1 or log[0][0].replace('64', '') != name: C.prob(name, None, '%s does %s instead of one call of the C function' % (name, sh(log))); return
        for k, w in enumerate(cargs): C.eq(B.st, 'argument %d of the C function %s' % (k + 1, name), log[0][1 + k], w, 64)

    def f():
        for fp in (P('FILE1'), P('FILE2')):
            # errno is left alone by a call that succeeds
            case('fopen', [(REF, P('NAME')), (REF, P('MODE'))], [P('NAME'), P('MODE')], [(REF, fp), (I32, 0)], fp, errno=2, stale=2)
            case('fopen', [(REF, P('NAME')), (REF, P('MODE'))], [P('NAME'), P('MODE')], [(REF, fp), (I32, 0)], fp, errno=0, stale=0)
            case('fclose', [(REF, fp)], [fp], [(I32, 0)], 0, errno=2, stale=2)
            case('fclose', [(REF, fp)], [fp], [(I32, 0)], 0, errno=0, stale=0)
            case('fclose', [(REF, fp)], [fp], [(I32, 9)], MASK[32], errno=9, stale=0)
        for e in (2, 13, 24):
            case('fopen', [(REF, P('NAME')), (REF, P('MODE'))], [P('NAME'), P('MODE')], [(REF, 0), (I32, e)], 0, errno=e, stale=0)
        for name in ('fread', 'fwrite'):
            for size, n in ((S('sz', 32), S('n', 32)), (1, 0xffffffff), (0x80000000, 1), (1, 10), (4, 0)):
                for r in (0, 7, ('s', 64, ('in', 'r'))):
                    z = lambda v: v if isinstance(v, int) else ('zext', 64, v)
                    case(name, [(REF, P('BUF')), (I32, size), (I32, n), (REF, P('FILE1'))], [P('BUF'), z(size), z(n), P('FILE1')], [(I32, r if isinstance(r, int) else ('trunc', 32, r))], r)
        st = B.st
        w = []
        for n in ('stdin', 'stdout', 'stderr'):
            b = ('g', n)
            if b not in st.mem: st.obj(b, 'undef')
            st.put(b, 0, 8, P('F' + n)); w.append((REF, P('F' + n)))
        B.call('stdio', [], w)
    with_ext(R, D, f)
    C.mem(B.st)


NAMES = {n: 0 for n in 'version memory_alloc memory_free native_index_size load_module unload_module import get_self_runtime_context ref_from_index ref_copy_bytes ref_string_length ref_from_i64 i64_from_ref host_definition fopen fread fwrite fclose stdio'.split()}
NAMES['native_memory'] = 2


def names_case(R, C):
    B = Bi(R, C)
    for n, k in NAMES.items():
        C.ob += 1
        l = [x for x in B.list if x[0] == n]
        if [x[1] for x in l] != [k]: C.prob('builtin symbols', None, 'the builtin symbol %s of kind %d is there %d times with kinds %s' % (n, k, len(l), [x[1] for x in l]))
    st = B.st
    m = B.names.get('native_memory', (0, 0))[1]
    if isinstance(m, tuple): C.eq(st, 'bytes of native_memory', R.field(st, m, 'pwart_wasm_memory', 'bytes', 8) if ('pwart_wasm_memory', 'bytes') in R.p.o else R.field(st, m, 'Memory', 'bytes', 8), 0, 64)
    # asked again, the list is the same
    st2, d2, bl2 = builtins_of(R, st)
    C.ob += 1
    if bl2 != B.list: C.prob('builtin symbols', None, 'the second list of builtin symbols differs from the first')
    # functions that can only be called directly do not return silently
    C.mem(st2)


class NSB(NS):
    """a namespace whose modules are loaded, removed and resolved by builtin functions called from a module in it"""

    def begin(self, align, at):
        self.self_ = self.def_wasm('me', wasm(50))
        B = Bi.__new__(Bi)
        B.R, B.C, B.align, B.at, B.st = self.R, self.C, align, at, self.st
        B.st, B.names, B.list = builtins_of(self.R, self.st)
        self.st = B.st
        self.B = B

    def bi(self, name, args, results):
        self.B.st = self.st
        self.B.call(name, args, results)
        self.st = self.B.st
        return self.st.user['res']

    def b_load(self, name, mod):
        st = self.st
        want = self.leave(name)
        ok = mod.magic == 0x6d736100 and all(self.expect(m, f, k) is not None for m, f, k, d in mod.imports)
        exp = [self.expect(m, f, k) for m, f, k, d in mod.imports] if ok else None
        ptr, n = self.R.module(self.st, mod.slots())
        nm = self.name(name)
        t0 = len(self.st.trace())
        e, = self.bi('load_module', [(REF, self.self_), (REF, nm), (REF, ptr), (I32, n)], [(REF, 0 if ok else None)])
        C, R = self.C, self.R
        if not ok:
            t = R.text(self.st, e) if isinstance(e, tuple) and e[0] == 'p' else None
            C.ob += 1
            if not t or not t.isprintable(): C.prob('load_module', None, 'load_module gives no readable error text for a module that can not be loaded: %s' % sh(e))
            self.callbacks('failed load', [])
        self.forget(nm)
        ran = [x for x in self.st.trace()[t0:] if x[0] == 'enter-wasm' or x[0] == 'host' and x[1][0] == 'HIT']
        C.ob += 1
        if not ok:
            if ran: C.prob('load_module', None, 'load_module runs code of a module that can not be loaded')
            return
        self.callbacks('load_module', want)
        q = self.one('pwart_namespace_find_module', [self.ns, self.name(name)])
        if q == 0 or not isinstance(q, tuple): C.prob('load_module', None, 'module "%s" loaded by load_module is not found' % name); raise Broken('stop')
        b, o = aspair(q)
        s = self.st.res(self.st.get(b, o + R.p.o['pwart_named_module', 'val'], 8))
        self.mods[name] = ('wasm', s, mod)
        for j, (m, f, k, d) in enumerate(mod.imports): self.export(s, 'im%d' % j, k, exp[j], 'import %s.%s of kind %d of a module in the namespace' % (m, f, k))
        C.ob += 1
        if mod.start is None:
            if ran: C.prob('load_module', None, 'load_module calls a function of a module without start function')
        else:
            f = self.one('pwart_get_start_function', [s])
            if len(ran) != 1 or f != ('p', ran[0][1], 0): C.prob('load_module', None, 'load_module runs %s instead of the start function once' % (sh(ran)))
            elif self.st.res(ran[0][2][0]) in (0, None) or aspair(self.st.res(ran[0][2][0]))[0] != ('FP',): C.prob('load_module', None, 'the start function is called with stack pointer %s' % sh(ran[0][2][0]))
            elif isinstance(aspair(self.st.res(ran[0][2][0]))[1], int) and aspair(self.st.res(ran[0][2][0]))[1] < self.B.at: C.prob('load_module', None, 'the start function is called with a frame that starts %d bytes below the frame of load_module' % (self.B.at - aspair(self.st.res(ran[0][2][0]))[1]))

    def b_unload(self, name):
        want = self.leave(name)
        nm = self.name(name)
        self.bi('unload_module', [(REF, self.self_), (REF, nm)], [(REF, 0)])
        self.forget(nm)
        if name in self.mods: self.mods[name] = None
        self.callbacks('unload %s' % name, want)

    def b_import(self, m, f, k):
        want = self.expect(m, f, k)
        self.st.user['asked'] = ()
        self.bi('import', [(REF, self.self_), (REF, self.name(m)), (REF, self.name(f)), (I32, k)], [(REF, want or 0)])
        x = self.mods.get(m)
        wa = ((x[1], self.hosts[x[1]][0], m, f, k),) if x and x[0] == 'host' else ()
        self.C.ob += 1
        if self.st.user.get('asked', ()) != wa: self.C.prob('import', None, 'import of %s.%s asks the host modules %s instead of %s' % (m, f, sh(self.st.user.get('asked', ())), sh(wa)))


def nsb_case(R, C, ops, align, at):
    N = NSB(R, C, align)
    try:
        N.begin(align, at)
        for k, op in enumerate(ops):
            if op == 'load': N.b_load('ab'[k % 2], wasm(k))
            elif op == 'start':
                m = wasm(k); m.start = 0; N.b_load('ab'[k % 2], m)
            elif op == 'startimp':
                m = wasm(k, [('a', 'f', 0, 0)]); m.start = 1; N.b_load('b', m)
            elif op == 'bad': N.b_load('ab'[k % 2], wasm(k, bad=True))
            elif op == 'imp': N.b_load('c', wasm(k, [('a', 'f', 0, 0), ('b', 'm', 2, (1, None))]))
            elif op == 'host': N.def_host('ab'[k % 2])
            elif op == 'unload': N.b_unload('ab'[k % 2])
            elif op == 'unload0': N.b_unload('zz')
            for m in ('a', 'b', 'c', 'zz', 'me', 'pwart_namespace_meta'):
                for f, kk in (('f', 0), ('g', 3), ('m', 2), ('none', 0), ('this', 3)): N.b_import(m, f, kk)
            N.look()
        N.delete()
    finally: C.mem(N.st)


def builtins(tier):
    for al, at in ((1, 0), (1, 8), (0, 0), (0, 8), (0, 4), (0, 12)):
        for nm, f in (('simple', simple_case), ('allocation', alloc_case), ('copy', copy_case), ('host definitions', hostdef_case), ('stdio', stdio_case)):
            yield '%s functions, align=%d, frame at %d' % (nm, al, at), lambda R, C, f=f, al=al, at=at: f(R, C, al, at)
    yield 'names', names_case
    ops = ['load', 'start', 'startimp', 'bad', 'imp', 'host', 'unload', 'unload0']
    seqs = [[a] for a in ops] + [[a, b] for a in ops for b in ops]
    rnd = random.Random(11)
    seqs += [[rnd.choice(ops) for _ in range(rnd.randint(3, 6))] for _ in range(20 if tier == 'quick' else 500)]
    for k, s in enumerate(seqs):
        al, at = ((1, 0), (0, 4), (1, 16), (0, 0))[k % 4]
        yield 'namespace functions: %s, align=%d, frame at %d' % (' '.join(s), al, at), lambda R, C, s=s, al=al, at=at: nsb_case(R, C, s, al, at)
