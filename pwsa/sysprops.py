"""P19, P20: the host modules of pwart_syslib (wasi_snapshot_preview1, libuv, libffi), called like a
WebAssembly function calls them, against the declared interface of the library each of them binds."""
import os, random, functools
from .hostprops import *
from .frameprops import layout, one, SZ, TN, with_ext
from .gen import Prog
from .modrun import ModRun
from .nsprops import NS, wasm

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
SYSC = {'FFI_ABI': 'FFI_DEFAULT_ABI', 'CLOSURE': 'sizeof(ffi_closure)', 'CL_CIF': 'offsetof(ffi_closure,cif)', 'CL_FUN': 'offsetof(ffi_closure,fun)', 'CL_UD': 'offsetof(ffi_closure,user_data)',
        'CIF': 'sizeof(ffi_cif)', 'CIF_NARGS': 'offsetof(ffi_cif,nargs)', 'CIF_ARGS': 'offsetof(ffi_cif,arg_types)', 'TY_SIZE': 'offsetof(ffi_type,size)', 'TY_TYPE': 'offsetof(ffi_type,type)', 'TY_ALIGN': 'offsetof(ffi_type,alignment)', 'T_v': 'FFI_TYPE_VOID', 'T_i': 'FFI_TYPE_SINT32', 'T_l': 'FFI_TYPE_SINT64', 'T_f': 'FFI_TYPE_FLOAT', 'T_d': 'FFI_TYPE_DOUBLE', 'T_p': 'FFI_TYPE_POINTER',
        'LIB': 'sizeof(uv_lib_t)', 'MUTEX': 'sizeof(uv_mutex_t)', 'COND': 'sizeof(uv_cond_t)', 'THREAD': 'sizeof(uv_thread_t)',
        'IOV': 'sizeof(uvwasi_iovec_t)', 'IOV_LEN': 'offsetof(uvwasi_iovec_t,buf_len)',
        'W_ARGC': 'offsetof(uvwasi_t,argc)', 'W_ARGV': 'offsetof(uvwasi_t,argv)', 'W_BUF': 'offsetof(uvwasi_t,argv_buf)', 'W_BUFN': 'offsetof(uvwasi_t,argv_buf_size)',
        **{'O_' + f: 'offsetof(uvwasi_options_t,%s)' % f for f in 'fd_table_size preopenc preopens argc argv envp in out err allocator'.split()}, 'OPT': 'sizeof(uvwasi_options_t)', 'UVWC': 'sizeof(uvwasi_t)',
        'ENVI': 'sizeof(uv_env_item_t)', 'ENVI_NAME': 'offsetof(uv_env_item_t,name)', 'ENVI_VALUE': 'offsetof(uv_env_item_t,value)'}


def syslib_part(ffi):
    def f(repo, d):
        s = '#include "%s/pwart_syslib/pwart_syslib.c"\n' % repo
        for k, e in SYSC.items(): s += 'const long __pw_c_%s __attribute__((used))= (long)(%s);\n' % (k, e)
        n = os.path.join(d, 'syslib%d.c' % ffi)
        open(n, 'w').write(s)
        return [(n, ['-I' + STUBS] + (['-DPWART_SYSLIB_LIBFFI_ENABLED'] if ffi else []))]
    return f


@functools.lru_cache(None)
def sysprog(ffi): return Prog(link=(syslib_part(ffi),))


def makeboth():
    sysprog(0)
    return sysrun(1)


def sysrun(ffi=1):
    R = ModRun(sysprog(ffi))
    I = R.I
    def cstrcpy(I, st, fr, i, a, cat=False, end=False):
        s, t = I.bytes_at(st, a[1], i=i)
        if not isinstance(t, int): raise Broken('copied string is not known')
        b, o = aspair(st.res(a[0]))
        if cat:
            d, t2 = I.bytes_at(st, a[0], i=i)
            if not isinstance(t2, int): raise Broken('string is not known')
            o += len(d)
        if not isinstance(o, int): raise Broken('string position')
        n = len(s) + 1
        if b in st.freed or b == ('abs',) or (b in st.size and not 0 <= o <= st.size[b] - n): I.bad(st, i, 'use-after-free' if b in st.freed else 'out of bounds', b, o)
        for k, c in enumerate(s + [0]): st.put(b, o + k, 1, c)
        return padd(a[0], len(s)) if end else a[0]
    I.ext['strcpy'] = cstrcpy
    I.ext['stpcpy'] = lambda I, st, fr, i, a: cstrcpy(I, st, fr, i, a, end=True)
    I.ext['strcat'] = lambda I, st, fr, i, a: cstrcpy(I, st, fr, i, a, cat=True)
    old = I.builtin

    def builtin(name):
        f = old(name)
        if f.__name__ != 'unk': return f
        def un(I, st, fr, i, a): raise Broken('call of %s, which is not modelled, at %s:%s' % (name, i.file, i.line))
        return un
    I.builtin = builtin
    return R


NAMES = """args_get args_sizes_get clock_res_get clock_time_get environ_get environ_sizes_get fd_advise fd_allocate fd_close fd_datasync fd_fdstat_get
fd_fdstat_set_flags fd_fdstat_set_rights fd_filestat_get fd_filestat_set_size fd_filestat_set_times fd_pread fd_prestat_get fd_prestat_dir_name fd_pwrite fd_read fd_readdir
fd_renumber fd_seek fd_sync fd_tell fd_write path_create_directory path_filestat_get path_filestat_set_times path_link path_open path_readlink path_remove_directory path_rename
path_symlink path_unlink_file poll_oneoff proc_exit proc_raise random_get sched_yield sock_accept sock_recv sock_send sock_shutdown""".split()
# wasi_snapshot_preview1: 1 2 4 8 = scalar of that many bytes, P = address in the memory, V = address and number of {address, length} pairs
SIG = dict(x.split(':') for x in """args_sizes_get:PP clock_res_get:4P clock_time_get:48P fd_advise:4881 fd_allocate:488 fd_close:4 fd_datasync:4 fd_fdstat_get:4P fd_fdstat_set_flags:42
fd_fdstat_set_rights:488 fd_filestat_get:4P fd_filestat_set_size:48 fd_filestat_set_times:4882 fd_pread:4V8P fd_prestat_get:4P fd_prestat_dir_name:4P4 fd_pwrite:4V8P fd_read:4VP
fd_readdir:4P48P fd_renumber:44 fd_seek:481P fd_sync:4 fd_tell:4P fd_write:4VP path_create_directory:4P4 path_filestat_get:44P4P path_filestat_set_times:44P4882 path_link:44P44P4
path_open:44P42882P path_readlink:4P4P4P path_remove_directory:4P4 path_rename:4P44P4 path_symlink:P44P4 path_unlink_file:4P4 poll_oneoff:PP4P proc_exit:4 proc_raise:1
random_get:P4 sched_yield: sock_accept:42P sock_recv:4V2PP sock_send:4V2P sock_shutdown:41""".split())


class Sys:
    """calls the functions of one host module with a frame"""

    def __init__(self, R, C, new, align=1, at=0, st=None):
        self.R, self.C, self.align, self.at = R, C, align, at
        self.st = st or R.start(stack_flags=align)
        if new: self.mod = self.api(new, [])

    def api(self, name, args):
        o = [s for s in self.R.call(self.st, name, args) if self.C.ended(s)]
        if len(o) != 1: raise Broken('%s: %d results' % (name, len(o)))
        self.st = o[0]
        return self.st.result

    def resolve(self, name, kind=0, modname='m'):
        R, p = self.R, self.R.p
        st = self.st
        b = ('REQ', st.fresh())
        st.obj(b, 'undef')
        for f, s, v in (('import_module', 8, R.str(st, modname)), ('import_field', 8, R.str(st, name)), ('kind', 4, kind), ('result', 8, 0)): st.put(b, p.o['pwart_symbol_resolve_request', f], s, v)
        mb, mo = aspair(st.res(self.mod))
        f = st.res(st.get(mb, mo + p.o['pwart_host_module', 'resolve'], 8))
        if not (isinstance(f, tuple) and f[0] == 'p' and isinstance(f[1], tuple) and f[1][0] == 'g' and f[1][1] in p.m.funcs): raise Broken('resolver of the host module: %r' % (f,))
        self.api(f[1][1], [self.mod, ('p', b, 0)])
        return self.st.res(self.st.get(b, p.o['pwart_symbol_resolve_request', 'result'], 8))

    def call(self, name, args, results=()):
        """args: [(type, value)]; results: [(type, expected or None)]"""
        R, C = self.R, self.C
        f = self.resolve(name)
        C.ob += 1
        if f == 0: C.prob('missing function', None, 'the module has no function "%s"' % name); raise Broken('stop')
        st = self.st
        st.mem.pop(('FP',), None)
        st.obj(('FP',), 'lazy')
        end = layout([t for t, v in results], self.align, self.at)[1]
        for o in range(end + 8): st.put(('FP',), o, 1, ('s', 8, ('in', 'old%d' % o)))
        for (t, v), o in zip(args, layout([t for t, v in args], self.align, self.at)[0]): st.put(('FP',), o, SZ[t], v)
        n0 = len(st.trace())
        self.api('pwart_call_wasm_function', [f, ('p', ('FP',), self.at)])
        st = self.st
        offs, end = layout([t for t, v in results], self.align, self.at)
        got = [st.res(st.get(('FP',), o, SZ[t])) for (t, v), o in zip(results, offs)]
        for (t, v), g in zip(results, got):
            if v is not None: C.eq(st, 'result of %s' % name, g, v, 8 * SZ[t], where=self.where(name))
        C.ob += 1
        for e in st.trace()[n0:]:
            if e[0] == 'store' and e[1] == ('FP',) and isinstance(e[2], int) and e[2] < self.at: C.prob('frame', '%s:%s (%s)' % e[4:7], '%s writes below its frame' % name)
        return got

    def where(self, name):
        f = self.R.p.m.funcs.get('wasm__' + name) if not name.startswith('wasm__') else None
        return None

    def names(self, want, other):
        R, C = self.R, self.C
        got = {}
        for n in want:
            f = got[n] = self.resolve(n)
            C.ob += 1
            if f == 0: C.prob('missing function', None, 'the module has no function "%s"' % n)
        for n in other:
            C.ob += 1
            if self.resolve(n) != 0: C.prob('extra function', None, 'the module offers "%s", which is no function of it' % n)
        return got


# ---- P19: WASI ----------------------------------------------------------------------
def memory(S, k=0):
    """the memory of the WASI module; -> base of its bytes"""
    R, st = S.R, S.st
    b = ('WMEM', k)
    st.obj(b, 'lazy')
    m = ('WMO',)
    if m not in st.mem:
        st.obj(m, 'zero')
        S.api('pwart_wasi_module_set_wasimemory', [('p', m, 0)])
        st = S.st
    st.put(m, R.p.off('Memory', 'bytes'), 8, ('p', b, 0))
    st.put(m, R.p.off('Memory', 'pages'), 4, 65536)
    st.put(m, R.p.off('Memory', 'maximum'), 4, 65536)
    return b


def wasi_ext(R, log, args=('prog', 'a1', ''), env=(('HOME', '/root'), ('EMPTY', ''), ('X', 'y=z'))):
    c = R.p.c
    D = {}

    def alive(I, st, i, p, what):
        b, o = aspair(st.res(p))
        if b in st.freed: I.bad(st, i, 'use-after-free', b, o)
    def init(I, st, fr, i, a):
        w, wo = aspair(st.res(a[0])); o, oo = aspair(st.res(a[1]))
        G = lambda f, n: st.res(st.get(o, oo + c['O_' + f], n))
        pre, pn = G('preopens', 8), G('preopenc', 4)
        paths = ()
        if isinstance(pn, int) and isinstance(pre, tuple) and pre[0] == 'p':
            alive(I, st, i, pre, 'preopens')
            paths = tuple(tuple(R.text(st, st.res(st.get(pre[1], pre[2] + 16 * k + 8 * j, 8))) for j in (0, 1)) for k in range(pn))
        log.append(('init', (w, wo), {**{f: G(f, n) for f, n in (('argc', 4), ('argv', 8), ('envp', 8), ('in', 4), ('out', 4), ('err', 4), ('allocator', 8), ('fd_table_size', 4))}, 'paths': paths}))
        if log.rc != 0: return log.rc
        st.user['uvw'] = st.user.get('uvw', 0) + 1
        av = ('AV', st.fresh())
        st.obj(av, 'undef'); bf = ('ABUF', av[1]); st.obj(bf, 'undef')
        n = G('argc', 4); av0 = G('argv', 8)
        pos = 0
        if not isinstance(n, int): raise Broken('argc')
        for k in range(n):
            t = R.text(st, st.res(st.get(av0[1], av0[2] + 8 * k, 8)))
            st.put(av, 8 * k, 8, ('p', bf, pos))
            for ch in t.encode('latin1') + b'\0': st.put(bf, pos, 1, ch); pos += 1
        st.put(w, wo + c['W_ARGC'], 4, n); st.put(w, wo + c['W_ARGV'], 8, ('p', av, 0)); st.put(w, wo + c['W_BUF'], 8, ('p', bf, 0)); st.put(w, wo + c['W_BUFN'], 4, pos)
        st.size[bf] = pos
        return 0
    def oinit(I, st, fr, i, a):
        o, oo = aspair(st.res(a[0]))
        for k in range(0, c['OPT'], 4): st.put(o, oo + k, 4, 0)
        for f, v in (('in', 0), ('out', 1), ('err', 2), ('fd_table_size', 3)): st.put(o, oo + c['O_' + f], 4, v)
    def destroy(I, st, fr, i, a):
        n = st.user.get('uvw', 0)
        log.append(('destroy', aspair(st.res(a[0])), n))
        st.user['uvw'] = n - 1
    D['uvwasi_init'], D['uvwasi_options_init'], D['uvwasi_destroy'] = init, oinit, destroy
    D['fileno'] = lambda I, st, fr, i, a: ('s', 32, ('fileno', a[0]))

    def environ(I, st, fr, i, a):
        b, o = aspair(st.res(a[0])); b2, o2 = aspair(st.res(a[1]))
        if log.envrc: st.put(b, o, 8, 0); st.put(b2, o2, 4, 0); return log.envrc
        e = ('ENV', st.fresh())
        st.obj(e, 'undef')
        for k, (n, v) in enumerate(log.env):
            st.put(e, c['ENVI'] * k + c['ENVI_NAME'], 8, R.str(st, n)); st.put(e, c['ENVI'] * k + c['ENVI_VALUE'], 8, R.str(st, v))
        st.put(b, o, 8, ('p', e, 0)); st.put(b2, o2, 4, len(log.env))
        st.user['envs'] = st.user.get('envs', ()) + (e,)
        return 0
    def envfree(I, st, fr, i, a):
        b, o = aspair(st.res(a[0]))
        if b == ('abs',): return None
        if b not in st.user.get('envs', ()): I.bad(st, i, 'double-free', b, o)
        elif st.res(a[1]) != len(log.env): I.bad(st, i, 'environment released with a wrong count', b, a[1])
        else:
            st.user['envs'] = tuple(x for x in st.user['envs'] if x != b)
            st.freed[b] = (i.file, i.line)
        return None
    D['uv_os_environ'], D['uv_os_free_environ'] = environ, envfree
    for n in SIG:
        def f(I, st, fr, i, a, n=n):
            vec = []
            for k, x in enumerate(a):
                x = st.res(x)
                b, o = aspair(x) if isinstance(x, tuple) and x[0] == 'p' else (None, None)
                if b in st.freed: I.bad(st, i, 'use-after-free', b, o)
            st.user['calls'] = st.user.get('calls', ()) + ((n, tuple(a), '%s:%s (%s)' % (i.file, i.line, i.fn.name), log.grab(st, a) if log.grab else None),)
            return log.ret
        D['uvwasi_' + n] = f
    return D


class Log(list):
    rc, envrc, env, ret, grab = 0, 0, (), 0, None


U32 = [0, 1, 0x7fffffff, 0x80000000, 0xffffffff]


def wasi_call_case(R, C, name, align, at):
    R = sysrun()
    C.R, C.place = R, 'pwart_syslib'
    c = R.p.c
    log = Log()
    def go():
        S = Sys(R, C, 'pwart_wasi_module_new', align, at)
        memory(S)
        S.api('pwart_wasi_module_init', [])
        C.ob += 1
        if not log or log[-1][0] != 'init': C.prob('WASI', None, 'pwart_wasi_module_init does not initialise uvwasi'); return
        uvw = log[-1][1]
        sig = SIG[name]
        rnd = random.Random(name + str(align))
        for rep in range(12):
            mb = memory(S, rep % 3)
            args, want, vec = [], [], None
            st = S.st
            for k, ch in enumerate(sig):
                if ch in '124':
                    v = ('s', 32, ('in', 'a%d' % k)) if rep % 2 else U32[(rep // 2 + k) % 5] if rep < 10 else rnd.getrandbits(32)
                    args.append((I32, v))
                    n = 8 * int(ch)
                    want.append((mkcast('trunc', 32, n, v) if n < 32 else v, n))
                elif ch == '8':
                    v = ('s', 64, ('in', 'a%d' % k)) if rep % 2 else rnd.choice([0, 1, 1 << 31, 1 << 32, 1 << 63, MASK[64], rnd.getrandbits(64)])
                    args.append((I64, v)); want.append((v, 64))
                elif ch == 'P':
                    v = [0x100 * (k + 1), 0x7ffffff0 - 64 * k, 0x80000000 + 64 * k, 0xfffff000 + 64 * k, 0][(rep + k) % 5]
                    args.append((I32, v)); want.append((('p', mb, v), 64))
                else:
                    v = [0x2000, 0x90000000, 0xffff0000, 8, 0x7fffff00][rep % 5]
                    n = [0, 1, 2, 3, 5, 17, 1, 2, 40, 3, 1, 2][rep]
                    vec = []
                    for j in range(n):
                        pj = [0x10000 * (j + 1), 0x80000000 + 16 * j, 0xffffffff - j, 0][(j + rep) % 4]
                        lj = ('s', 32, ('in', 'len%d_%d' % (rep, j))) if rep % 2 else rnd.choice([0, 1, 0xffffffff, 4096])
                        st.put(mb, v + 8 * j, 4, pj); st.put(mb, v + 8 * j + 4, 4, lj)
                        vec.append((('p', mb, pj), lj))
                    args += [(I32, v), (I32, n)]; want += [(None, 64), (n, 32)]
            vi = [k for k, (w, n) in enumerate(want) if w is None]
            def grab(s, a):
                if not vi or vi[0] + 1 >= len(a): return None
                b, o = aspair(s.res(a[vi[0] + 1]))
                if b in s.freed: return None
                return [(s.res(s.get(b, o + c['IOV'] * j, 8)), s.res(s.get(b, o + c['IOV'] * j + c['IOV_LEN'], 4))) for j in range(len(vec))]
            log.grab = grab
            log.ret = ('s', 16, ('in', 'errno%d' % rep)) if rep % 3 else [0, 8, 76, 0xffff][rep // 3]
            st.user['calls'] = ()
            e = log.ret
            if name == 'proc_exit': res = []
            else: res = [(I32, e if isinstance(e, int) else mkcast('zext', 16, 32, e))]
            before = {o: v for o, v in st.mem.get(mb, {}).items()}
            S.call(name, args, res)
            st = S.st
            calls = st.user.get('calls', ())
            C.ob += 1
            if [x[0] for x in calls] != [name]: C.prob('WASI call', None, '%s calls %s instead of uvwasi_%s' % (name, [x[0] for x in calls], name)); return
            _, a, wh, got = calls[0]
            C.ob += 1
            if aspair(st.res(a[0])) != uvw: C.prob('WASI call', wh, '%s uses another uvwasi object than the one that was initialised' % name)
            if len(a) != len(want) + 1: C.prob('WASI call', wh, '%s passes %d arguments' % (name, len(a))); return
            for k, ((w, n), g) in enumerate(zip(want, a[1:])):
                if w is not None: C.eq(st, 'argument %d of uvwasi_%s' % (k + 1, name), g, w, n, where=wh)
            if vec is not None and got is not None:
                for j, ((p, l), (gp, gl)) in enumerate(zip(vec, got)):
                    C.eq(st, 'buffer of %s' % name, gp, p, 64, where=wh)
                    C.eq(st, 'length of a buffer of %s' % name, gl, l, 32, where=wh)
            C.ob += 1
            for e2 in st.trace():
                if e2[0] == 'store' and e2[1] == mb: C.prob('WASI memory', '%s:%s (%s)' % e2[4:7], '%s writes to the memory of the module itself' % name); break
        S.api('pwart_wasi_module_delete', [S.mod])
        leak_check(R, C, S.st, 'the module was deleted')
    with_ext(R, wasi_ext(R, log), go)


def wasi_args_case(R, C, argv, align, at):
    R = sysrun(); C.R, C.place = R, 'pwart_syslib'
    c = R.p.c
    log = Log()
    def go():
        S = Sys(R, C, None, align, at)
        setargs(S, argv)
        S.api('pwart_wasi_module_init', [])
        S.mod = S.api('pwart_wasi_module_new', [])
        check_init(C, R, S.st, log, argv)
        for rep, (pa, pb) in enumerate(((0x100, 0x1000), (0x80000000, 0xfffff000), (0x1000, 0x100), (0, 0x500))):
            mb = memory(S, rep % 2)
            st = S.st
            st.mem.pop(mb, None); st.obj(mb, 'lazy')
            # bytes around the places written
            text = [b for t in argv for b in t.encode('latin1') + b'\0']
            want, pos = {}, 0
            for k, t in enumerate(argv):
                v = pb + pos & 0xffffffff
                for j in range(4): want[pa + 4 * k + j] = v >> 8 * j & 0xff
                pos += len(t) + 1
            for k, b in enumerate(text): want[pb + k] = b
            guard = [o for o in (pa - 1, pa + 4 * len(argv), pb - 1, pb + len(text)) if o not in want and 0 <= o < 1 << 32]
            for o in guard: st.put(mb, o, 1, ('s', 8, ('in', 'g%d' % o)))
            S.call('args_get', [(I32, pa), (I32, pb)], [(I32, 0)])
            st = S.st
            for o in guard: want[o] = ('s', 8, ('in', 'g%d' % o))
            for o, v in want.items(): C.eq(st, 'byte of the arguments', st.get(mb, o, 1), v, 8)
        C.mem(S.st)
    with_ext(R, wasi_ext(R, log), go)


def setargs(S, argv):
    st = S.st
    b = ('ARGV', st.fresh())
    st.obj(b, 'undef')
    for k, t in enumerate(argv): st.put(b, 8 * k, 8, S.R.str(st, t.encode('latin1')))
    st.put(b, 8 * len(argv), 8, 0)
    S.api('pwart_wasi_module_set_wasiargs', [len(argv), ('p', b, 0)])
    return b


def check_init(C, R, st, log, argv, n=1):
    C.ob += 3
    ini = [x for x in log if x[0] == 'init']
    if len(ini) != n: C.prob('WASI init', None, 'uvwasi is initialised %d times instead of %d' % (len(ini), n)); return
    o = ini[-1][2]
    if o['argc'] != len(argv): C.prob('WASI init', None, 'argc is %s instead of %d' % (sh(o['argc']), len(argv)))
    if o['paths'] != (('/', '.'),): C.prob('WASI init', None, 'the preopened directories are %s instead of / for the current directory' % sh(o['paths']))
    if o['allocator'] != 0: C.prob('WASI init', None, 'an allocator %s is set' % sh(o['allocator']))
    for f, k in (('in', 'stdin'), ('out', 'stdout'), ('err', 'stderr')):
        v = o[f]
        d = {'in': 0, 'out': 1, 'err': 2}[f]
        C.ob += 1
        if isinstance(v, int):
            if v != d: C.prob('WASI init', None, 'the %s descriptor is %d' % (k, v))
        elif isinstance(v, tuple) and v[0] == 's' and isinstance(v[2], tuple) and v[2][0] == 'fileno':
            other = {'stdin', 'stdout', 'stderr'} - {k}
            if any(repr(x) in repr(v) for x in other): C.prob('WASI init', None, 'the %s descriptor is %s' % (k, sh(v)))


def wasi_env_case(R, C, env, align, at, rc=0):
    R = sysrun(); C.R, C.place = R, 'pwart_syslib'
    log = Log(); log.env = env; log.envrc = rc
    if rc: env = ()
    def go():
        S = Sys(R, C, 'pwart_wasi_module_new', align, at)
        S.api('pwart_wasi_module_init', [])
        for rep, (pa, pb) in enumerate(((0x100, 0x1000), (0x80000000, 0xfffff000), (0x1000, 0x100))):
            mb = memory(S, rep % 2)
            st = S.st
            st.mem.pop(mb, None); st.obj(mb, 'lazy')
            S.call('environ_sizes_get', [(I32, pa), (I32, pb)], [(I32, 0)])
            st = S.st
            C.eq(st, 'number of environment variables', st.get(mb, pa, 4), len(env), 32)
            C.eq(st, 'size of the environment', st.get(mb, pb, 4), sum(len(n) + len(v) + 2 for n, v in env), 32)
            st.mem.pop(mb, None); st.obj(mb, 'lazy')
            want, pos = {}, 0
            for k, (n, v) in enumerate(env):
                q = pb + pos
                for j in range(4): want[pa + 4 * k + j] = q >> 8 * j & 0xff
                for ch in ('%s=%s' % (n, v)).encode('latin1') + b'\0': want[pb + pos] = ch; pos += 1
            guard = [o for o in (pa - 1, pa + 4 * len(env), pb - 1, pb + pos) if o not in want and 0 <= o < 1 << 32]
            for o in guard: want[o] = ('s', 8, ('in', 'g%d' % o)); st.put(mb, o, 1, want[o])
            S.call('environ_get', [(I32, pa), (I32, pb)], [(I32, 0)])
            st = S.st
            for o, v in want.items(): C.eq(st, 'byte of the environment', st.get(mb, o, 1), v, 8)
        C.ob += 1
        if S.st.user.get('envs'): C.prob('leak', None, 'the environment list of libuv is never released (%d calls, %d left)' % (6, len(S.st.user['envs'])))
        C.mem(S.st)
    with_ext(R, wasi_ext(R, log), go)


def wasi_life_case(R, C, ops):
    """init, new, delete, arguments, failing init in some order"""
    R = sysrun(); C.R, C.place = R, 'pwart_syslib'
    log = Log()
    def go():
        S = Sys(R, C, None)
        live, mods, inits, argv = 0, [], 0, ()
        for op in ops:
            del log[:]
            if op == 'i' or op == 'f':
                log.rc = 0 if op == 'i' else 28
                r = S.api('pwart_wasi_module_init', [])
                C.ob += 2
                if op == 'i' and r != 0: C.prob('WASI init', None, 'pwart_wasi_module_init gives an error')
                if op == 'f':
                    t = R.text(S.st, r) if isinstance(r, tuple) else None
                    if not t or not t.isprintable(): C.prob('WASI init', None, 'pwart_wasi_module_init does not report that uvwasi_init failed')
                check_init(C, R, S.st, log, argv)
                d = [x for x in log if x[0] == 'destroy']
                if len(d) != live: C.prob('WASI init', None, 'initialising again destroys %d uvwasi objects instead of %d' % (len(d), live))
                if d and log.index(d[0]) > [x[0] for x in log].index('init'): C.prob('WASI init', None, 'the former uvwasi object is destroyed after the new one was initialised')
                live = 1 if op == 'i' else 0
            elif op == 'n': mods.append(S.api('pwart_wasi_module_new', []))
            elif op == 'd' and mods:
                S.api('pwart_wasi_module_delete', [mods.pop()])
                C.ob += 1
                if len([x for x in log if x[0] == 'destroy']) != live: C.prob('WASI delete', None, 'deleting the module destroys %d uvwasi objects, %d are initialised' % (len(log), live))
                live = 0
            elif op == 'a': argv = ('p%d' % len(argv),) * (len(argv) + 1); setargs(S, argv)
        while mods: S.api('pwart_wasi_module_delete', [mods.pop()])
        leak_check(R, C, S.st, 'the modules were deleted')
    with_ext(R, wasi_ext(R, log), go)


def wasi_names_case(R, C):
    R = sysrun(); C.R, C.place = R, 'pwart_syslib'
    S = Sys(R, C, 'pwart_wasi_module_new')
    got = S.names(NAMES, ['', 'args', 'args_ge', 'args_get2', 'fd_pread_', 'sock_open', 'proc', 'wasm__args_get', 'thread_spawn', 'fd_Read', 'uv_version', 'memory'])
    C.ob += 1
    if len({repr(v) for v in got.values()}) != len(got): C.prob('WASI names', None, 'two WASI names are one function')
    for n in ('fd_read', 'args_get'):
        C.ob += 1
        if S.resolve(n, modname='anything') != got[n]: C.prob('WASI names', None, '"%s" is found only under one module name' % n)
    S.api('pwart_namespace_delete_host_module', [S.mod])
    C.mem(S.st)


def wasi(tier):
    yield 'names', wasi_names_case
    ats = [(1, 0), (0, 0), (1, 16), (0, 12)] if tier == 'quick' else [(a, o) for a in (0, 1) for o in (0, 8, 16, 24, 40)]
    for n in SIG:
        for al, at in ats: yield '%s, align=%d, frame at %d' % (n, al, at), lambda R, C, n=n, al=al, at=at: wasi_call_case(R, C, n, al, at)
    for argv in ((), ('prog',), ('prog', 'a', ''), ('', ''), ('x' * 40, 'y z', '\x80\xff'), ('a',) * 9):
        for al, at in ats[:3]: yield 'args_get of %d arguments, align=%d, frame at %d' % (len(argv), al, at), lambda R, C, argv=argv, al=al, at=at: wasi_args_case(R, C, argv, al, at)
    for env in ((), (('HOME', '/root'),), (('A', ''), ('', 'b'), ('C', 'd=e')), tuple(('N%d' % k, 'v' * k) for k in range(12)), (('LONG', 'x' * 66000), ('B', '1'), ('C', ''))):
        for al, at in ats[:3]: yield 'environment of %d, align=%d, frame at %d' % (len(env), al, at), lambda R, C, env=env, al=al, at=at: wasi_env_case(R, C, env, al, at)
    yield 'environment not available', lambda R, C: wasi_env_case(R, C, (), 1, 0, rc=MASK[32] & -12)
    rnd = random.Random(7)
    for ops in ['', 'i', 'in', 'nid', 'ni', 'ind', 'inid', 'ii', 'iindin', 'fi', 'if', 'fnd', 'ifind', 'aiai', 'naidaid', 'aaiai', 'iiii'] + [''.join(rnd.choice('iinndaf') for _ in range(8)) for _ in range(20 if tier == 'quick' else 200)]:
        yield 'life cycle %s' % ops, lambda R, C, ops=ops: wasi_life_case(R, C, ops)


# ---- P20: libuv and libffi ---------------------------------------------------------------
UV = ["uv_version", "uv_dlopen", "uv_dlsym", "uv_dlclose", "uv_thread_create", "uv_mutex_init", "uv_mutex_destroy", "uv_mutex_lock", "uv_mutex_unlock", "uv_mutex_trylock",
      "uv_cond_init", "uv_cond_destroy", "uv_cond_signal", "uv_cond_wait"]
FFI = ["ffi_is_enabled", "ffi_prep_cif", "ffi_prep_cif_var", "ffi_call", "ffi_default_abi", "ffi_built_in_types", "ffix_new_cif", "ffix_del_cif", "ffix_call", "ffi_closure_alloc", "ffi_closure_free",
       "ffi_prep_closure_loc", "ffix_new_c_callback", "ffix_del_c_callback"]


class Lib:
    """models of the functions of a C library: which were called with what"""

    def __init__(self, R, C):
        self.R, self.C = R, C
        self.log = []
        self.ret = {}
        self.obj = {}          # kind -> size of the objects the library initialises

    def use(self, I, st, i, p, n=1, w=False):
        """the library accesses n bytes at p"""
        b, o = aspair(st.res(p))
        if b in st.freed: I.bad(st, i, 'use-after-free', b, o)
        elif b == ('abs',): I.bad(st, i, 'null-deref', b, o)
        elif b in st.size and isinstance(o, int) and not 0 <= o <= st.size[b] - n: I.bad(st, i, 'out of bounds', b, o)
        return b, o

    def simple(self, name, objs=()):
        """a function that accesses the objects given by argument number and size"""
        def f(I, st, fr, i, a):
            for k, n in objs: self.use(I, st, i, a[k], n)
            self.log.append((name, tuple(st.res(x) for x in a), '%s:%s (%s)' % (i.file, i.line, i.fn.name)))
            if name.endswith(('_init', '_destroy')):
                b = aspair(st.res(a[0]))
                live = st.user.get('inits', ())
                if name.endswith('_init'):
                    if self.ret.get(name, 0) == 0: st.user['inits'] = live + (b,)
                elif b not in live: I.bad(st, i, 'destruction of something not initialised', b[0], b[1])
                else: st.user['inits'] = tuple(x for x in live if x != b)
            r = self.ret.get(name, 0)
            return r
        return f

    def take(self):
        l = self.log[:]
        del self.log[:]
        return l

    def expect(self, st, want, what):
        """exactly these calls were made; None in the arguments: not judged"""
        got = self.take()
        C = self.C
        C.ob += 1
        if [g[0] for g in got] != [w[0] for w in want]: C.prob('library calls', got[0][2] if got else None, '%s calls %s instead of %s' % (what, [g[0] for g in got], [w[0] for w in want])); return got
        for g, w in zip(got, want):
            for k, (x, y) in enumerate(zip(g[1], w[1])):
                if y is None: continue
                v, n = y if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], int) and y[1] in (32, 64) else (y, 64)
                C.eq(st, 'argument %d of %s' % (k + 1, g[0]), x, v, n, where=g[2])
        return got


def uv_ext(L):
    c = L.R.p.c
    D = {}
    D['uv_version'] = L.simple('uv_version')
    for k, sz in (('mutex', c['MUTEX']), ('cond', c['COND'])):
        for f in ('init', 'destroy') + (('lock', 'trylock', 'unlock') if k == 'mutex' else ('signal', 'broadcast')): D['uv_%s_%s' % (k, f)] = L.simple('uv_%s_%s' % (k, f), ((0, sz),))
    D['uv_cond_wait'] = L.simple('uv_cond_wait', ((0, c['COND']), (1, c['MUTEX'])))
    D['uv_cond_timedwait'] = L.simple('uv_cond_timedwait', ((0, c['COND']), (1, c['MUTEX'])))
    dl = L.simple('uv_dlopen', ((1, c['LIB']),))
    D['uv_dlopen'] = dl
    D['uv_dlclose'] = L.simple('uv_dlclose', ((0, c['LIB']),))

    def dlsym(I, st, fr, i, a):
        L.use(I, st, i, a[0], c['LIB'])
        b, o = L.use(I, st, i, a[2], 8, True)
        L.log.append(('uv_dlsym', tuple(st.res(x) for x in a), '%s:%s (%s)' % (i.file, i.line, i.fn.name)))
        if L.ret.get('sym') is not None: st.put(b, o, 8, L.ret['sym'])
        return L.ret.get('uv_dlsym', 0)
    D['uv_dlsym'] = dlsym

    def thread(I, st, fr, i, a):
        b, o = L.use(I, st, i, a[0], c['THREAD'], True)
        st.put(b, o, 8, ('s', 64, ('in', 'tid')))
        L.log.append(('uv_thread_create', tuple(st.res(x) for x in a), '%s:%s (%s)' % (i.file, i.line, i.fn.name)))
        return 0
    D['uv_thread_create'] = thread
    return D


def sysfn(S, f, args):
    """a library calls a function it was given"""
    f = S.st.res(f)
    if not (isinstance(f, tuple) and f[0] == 'p' and isinstance(f[1], tuple) and f[1][0] == 'g' and f[1][1] in S.R.p.m.funcs and f[2] == 0): raise Broken('callback %r' % (f,))
    return S.api(f[1][1], args)


def uv_objects_case(R, C, align, at):
    R = sysrun(); C.R, C.place = R, 'pwart_syslib'
    L = Lib(R, C)
    def go():
        S = Sys(R, C, 'pwart_libuv_module_new', align, at)
        for v in (0x12345, ('s', 32, ('in', 'ver'))):
            L.ret['uv_version'] = v
            S.call('uv_version', [], [(I32, v)])
            L.expect(S.st, [('uv_version', ())], 'uv_version')
        objs = {}
        for k in ('mutex', 'cond'):
            for j in range(3):
                (q,) = S.call('uv_%s_init' % k, [], [(REF, None)])
                L.expect(S.st, [('uv_%s_init' % k, (q,))], 'uv_%s_init' % k)
                C.ob += 1
                if q in objs.values(): C.prob('uv objects', None, 'uv_%s_init gives the same object again' % k)
                objs[k, j] = q
        for j in (0, 2, 1):
            m, d = objs['mutex', j], objs['cond', j]
            for n in ('lock', 'unlock'):
                S.call('uv_mutex_' + n, [(REF, m)])
                L.expect(S.st, [('uv_mutex_' + n, (m,))], 'uv_mutex_' + n)
            for r in (0, MASK[32] & -16, ('s', 32, ('in', 'try'))):
                L.ret['uv_mutex_trylock'] = r
                S.call('uv_mutex_trylock', [(REF, m)], [(I32, r)])
                L.expect(S.st, [('uv_mutex_trylock', (m,))], 'uv_mutex_trylock')
            S.call('uv_cond_signal', [(REF, d)])
            L.expect(S.st, [('uv_cond_signal', (d,))], 'uv_cond_signal')
            S.call('uv_cond_wait', [(REF, d), (REF, m)])
            L.expect(S.st, [('uv_cond_wait', (d, m))], 'uv_cond_wait')
            if S.resolve('uv_cond_timedwait'):
                for t, r in ((('s', 64, ('in', 't')), 0), (1 << 40, MASK[32] & -110)):
                    L.ret['uv_cond_timedwait'] = r
                    S.call('uv_cond_timedwait', [(REF, d), (REF, m), (I64, t)], [(I32, r)])
                    L.expect(S.st, [('uv_cond_timedwait', (d, m, t))], 'uv_cond_timedwait')
        for k in ('cond', 'mutex'):
            for j in (1, 0, 2):
                S.call('uv_%s_destroy' % k, [(REF, objs[k, j])])
                L.expect(S.st, [('uv_%s_destroy' % k, (objs[k, j],))], 'uv_%s_destroy' % k)
                C.ob += 1
                if aspair(objs[k, j])[0] not in S.st.freed: C.prob('leak', None, 'uv_%s_destroy does not release the object' % k)
        S.api('pwart_libuv_module_delete', [S.mod])
        leak_check(R, C, S.st, 'the objects were destroyed and the module was deleted')
    with_ext(R, uv_ext(L), go)


def uv_dl_case(R, C, align, at):
    R = sysrun(); C.R, C.place = R, 'pwart_syslib'
    L = Lib(R, C)
    def go():
        S = Sys(R, C, 'pwart_libuv_module_new', align, at)
        libs = []
        for j, r in enumerate((0, MASK[32], ('s', 32, ('in', 'rc')), 0)):
            L.ret['uv_dlopen'] = r
            f = R.str(S.st, 'lib%d' % j)
            q, _ = S.call('uv_dlopen', [(REF, f)], [(REF, None), (I32, r)])
            g = L.expect(S.st, [('uv_dlopen', (f, q))], 'uv_dlopen')
            C.ob += 1
            if q in libs: C.prob('uv objects', None, 'uv_dlopen gives the same object again')
            libs.append(q)
        for j, (r, y) in enumerate(((0, ('p', ('SYM', 1), 0)), (MASK[32], None), (('s', 32, ('in', 'rc')), ('s', 64, ('in', 'sym'))), (MASK[32], 0))):
            L.ret['uv_dlsym'], L.ret['sym'] = r, y
            n = R.str(S.st, 'name%d' % j)
            S.call('uv_dlsym', [(REF, libs[j]), (REF, n)], [(REF, 0 if y is None else y), (I32, r)])
            L.expect(S.st, [('uv_dlsym', (libs[j], n, None))], 'uv_dlsym')
        for j in (2, 0, 3, 1):
            S.call('uv_dlclose', [(REF, libs[j])])
            L.expect(S.st, [('uv_dlclose', (libs[j],))], 'uv_dlclose')
        S.api('pwart_libuv_module_delete', [S.mod])
        leak_check(R, C, S.st, 'the libraries were closed and the module was deleted')
    with_ext(R, uv_ext(L), go)


def uv_thread_case(R, C, align, at, order):
    R = sysrun(); C.R, C.place = R, 'pwart_syslib'
    L = Lib(R, C)
    got = []
    def go():
        S = Sys(R, C, 'pwart_libuv_module_new', align, at)
        run = []
        def entry(k):
            def f(s, a, i):
                b, o = aspair(s.res(a[0]))
                if b in s.freed: R.I.bad(s, i, 'use-after-free', b, o)
                got.append((k, s.res(s.get(b, o, 8)), b, o, s.size.get(b)))
                # the function uses its frame
                for x in range(0, 1024, 8): s.put(b, o + x, 8, ('s', 64, ('in', 'junk')))
                return None
            return f
        for k, v in enumerate((('s', 64, ('in', 'arg')), 1 << 63 | 5, 0)):
            R.host['entry%d' % k] = entry(k)
            e = R.fn('entry%d' % k)
            S.call('uv_thread_create', [(REF, e), (I64, v)], [(REF, None)])
            g = L.expect(S.st, [('uv_thread_create', (None, None, None))], 'uv_thread_create')
            if len(g) == 1: run.append((k, v, g[0][1][1:]))
        for k, v, (f, x) in (run if order else run[::-1]):
            del got[:]
            sysfn(S, f, [x])
            C.ob += 1
            if len(got) != 1 or got[0][0] != k: C.prob('thread', None, 'the thread calls %s instead of its function once' % sh(got)); continue
            C.eq(S.st, 'argument of the function run by the thread', got[0][1], v, 64)
            C.ob += 1
            b, o, n = got[0][2:]
            if not (isinstance(b, tuple) and b[0] == 'h') or not isinstance(o, int) or (n is not None and n - o < 4096): C.prob('thread', None, 'the function runs on a frame at %s of an object of %s bytes instead of a stack of its own' % (sh(o), sh(n)))
        S.api('pwart_libuv_module_delete', [S.mod])
        leak_check(R, C, S.st, 'the threads ended and the module was deleted')
    with_ext(R, uv_ext(L), go)


def names_case(R, C, ffi, new, want, other):
    R = sysrun(ffi); C.R, C.place = R, 'pwart_syslib'
    S = Sys(R, C, new)
    got = S.names(want, other)
    C.ob += 1
    if (ffi or new != 'pwart_libffi_module_new') and len({repr(v) for v in got.values()}) != len(got): C.prob('names', None, 'two names are one function')
    S.api('pwart_namespace_delete_host_module', [S.mod])
    leak_check(R, C, S.st, 'the module was deleted')


FTYPE = {'i': 'uint32', 'l': 'uint64', 'f': 'float', 'd': 'double', 'p': 'pointer', 'v': 'void'}
FSIZE = {'i': 4, 'l': 8, 'f': 4, 'd': 8, 'p': 8, 'v': 1}
def ft(ch): return ('p', ('g', 'ffi_type_' + FTYPE.get(ch, 'pointer')), 0)


def ffi_ext(L):
    c = L.R.p.c
    D = {}
    for n in ('ffi_prep_cif', 'ffi_prep_cif_var'):
        def f(I, st, fr, i, a, n=n):
            b, o = L.use(I, st, i, a[0], c['CIF'], True)
            na, tys = (a[2], a[4]) if n == 'ffi_prep_cif' else (a[3], a[5])
            st.put(b, o + c['CIF_NARGS'], 4, na)
            st.put(b, o + c['CIF_ARGS'], 8, tys)
            ty = None
            na, tys = st.res(na), st.res(tys)
            if isinstance(na, int) and na < 300 and isinstance(tys, tuple) and tys[0] == 'p':
                if na: L.use(I, st, i, tys, 8 * na)
                ty = [st.res(st.get(tys[1], tys[2] + 8 * k, 8)) for k in range(na)]
            L.log.append((n, tuple(st.res(x) for x in a), '%s:%s (%s)' % (i.file, i.line, i.fn.name), ty))
            return L.ret.get(n, 0)
        D[n] = f

    def call(I, st, fr, i, a):
        av = None
        n = L.ret.get('nargs')
        q = st.res(a[3])
        if n and isinstance(q, tuple) and q[0] == 'p':
            b, o = L.use(I, st, i, q, 8 * n)
            if b not in st.freed: av = [st.res(st.get(b, o + 8 * k, 8)) for k in range(n)]
        L.log.append(('ffi_call', tuple(st.res(x) for x in a), '%s:%s (%s)' % (i.file, i.line, i.fn.name), av))
        return None
    D['ffi_call'] = call

    def calloc_(I, st, fr, i, a):
        n = st.res(a[0])
        L.log.append(('ffi_closure_alloc', (n,), '%s:%s (%s)' % (i.file, i.line, i.fn.name)))
        L.C.ob += 1
        if isinstance(n, int) and n < c['CLOSURE']: L.C.prob('closure size', '%s:%s (%s)' % (i.file, i.line, i.fn.name), 'a closure of %d bytes is allocated; libffi needs sizeof(ffi_closure), %d' % (n, c['CLOSURE']))
        b = ('CLO', st.fresh())
        st.obj(b, 'undef')
        st.put(aspair(st.res(a[1]))[0], aspair(st.res(a[1]))[1], 8, ('p', ('CODEOF', b[1]), 0))
        if L.ret.get('noclosure'): return 0
        st.user['clos'] = st.user.get('clos', ()) + (b,)
        return ('p', b, 0)
    D['ffi_closure_alloc'] = calloc_

    def cfree(I, st, fr, i, a):
        b, o = aspair(st.res(a[0]))
        L.log.append(('ffi_closure_free', (st.res(a[0]),), '%s:%s (%s)' % (i.file, i.line, i.fn.name)))
        if b not in st.user.get('clos', ()): I.bad(st, i, 'double-free' if b in st.freed else 'release of something that is no closure', b, o); return None
        st.user['clos'] = tuple(x for x in st.user['clos'] if x != b)
        st.freed[b] = (i.file, i.line)
        return None
    D['ffi_closure_free'] = cfree

    def prep(I, st, fr, i, a):
        b, o = L.use(I, st, i, a[0], 8, True)
        L.log.append(('ffi_prep_closure_loc', tuple(st.res(x) for x in a), '%s:%s (%s)' % (i.file, i.line, i.fn.name)))
        r = L.ret.get('ffi_prep_closure_loc', 0)
        if r == 0:
            for f, v in (('CL_CIF', a[1]), ('CL_FUN', a[2]), ('CL_UD', a[3])): st.put(b, o + c[f], 8, v)
        return r
    D['ffi_prep_closure_loc'] = prep
    return D


def invoke(S, L, closure, cif, types, k):
    """C code calls the closure; -> (arguments, return slot)"""
    st = S.st
    c = S.R.p.c
    b = aspair(st.res(closure))[0]
    fun, ud, cf = (st.res(st.get(b, c[f], 8)) for f in ('CL_FUN', 'CL_UD', 'CL_CIF'))
    ab, rb_ = ('CARGS', st.fresh()), ('CRET', k)
    st.obj(ab, 'undef'); st.obj(rb_, 'undef')
    vals = []
    for j, t in enumerate(types):
        vb = ('CVAL', k, j)
        st.obj(vb, 'undef')
        v = ('s', 8 * FSIZE[t], ('in', 'c%d_%d' % (k, j)))
        st.put(vb, 0, FSIZE[t], v)
        st.size[vb] = FSIZE[t]
        st.put(ab, 8 * j, 8, ('p', vb, 0))
        vals.append(v)
    sysfn(S, fun, [cf, ('p', rb_, 0), ('p', ab, 0), ud])
    return vals, ('p', rb_, 0), ('p', ab, 0)


def cif_obj(S, types, tag):
    """a prepared cif of the embedder"""
    st, c = S.st, S.R.p.c
    b, tb = ('CIF', tag), ('CIFT', tag)
    st.obj(b, 'zero'); st.obj(tb, 'undef')
    for n, z in FSIZE.items():
        g = ft(n)[1]
        st.kind[g] = 'zero'
        st.mem.setdefault(g, {}); st.put(g, c['TY_SIZE'], 8, z); st.put(g, c['TY_ALIGN'], 2, z); st.put(g, c['TY_TYPE'], 2, c['T_' + n])
    for k, t in enumerate(types): st.put(tb, 8 * k, 8, ft(t))
    st.put(b, c['CIF_NARGS'], 4, len(types)); st.put(b, c['CIF_ARGS'], 8, ('p', tb, 0))
    return ('p', b, 0)


def ffi_cif_case(R, C, align, at):
    R = sysrun(); C.R, C.place = R, 'pwart_syslib'
    L = Lib(R, C)
    def go():
        S = Sys(R, C, 'pwart_libffi_module_new', align, at)
        S.call('ffi_is_enabled', [], [(I32, 1)])
        C.eq(S.st, 'pwart_libffi_module_ffi_is_enabled', S.api('pwart_libffi_module_ffi_is_enabled', []), 1, 32)
        S.call('ffi_default_abi', [], [(I32, R.p.c['FFI_ABI'])])
        S.call('ffi_built_in_types', [], [(REF, ('p', ('g', 'ffi_type_' + n), 0)) for n in ('void', 'uint32', 'sint32', 'uint64', 'sint64', 'float', 'double', 'pointer')])
        cb = ('MYCIF',)
        S.st.obj(cb, 'undef')
        for k in range(3):
            i32 = lambda n: (('s', 32, ('in', n)), 7, 0x80000000)[k]
            rt, at_, r = ('p', ('RT', k), 0), ('p', ('ATS', k), 0), (('s', 32, ('in', 'st')), 0, 2)[k]
            L.ret['ffi_prep_cif'] = L.ret['ffi_prep_cif_var'] = r
            S.call('ffi_prep_cif', [(REF, ('p', cb, 0)), (I32, i32('abi')), (I32, i32('n')), (REF, rt), (REF, at_)], [(I32, r)])
            L.expect(S.st, [('ffi_prep_cif', (('p', cb, 0), (i32('abi'), 32), (i32('n'), 32), rt, at_))], 'ffi_prep_cif')
            S.call('ffi_prep_cif_var', [(REF, ('p', cb, 0)), (I32, i32('abi')), (I32, i32('nf')), (I32, i32('n')), (REF, rt), (REF, at_)], [(I32, r)])
            L.expect(S.st, [('ffi_prep_cif_var', (('p', cb, 0), (i32('abi'), 32), (i32('nf'), 32), (i32('n'), 32), rt, at_))], 'ffi_prep_cif_var')
        L.ret.clear()
        a = [('p', ('X', k), 0) for k in range(4)]
        S.call('ffi_call', [(REF, x) for x in a])
        L.expect(S.st, [('ffi_call', a)], 'ffi_call')
        for n in (0, 1, 2, 5, 20):
            cif = cif_obj(S, 'ilfdp'[:n] if n < 6 else 'i' * n, n)
            args = ('p', ('ARGS64', n), 16)
            L.ret['nargs'] = n
            S.call('ffix_call', [(REF, cif), (REF, a[1]), (REF, a[2]), (REF, args)])
            g = L.expect(S.st, [('ffi_call', (cif, a[1], a[2], None))], 'ffix_call')
            if n and len(g) == 1 and g[0][3] is not None:
                for k, v in enumerate(g[0][3]): C.eq(S.st, 'argument pointer of ffix_call', v, padd(args, 8 * k), 64, where=g[0][2])
        L.ret.clear()
        cifs = []
        for d in ('', '>v', 'v', 'i', '>i', 'iip>i', 'lfdp>d', 'pppp', 'ilfdpilfdp>l', 'd>f', 'f>p', 'i' * 250 + '>l', 'l' * 255):
            for r in (0, 1):
                L.ret['ffi_prep_cif'] = r
                args, _, res = d.partition('>')
                q, _ = S.call('ffix_new_cif', [(REF, R.str(S.st, d))], [(REF, None), (I32, r)])
                g = L.expect(S.st, [('ffi_prep_cif', (q, (R.p.c['FFI_ABI'], 32), (len(args), 32), ft(res or 'v'), None))], 'ffix_new_cif')
                if len(g) == 1 and g[0][3] is not None:
                    for k, v in enumerate(g[0][3]): C.eq(S.st, 'argument type %d of "%s"' % (k, d) if k < 20 else 'argument type', v, ft(args[k]), 64, where=g[0][2])
                    tb = aspair(g[0][1][4])[0]
                    C.ob += 1
                    if args and tb in S.st.freed: C.prob('cif', g[0][2], 'the argument types of "%s" are released before the cif' % d)
                C.ob += 1
                if any(q == x for x in cifs): C.prob('cif', None, 'ffix_new_cif gives the same cif again')
                cifs.append(q)
        q, e = S.call('ffix_new_cif', [(REF, R.str(S.st, 'i' * 300))], [(REF, None), (I32, None)])
        C.ob += 1
        if e == 0 and q == 0: C.prob('cif', None, 'ffix_new_cif gives no cif and no error')
        if q != 0: cifs.append(q)
        for q in cifs[::2] + cifs[1::2]: S.call('ffix_del_cif', [(REF, q)])
        S.api('pwart_libffi_module_delete', [S.mod])
        leak_check(R, C, S.st, 'the cifs and the module were deleted')
    with_ext(R, ffi_ext(L), go)


def ffi_closure_case(R, C, align, at, types, ops):
    """closures made in both ways; p: prepare again, c: call, f: free, x: preparation fails"""
    R = sysrun(); C.R, C.place = R, 'pwart_syslib'
    L = Lib(R, C)
    got = []
    def go():
        S = Sys(R, C, 'pwart_libffi_module_new', align, at)
        cl = {}
        def wasmfn(k):
            def f(s, a, i):
                b, o = aspair(s.res(a[0]))
                if b in s.freed: R.I.bad(s, i, 'use-after-free', b, o)
                fr = [s.res(s.get(b, o + 8 * j, 8)) for j in range(4)]
                vals = None
                ab, ao = aspair(fr[2])
                if ab is not None and isinstance(ao, int): vals = [s.res(s.get(ab, ao + 8 * j, FSIZE[t])) for j, t in enumerate(types)]
                if isinstance(o, int) and s.size.get(b, 1 << 30) - o < 1024: L.C.prob('callback', None, 'the callback function runs on a frame of %d bytes' % (s.size[b] - o))
                # the function uses what is behind its parameters
                for x in range(32, 1024, 8): s.put(b, o + x, 8, ('s', 64, ('in', 'junk')))
                got.append((k, fr, vals))
                return None
            return f
        n = 0
        def call(key):
            nonlocal n
            q, kind, k, ud, cif = cl[key]
            n += 1
            del got[:]
            vals, ret, arr = invoke(S, L, q, cif, types, n)
            C.ob += 1
            if len(got) != 1 or got[0][0] != k: C.prob('callback', None, 'calling a %s calls %s instead of its function once' % (kind, sh([g[0] for g in got]))); return
            fr = got[0][1]
            for what, v, w in (('cif', fr[0], cif), ('result pointer', fr[1], ret), ('user data', fr[3], ud)): C.eq(S.st, '%s given to the function of a %s' % (what, kind), v, w, 64)
            if kind == 'closure': C.eq(S.st, 'argument pointers given to the function of a closure', fr[2], arr, 64)
            elif got[0][2] is not None:
                for j, (v, w) in enumerate(zip(got[0][2], vals)): C.eq(S.st, 'argument %d given to the function of a C callback' % j, v, w, 8 * FSIZE[types[j]])
        serial = 0
        for op in ops:
            key = op[1]
            if op[0] in 'an':
                serial += 1
                R.host['wf%d' % serial] = wasmfn(serial)
                cif = cif_obj(S, types, serial)
                ud = (('s', 64, ('in', 'ud%d' % serial)), ('p', ('UD', serial), 0), 0)[serial % 3]
            if op[0] == 'a':
                q, code = S.call('ffi_closure_alloc', [], [(REF, None), (REF, None)])
                L.take()
                C.eq(S.st, 'code address of a closure', code, ('p', ('CODEOF', aspair(q)[0][1]), 0), 64)
                cl[key] = [q, 'closure', None, None, None]
            elif op[0] in 'pP':
                q = cl[key][0]
                serial += 1
                R.host['wf%d' % serial] = wasmfn(serial)
                cif = cif_obj(S, types, serial)
                ud = (('s', 64, ('in', 'ud%d' % serial)), ('p', ('UD', serial), 0), 0)[serial % 3]
                L.ret['ffi_prep_closure_loc'] = 0 if op[0] == 'p' else 1
                loc = ('p', ('LOC', serial), 0)
                S.call('ffi_prep_closure_loc', [(REF, q), (REF, cif), (REF, R.fn('wf%d' % serial)), (REF, ud), (REF, loc)], [(I32, L.ret['ffi_prep_closure_loc'])])
                L.expect(S.st, [('ffi_prep_closure_loc', (q, cif, None, None, loc))], 'ffi_prep_closure_loc')
                if op[0] == 'p': cl[key][2:] = [serial, ud, cif]
            elif op[0] in 'nN':
                if op[0] == 'N':
                    serial += 1
                    R.host['wf%d' % serial] = wasmfn(serial); cif = cif_obj(S, types, serial); ud = 0
                L.ret['ffi_prep_closure_loc'] = 0 if op[0] == 'n' else 1
                q, code, _ = S.call('ffix_new_c_callback', [(REF, cif), (REF, R.fn('wf%d' % serial)), (REF, ud)], [(REF, None), (REF, None), (I32, L.ret['ffi_prep_closure_loc'])])
                g = L.expect(S.st, [('ffi_closure_alloc', (None,)), ('ffi_prep_closure_loc', (q, cif, None, None, code))], 'ffix_new_c_callback')
                cl[key] = [q, 'C callback', serial if op[0] == 'n' else None, ud, cif]
            elif op[0] == 'c':
                if cl[key][2] is not None: call(key)
            elif op[0] == 'f':
                q, kind = cl.pop(key)[:2]
                S.call('ffi_closure_free' if kind == 'closure' else 'ffix_del_c_callback', [(REF, q)])
                L.expect(S.st, [('ffi_closure_free', (q,))], 'ffi_closure_free')
            for k in list(cl):
                if op[0] != 'c' and cl[k][2] is not None: call(k)
            C.mem(S.st)
        for k in list(cl):
            q, kind = cl.pop(k)[:2]
            S.call('ffi_closure_free' if kind == 'closure' else 'ffix_del_c_callback', [(REF, q)])
        S.api('pwart_libffi_module_delete', [S.mod])
        leak_check(R, C, S.st, 'the closures and the module were deleted')
    with_ext(R, ffi_ext(L), go)


def ffi_off_case(R, C, align, at):
    """without libffi"""
    R = sysrun(0); C.R, C.place = R, 'pwart_syslib'
    L = Lib(R, C)
    def go():
        S = Sys(R, C, 'pwart_libffi_module_new', align, at)
        S.call('ffi_is_enabled', [], [(I32, 0)])
        C.eq(S.st, 'pwart_libffi_module_ffi_is_enabled', S.api('pwart_libffi_module_ffi_is_enabled', []), 0, 32)
        for n in FFI[1:]:
            n0 = len(S.st.trace())
            S.call(n, [(REF, ('p', ('X', k), 0)) for k in range(6)])
            C.ob += 1
            for e in S.st.trace()[n0:]:
                if e[0] == 'store' and isinstance(e[1], tuple) and e[1][0] in ('X', 'FP'): C.prob('libffi disabled', '%s:%s (%s)' % e[4:7], '%s does something although libffi is not enabled' % n)
            L.expect(S.st, [], n)
        S.api('pwart_libffi_module_delete', [S.mod])
        leak_check(R, C, S.st, 'the module was deleted')
    with_ext(R, ffi_ext(L), go)


def syslib_case(R, C, ffi, ops):
    """L: load, U: unload, I: initialise WASI, W: define a WebAssembly module that imports from the modules, S: define another module called libuv"""
    R = sysrun(ffi); C.R, C.place = R, 'pwart_syslib'
    log = Log(); L = Lib(R, C)
    def go():
        N = NS(R, C)
        S = Sys(R, C, None, st=N.st)
        ini = loaded = 0
        have = {}
        def find(n):
            q = N.one('pwart_namespace_find_module', [N.ns, N.name(n)])
            if q == 0: return None
            b, o = aspair(N.st.res(q))
            F = lambda f, s: N.st.res(N.st.get(b, o + R.p.o['pwart_named_module', f], s))
            return F('val', 8) if F('type', 4) != 0 else None
        for op in ops:
            del log[:]
            if op == 'I':
                e = N.one('pwart_wasi_module_init', [])
                ini = 1
            elif op == 'L':
                e = N.one('pwart_syslib_load', [N.ns])
                C.ob += 1
                if e != 0: C.prob('syslib', None, 'pwart_syslib_load gives an error')
                loaded = 1
                want = {'libuv': UV, 'libffi': FFI}
                if ini: want['wasi_snapshot_preview1'] = NAMES
                lst = N.one('pwart_syslib_get_enabled_list', [])
                names = []
                for k in range(10):
                    q = N.st.res(N.st.get(*aspair(padd(lst, 8 * k)), 8))
                    if q == 0: break
                    names.append(R.text(N.st, q))
                for n in names:
                    C.ob += 1
                    if n not in want: C.prob('syslib', None, 'the list of enabled modules names "%s", which is not loaded' % n)
                for n in ('libuv', 'libffi', 'wasi_snapshot_preview1'):
                    v = find(n)
                    C.ob += 1
                    if (v is None) == (n in want): C.prob('syslib', None, 'after pwart_syslib_load (WASI %sinitialised) the module "%s" is %s' % ('' if ini else 'not ', n, 'missing' if v is None else 'there')); continue
                    if v is None: continue
                    rs = N.one('pwart_namespace_resolver', [N.ns])
                    rf = N.st.get(rs[1], rs[2] + R.p.o['pwart_symbol_resolver', 'resolve'], 8)
                    for f in want[n]:
                        b = ('REQ', N.st.fresh())
                        N.st.obj(b, 'undef')
                        for fl, s, x in (('import_module', 8, N.name(n)), ('import_field', 8, N.name(f)), ('kind', 4, 0), ('result', 8, 0)): N.st.put(b, R.p.o['pwart_symbol_resolve_request', fl], s, x)
                        N.indirect(rf, [rs, ('p', b, 0)])
                        C.ob += 1
                        if N.st.res(N.st.get(b, R.p.o['pwart_symbol_resolve_request', 'result'], 8)) == 0: C.prob('syslib', None, 'function %s.%s can not be resolved after pwart_syslib_load' % (n, f))
            elif op == 'U':
                e = N.one('pwart_syslib_unload', [N.ns])
                C.ob += 1
                if e != 0: C.prob('syslib', None, 'pwart_syslib_unload gives an error')
                for n in ('libuv', 'libffi', 'wasi_snapshot_preview1'):
                    C.ob += 1
                    if find(n) is not None: C.prob('syslib', None, 'after pwart_syslib_unload the module "%s" is still in the namespace' % n)
                if loaded and have.get('wasi'): ini = 0
                loaded = 0
            elif op == 'W': N.def_wasm('w', wasm(1))
            if op == 'L': have['wasi'] = ini
            C.mem(N.st)
        if loaded: N.one('pwart_syslib_unload', [N.ns])
        N.mods.pop('pwart_namespace_meta', None)
        N.one('pwart_namespace_delete', [N.ns])
        leak_check(R, C, N.st, 'the modules were unloaded and the namespace was deleted')
    D = wasi_ext(R, log); D.update(uv_ext(L)); D.update(ffi_ext(L))
    with_ext(R, D, go)


def native(tier):
    for ffi in (1, 0):
        yield 'names of libuv', lambda R, C, ffi=ffi: names_case(R, C, ffi, 'pwart_libuv_module_new', UV, ['', 'uv_', 'uv_dlopen2', 'dlopen', 'uv_mutex', 'ffi_call', 'uv_run'])
        yield 'names of libffi', lambda R, C, ffi=ffi: names_case(R, C, ffi, 'pwart_libffi_module_new', FFI, ['', 'ffi', 'ffi_', 'ffix_new', 'ffi_is_enabled2', 'uv_dlopen', 'ffi_java_call'])
    ats = [(1, 0), (0, 0), (1, 16), (0, 12)] if tier == 'quick' else [(a, o) for a in (0, 1) for o in (0, 8, 16, 24, 40)]
    for al, at in ats:
        x = ', align=%d, frame at %d' % (al, at)
        yield 'mutexes and conditions' + x, lambda R, C, al=al, at=at: uv_objects_case(R, C, al, at)
        yield 'dynamic libraries' + x, lambda R, C, al=al, at=at: uv_dl_case(R, C, al, at)
        for o in (0, 1): yield 'threads' + x, lambda R, C, al=al, at=at, o=o: uv_thread_case(R, C, al, at, o)
        yield 'call interfaces' + x, lambda R, C, al=al, at=at: ffi_cif_case(R, C, al, at)
        yield 'libffi disabled' + x, lambda R, C, al=al, at=at: ffi_off_case(R, C, al, at)
        for types in ('', 'i', 'iip', 'lfdpi', 'p' * 12):
            for ops in ('ax', 'ax px cx cx fx', 'ax fx', 'ax px px cx fx', 'ax Px fx', 'ax px Px cx fx', 'nx cx cx cx fx', 'Nx fx', 'nx', 'nx ny cy cx fx cy', 'ax px ny cy cx fy cx cx', 'ax ay py px fy cx az pz cz'):
                if tier == 'quick' and len(types) > 5 and len(ops) > 12: continue
                yield 'closures %s of (%s)%s' % (ops, types, x), lambda R, C, al=al, at=at, types=types, ops=ops.split(): ffi_closure_case(R, C, al, at, types, ops)
    rnd = random.Random(11)
    for ffi in (1, 0):
        for ops in ['', 'L', 'U', 'LU', 'IL', 'ILU', 'LUL', 'ILULU', 'LIU', 'ILUIL', 'LUU', 'LWU', 'UL'] + ([] if tier == 'quick' else [''.join(rnd.choice('LUIW') for _ in range(7)) for _ in range(60)]):
            if ops.count('L') - ops.count('U') > 1 or 'LL' in ops.replace('I', '').replace('W', ''): continue
            yield 'syslib %s, libffi %s' % (ops, 'on' if ffi else 'off'), lambda R, C, ffi=ffi, ops=ops: syslib_case(R, C, ffi, ops)
