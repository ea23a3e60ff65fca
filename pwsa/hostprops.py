"""Families of host-side cases: release, rejection, imports, namespaces, frame helpers."""
from .loadprops import *


# ---- P16: release ----------------------------------------------------------------
def leak_check(R, C, st, what, where_of=None, keep=()):
    """nothing of what pwart allocated is left, nothing was released twice or used after release"""
    C.mem(st)
    C.ob += 1
    left = [b for b in R.heap_live(st) if b not in keep]
    for b in left[:3]:
        C.prob('leak', R.origin(st, b), '%s is still allocated after %s' % (R.origin_text(st, b), what))


def release_case(R, C, mod, order):
    for st, rc, err, h, comp in load_raw(R, mod):
        if not C.ended(st): continue
        if err is not None: continue
        seq = {'compiler first': ['c', 's'], 'state first': ['s', 'c']}[order]
        sts = [st]
        for x in seq:
            nx = []
            if x == 's' and seq[0] == 'c':
                C2 = Checker(R, C.pid)      # the instance is used after its compiler is gone; what it contains is judged by P11
                sts = [instance(C2, mod, s, rc, h) for s in sts]
            for s in sts: nx += R.call(s, 'pwart_free_module_compiler' if x == 'c' else 'pwart_free_module_state', [comp if x == 'c' else rc])
            sts = [s for s in nx if C.ended(s)]
        for s in sts: leak_check(R, C, s, 'the compiler and the module state were freed (%s)' % order)


def load_raw(R, mod, **hk):
    st = R.start()
    h = Host(mod, **hk)
    res = h.setup(R, st)
    ptr, n = R.module(st, mod.slots() if isinstance(mod, Mod) else mod)
    for s in R.call(st, 'pwart_new_module_compiler', []):
        comp = s.result
        for s in R.call(s, 'pwart_set_symbol_resolver', [comp, res]):
            for s in R.call(s, 'pwart_compile', [comp, ptr, n]):
                if s.status != 'ret': yield s, None, None, h, comp; continue
                if s.result != 0: yield s, None, R.text(s, s.result) if isinstance(s.result, tuple) else '?', h, comp; continue
                for s in R.call(s, 'pwart_get_module_state', [comp]): yield s, s.result, None, h, comp


def release(tier):
    for n, m in shapes(tier):
        for o in ('compiler first', 'state first'):
            yield '%s, %s' % (n, o), lambda R, C, m=m, o=o: release_case(R, C, m, o)
    for n, m, hk in rejected(tier):
        yield 'rejected: ' + n, lambda R, C, m=m, hk=hk: reject_case(R, C, m, hk, True)


# ---- P17: rejection ----------------------------------------------------------------
def rejected(tier='quick'):
    """modules that must be refused: malformed beyond doubt, unsatisfiable, or outside what is implemented"""
    out = []
    T0 = [((), ())]

    def add(name, hk=None, ex=None, **kw):
        m = Mod(**kw)
        m.exports = allexports(m) if ex is None else ex
        out.append((name, m, hk or {}))
    full = dict(types=T0, funcs=[0], codes=fbodies(1), mems=[(1, None)], tables=[(0x70, 2, None)], globals=[(I32, 0, i32c(1))])
    add('wrong magic number', magic=0x6d736101, **full)
    add('byte-swapped magic number', magic=0x0061736d, **full)
    add('version 2', version=2, **full)
    add('version 0', version=0, **full)
    add('component version', version=0x1000d, **full)
    # imports that are not there
    d = {0: 0, 1: (0x70, 1, None), 2: (1, None), 3: (I32, 0)}
    for k in range(4):
        for before in ((), (0,), (1,), (2,), (3,), (2, 3)):
            imps = [('h', 'x%d' % j, b, d[b]) for j, b in enumerate(before)] + [('h', 'gone', k, d[k])]
            for q in (False, True):
                add('missing import of kind %d after %s%s' % (k, before, ', request left alone' if q else ''), hk=dict(missing=[('h', 'gone', k)], quiet=q), imports=imps, **full)
        add('missing builtin of kind %d' % k, hk=dict(missing=[('pwart_builtin', 'no_such_builtin', k)]), imports=[('pwart_builtin', 'no_such_builtin', k, d[k])], **full)
    for k in (4, 5, 64, 255):
        add('import of unknown kind %d' % k, ex=[], imports=[('h', 'x', k, (0, 0))], **full)
    add('builtin function imported as memory', hk=dict(missing=[('pwart_builtin', 'version', 2)]), imports=[('pwart_builtin', 'version', 2, (1, None))], types=T0)
    add('builtin memory imported as function', hk=dict(missing=[('pwart_builtin', 'native_memory', 0)]), imports=[('pwart_builtin', 'native_memory', 0, 0)], types=T0)
    add('builtin function imported as table', hk=dict(missing=[('pwart_builtin', 'version', 1)]), imports=[('pwart_builtin', 'version', 1, (0x70, 0, None))], types=T0)
    add('builtin function imported as global', hk=dict(missing=[('pwart_builtin', 'version', 3)]), imports=[('pwart_builtin', 'version', 3, (I32, 0))], types=T0)
    for lim in (5, 6, 1000):
        for mx in (None, lim, 2000):
            add('imported table too small (%d, %s)' % (lim, mx), hk=dict(tsize=4, tmax=4), imports=[('h', 't', 1, (0x70, lim, mx))], types=T0)
            for fx in (0, 1):
                add('imported memory too small (%d, %s, fixed=%d)' % (lim, mx, fx), hk=dict(mpages=4, mmax=4, fixed=fx), imports=[('h', 'm', 2, (lim, mx))], types=T0)
    # names at the limits
    for a, b in ((600, 1), (1, 600), (500, 1), (300, 300), (511, 1), (512, 1), (510, 1), (10, 513), (250, 251), (1, 498), (1, 499), (1, 500), (249, 250), (10000, 3)):
        out.append(('import names of %d and %d bytes' % (a, b), Mod(types=T0, imports=[('m' * a, 'f' * b, 0, 0)]), {}))
    for n in (256, 257, 300, 5000):
        add('export name of %d bytes' % n, ex=[('e' * n, 0, 0)], types=T0, funcs=[0], codes=fbodies(1))
    for n in (500, 511, 512, 513, 3000):
        add('custom section name of %d bytes' % n, customs=[(1, 'c' * n, b'')], **full)
    # counts
    add('more functions than bodies', types=T0, funcs=[0, 0, 0], codes=fbodies(2), ex=[])
    add('more bodies than functions', types=T0, funcs=[0], codes=fbodies(2), ex=[])
    add('functions without code section', types=T0, funcs=[0], ex=[])
    for n in (256, 257, 258, 300, 511, 512, 1000):
        add('type with %d parameters' % n, types=[([I32] * n, [])])
        add('type with %d results' % n, types=[([], [I64] * n)])
        add('second type with %d results' % n, types=[([I32], [I32]), ([I32] * 255, [I64] * n)])
    for n in (256, 300, 1000):
        add('function with %d locals' % n, types=T0, funcs=[0], codes=[([(n, I32)], body(S('tag0')))])
    add('function with 130+130 locals', types=T0, funcs=[0], codes=[([(130, I32), (130, I64)], body(S('tag0')))])
    # segments
    add('element segment past the end', elems=[(0, 0, i32c(1), [0, 0])], **full)
    add('element segment at 2^32-1', elems=[(0, 0, i32c(-1), [0])], **full)
    add('empty element segment past the end', elems=[(0, 0, i32c(3), [])], **full)
    add('element segment flags 8', elems=[(8, 0, None, [])], **full)
    add('elements past the end of an imported table', hk=dict(tsize=4, tmax=9), imports=[('h', 't', 1, (0x70, 2, None))], elems=[(0, 0, i32c(4), [0])], types=T0, funcs=[0], codes=fbodies(1))
    add('data segment past the end', data=[(0, 0, i32c(65534), b'abc')], **full)
    add('data segment at 2^32-1', data=[(0, 0, i32c(-1), b'a')], **full)
    add('data segment past the initial size of a fixed memory', mems=[(1, 4)], data=[(0, 0, i32c(65535), b'ab')], types=T0)
    add('data segment past the end of an imported memory', hk=dict(mpages=2, mmax=4), imports=[('h', 'm', 2, (1, None))], data=[(0, 0, i32c(2 * 65536), b'a')], types=T0)
    add('data segment in an empty memory', mems=[(0, None)], data=[(0, 0, i32c(0), b'a')], types=T0)
    for pages, size in ((1, 9), (1, 65536), (65536, 0x7fffffff), (65536, 0xffffff00), (65536, 0xfffffff0), (65535, 0xfffeffff)):
        # declared size larger than what is left of the module
        bs = [('imm', 1), ('imm', 0), ('op', 0x41), ('imm', 0), ('op', 0x0b), ('imm', size)] + [('b', 0x61)] * 8
        add('data segment of %d declared bytes, 8 present, memory of %d pages' % (size, pages), types=T0, mems=[(pages, None)], tail=[('imm', 11, 'byte'), ('imm', len(bs), 'size')] + bs)
    add('data segment past the end of a memory of 2^31 bytes', mems=[(32768, None)], data=[(0, 0, i32c(-0x80000000), b'a')], types=T0)
    add('data segment past the end of a memory of 2^32 bytes', mems=[(65536, None)], data=[(0, 0, i32c(-2), b'abc')], types=T0)
    add('passive data segment', data=[(1, 0, None, b'abc')], **full)
    add('data segment flags 3', data=[(3, 0, None, b'abc')], **full)
    # constant expressions
    for nm, c in (('nop', [('op', 0x01), ('op', 0x41), ('imm', 1), ('op', 0x0b)]), ('i32.and', [('op', 0x41), ('imm', 1), ('op', 0x41), ('imm', 1), ('op', 0x71), ('op', 0x0b)]),
                  ('v128.const', [('op', 0xfd), ('op', 0x0c)] + [('b', 1)] * 16 + [('op', 0x0b)]),
                  ('memory.size', [('op', 0x3f), ('imm', 0), ('op', 0x0b)]), ('deep', [x for k in range(40) for x in (('op', 0x41), ('imm', k))] + [('op', 0x6a)] * 39 + [('op', 0x0b)])):
        add('global initialised by %s' % nm, types=T0, mems=[(1, None)], globals=[(I32, 0, c)])
        add('data offset by %s' % nm, types=T0, mems=[(1, None)], data=[(0, 0, c, b'a')])
    c32, c64, cf, cd = [('op', 0x41), ('imm', 1)], [('op', 0x42), ('imm', 1)], [('op', 0x43)] + [('b', 1)] * 4, [('op', 0x44)] + [('b', 1)] * 8
    for n in (16, 17, 20, 29, 30, 31, 32, 33, 40):
        for nm, last in (('i32', c32), ('i64', c64), ('f32', cf), ('f64', cd), ('ref.func', [('op', 0xd2), ('imm', 0)]), ('ref.null', [('op', 0xd0), ('b', 0x70)])):
            add('constant expression of %d i32 and %s' % (n, nm), globals=[(I32, 0, c32 * n + last + [('op', 0x0b)])], types=T0, funcs=[0], codes=fbodies(1))
    for n in (15, 16, 17):
        for nm, last in (('i32', c32), ('i64', c64), ('f64', cd)):
            add('constant expression of %d i64 and %s' % (n, nm), globals=[(I64, 0, c64 * n + last + [('op', 0x0b)])], types=T0)
    for nm, c in (('i64 and i32', c64 + c32), ('i64 and i64', c64 * 2), ('i32 and f64', c32 + cd), ('three i32', c32 * 3), ('ref.func and i32', [('op', 0xd2), ('imm', 0)] + c32)):
        add('constant expression of ' + nm, globals=[(I64, 0, c + [('op', 0x0b)])], types=T0, funcs=[0], codes=fbodies(1))
        add('offset expression of ' + nm, mems=[(1, None)], data=[(0, 0, c + [('op', 0x0b)], b'a')], types=T0, funcs=[0], codes=fbodies(1))
    # instructions that are not implemented, and code that does not end
    def code(nm, ops, **kw):
        k = dict(types=T0 + [((I32,), (I32,))], funcs=[0], mems=[(1, None)], tables=[(0x70, 2, None)])
        k.update(kw)
        add('instruction %s' % nm, codes=[([], ops)], **k)
    for o in list(range(0x06, 0x0b)) + [0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1d, 0x1e, 0x1f, 0x27] + list(range(0xc5, 0xd0)) + [0xd3, 0xd4, 0xd5, 0xd6, 0xe0, 0xf0, 0xfa, 0xfb, 0xfd, 0xfe, 0xff]:
        code('0x%02x' % o, [('op', o), ('op', 0x0b)])
        code('0x%02x after a block' % o, [('op', 2), ('b', 0x40), ('op', 0x0b), ('op', o), ('op', 0x0b)])
    for s in (8, 9, 12, 13, 18, 19, 31, 63, 100, 127):
        code('0xfc %d' % s, [('op', 0x41), ('imm', 0)] * 3 + [('op', 0xfc), ('b', s), ('imm', 0), ('imm', 0), ('op', 0x0b)])
    for bt in (0, 1):
        code('block with type index', [('op', 2), ('b', bt), ('op', 0x0b), ('op', 0x0b)])
        code('loop with type index', [('op', 3), ('b', bt), ('op', 0x0b), ('op', 0x0b)])
        code('if with type index', [('op', 0x41), ('imm', 1), ('op', 4), ('b', bt), ('op', 0x0b), ('op', 0x0b)])
    code('stack of 33 operands', [x for k in range(33) for x in (('op', 0x41), ('imm', 1))] + [('op', 0x1a)] * 33 + [('op', 0x0b)])
    code('stack of 40 operands', [x for k in range(40) for x in (('op', 0x41), ('imm', 1))] + [('op', 0x1a)] * 40 + [('op', 0x0b)])
    code('stack of 100 operands', [x for k in range(100) for x in (('op', 0x42), ('imm', 1))] + [('op', 0x1a)] * 100 + [('op', 0x0b)])
    code('second function not implemented', body(S('tag0')), funcs=[0, 0]) 
    out[-1][1].codes = [([], body(S('tag0'))), ([], [('op', 0xfd), ('op', 0x0b)])]
    return out


def reject_case(R, C, mod, hk, leaks=False):
    for st, rc, err, h, comp in load_raw(R, mod, **hk):
        if not leaks:
            if not C.ended(st): continue
            C.ob += 1
            if err is None: C.prob('invalid module accepted', None, 'the module is accepted')
            elif not err.strip() or not err.isprintable(): C.prob('error text', None, 'the error is not a readable text: %r' % err)
            C.mem(st)
        elif st.status == 'ret' and err is not None:
            for s in R.call(st, 'pwart_free_module_compiler', [comp]):
                if C.ended(s): leak_check(R, C, s, 'the compiler of the rejected module was freed')


def rejection(tier):
    for n, m, hk in rejected(tier):
        yield n, lambda R, C, m=m, hk=hk: reject_case(R, C, m, hk)


# ---- P12: imports --------------------------------------------------------------------
def import_mods():
    """(name, module, host options)"""
    T0 = [((), ())]
    d = {0: 0, 1: (0x70, 1, None), 2: (1, None), 3: (I32, 0)}
    out = []
    base = dict(types=T0, funcs=[0, 0], codes=fbodies(2))
    def add(nm, imps, hk=None, **kw):
        k = dict(base); k.update(kw)
        m = Mod(imports=imps, **k)
        m.exports = allexports(m)
        out.append((nm, m, hk or {}))
    for k in range(4):
        add('one import of kind %d' % k, [('mod', 'field', k, d[k])])
        add('same field as every kind, %d first' % k, [('m', 'f', (k + j) % 4, d[(k + j) % 4]) for j in range(4)])
        add('same field of several modules, kind %d' % k, [('a', 'f', k, d[k]), ('b', 'f', k, d[k]), ('ab', 'f', k, d[k]), ('', 'f', k, d[k])])
        add('several fields of one module, kind %d' % k, [('a', f, k, d[k]) for f in ('f', 'g', 'ff', 'fg', '', 'F')])
        add('module and field exchanged, kind %d' % k, [('x', 'y', k, d[k]), ('y', 'x', k, d[k]), ('xy', '', k, d[k]), ('', 'xy', k, d[k])])
        add('the same import twice, kind %d' % k, [('a', 'f', k, d[k]), ('a', 'g', k, d[k]), ('a', 'f', k, d[k])])
        add('shorter names after longer ones, kind %d' % k, [('longmodulename', 'longfieldname', k, d[k]), ('a', 'b', k, d[k]), ('longmodulenam', 'longfieldnam', k, d[k])])
        for a, b in ((200, 200), (1, 490), (490, 1), (480, 10), (249, 249), (100, 127)):
            add('names of %d and %d bytes, kind %d' % (a, b, k), [('m' * a, 'f' * b, k, d[k]), ('M' * a, 'F' * b, k, d[k])])
        add('non-ascii names, kind %d' % k, [('m\xe4\xff'.encode('latin1'), 'f\x80\x01'.encode('latin1'), k, d[k])])
    add('many imports', [('m%d' % (j % 3), 'f%d' % j, j % 4, d[j % 4]) for j in range(60)])
    add('table limits met exactly', [('h', 't', 1, (0x70, 10, None)), ('h', 'u', 1, (0x70, 0, None)), ('h', 'v', 1, (0x6f, 10, 20))], dict(tsize=10, tmax=10))
    add('memory limits met exactly', [('h', 't', 2, (3, None)), ('h', 'u', 2, (0, None)), ('h', 'v', 2, (3, 10))], dict(mpages=3, mmax=3))
    return out


def rb(t): return t.decode('latin1') if isinstance(t, bytes) else t


def import_case(R, C, mod, hk):
    norm = [(rb(m), rb(f), k, d) for m, f, k, d in mod.imports]
    sl = mod.slots()
    exp = mod
    mod2 = Mod(**{k: v for k, v in mod.__dict__.items()}); mod2.imports = norm
    st0 = R.start()
    h = Host(mod2, **hk)
    res = h.setup(R, st0)
    ptr, n = R.module(st0, sl)
    for s in R.call(st0, 'pwart_new_module_compiler', []):
        comp = s.result
        for s in R.call(s, 'pwart_set_symbol_resolver', [comp, res]):
            for s in R.call(s, 'pwart_compile', [comp, ptr, n]):
                if not C.ended(s): continue
                if s.result != 0:
                    C.ob += 1; C.prob('valid module rejected', None, 'a module whose imports are all provided is rejected: %s' % (R.text(s, s.result),)); continue
                reqs = s.user.get('reqs', ())
                want = [(m, f, k) for m, f, k, d in norm]
                got = [r[1:] for r in reqs]
                C.ob += 1
                for w in want:
                    C.ob += 1
                    if w not in got: C.prob('import request', None, 'import %r.%r of kind %d is not requested from the resolver; requested: %s' % (w[0][:30], w[1][:30], w[2], sh(got)))
                for r in reqs:
                    C.ob += 1
                    if r[0] != res: C.prob('import request', None, 'the resolver is called with %s as itself' % sh(r[0]))
                    if r[1:] not in want: C.prob('import request', None, 'the resolver is asked for %s, which the module does not import' % sh(r[1:]))
                for s2 in R.call(s, 'pwart_get_module_state', [comp]):
                    rc = s2.result
                    for s2 in R.call(s2, 'pwart_free_module_compiler', [comp]):
                        if C.ended(s2): instance(C, mod2, s2, rc, h)


BUILTINS = None


def builtin_list(R, st):
    """(state, [(name, kind, value)])"""
    c = st.obj(('CNT',), 'undef')
    (s,) = R.call(st, 'pwart_get_builtin_symbols', [c])
    n = s.get(('CNT',), 0, 4)
    a = s.result
    sz = R.p.sz['pwart_named_symbol']
    out = []
    for k in range(n):
        F = lambda f, z: R.field(s, ('p', a[1], a[2] + k * sz), 'pwart_named_symbol', f, z)
        out.append((R.text(s, F('name', 8)), F('kind', 1), F('val', 8)))
    return s, out


def builtin_case(R, C, with_resolver, modname):
    st = R.start()
    st, bl = builtin_list(R, st)
    C.ob += 1
    if len({(n, k) for n, k, v in bl}) != len(bl) or any(v == 0 for n, k, v in bl): C.prob('builtin symbols', None, 'the builtin symbols are not distinct or not all defined')
    d = {0: 0, 2: (1, None)}
    T0 = [((), ())]
    for nm, kind, val, dd in [(nm, kind, val, x) for nm, kind, val in bl for x in ((d[kind],) if kind != 2 else ((1, None), (1, 2), (0, 0), (3, 65536), (0, None)))]:
        m = Mod(types=T0, imports=[(modname, nm, kind, dd)], exports=[('x', kind, 0)])
        for has in ((0, 1) if with_resolver else (0,)):
            s0 = st.copy()
            h = Host(m)
            res = h.setup(R, s0)
            if not has: h.ptr.clear()
            ptr, n = R.module(s0, m.slots())
            (s,) = R.call(s0, 'pwart_new_module_compiler', [])
            comp = s.result
            if with_resolver: (s,) = R.call(s, 'pwart_set_symbol_resolver', [comp, res])
            for s in R.call(s, 'pwart_compile', [comp, ptr, n]):
                if not C.ended(s): continue
                C.mem(s)
                C.ob += 1
                want = None
                if has: want = h.ptr[modname, nm, kind]
                elif modname == 'pwart_builtin': want = val
                if s.result != 0:
                    if want is not None: C.prob('builtin import', None, 'import of %s.%s is rejected' % (modname, nm))
                    continue
                if want is None: C.prob('builtin import', None, 'import of %s.%s succeeds although nobody provides it' % (modname, nm)); continue
                for s in R.call(s, 'pwart_get_module_state', [comp]):
                    for s in R.call(s, 'pwart_get_export_function' if kind == 0 else 'pwart_get_export_memory', [s.result, R.str(s, 'x')]):
                        C.eq(s, 'imported builtin %s' % nm, s.result, want, 64)


def imports(tier):
    for n, m, hk in import_mods(): yield n, lambda R, C, m=m, hk=hk: import_case(R, C, m, hk)
    for r in (True, False):
        for n in ('pwart_builtin', 'pwart_builtin2', 'pwart_builti', 'Pwart_builtin', ''):
            yield 'builtins imported from "%s" %s resolver' % (n, 'with' if r else 'without'), lambda R, C, r=r, n=n: builtin_case(R, C, r, n)
    for n, m, hk in rejected(tier):
        if 'import' in n: yield n, lambda R, C, m=m, hk=hk: reject_case(R, C, m, hk)
