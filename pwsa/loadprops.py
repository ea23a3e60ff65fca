"""What loading a module must produce, read off the binary description and compared with the abstract
state the loader leaves behind (through the public API)."""
import itertools
from .modrun import *
from .val import valuations, Undef, NoMeaning

K = {'f': 0, 't': 1, 'm': 2, 'g': 3}


def differs(a, b, bits, conds=()):
    """True: some valuation tells the values apart; False: equal; None: no conclusion"""
    if a == b: return False
    if isinstance(a, int) and isinstance(b, int): return (a ^ b) & mask(bits) != 0
    if any(isinstance(x, tuple) and x[0] in ('freed',) for x in (a, b)): return True
    n = 0
    for v in valuations(list(conds), 3, want=12):
        try:
            x, y = v.ev(a) & mask(bits), v.ev(b) & mask(bits)
        except (Undef, NoMeaning):
            continue
        n += 1
        if x != y: return True
    return None if not n else False


def conds(st): return [(c, True) for c, t in st.assumed.items() if t == 1]


def ref_const(code, gvals):
    """value and width of a constant expression"""
    stk = []
    i = 0
    while code[i] != ('op', 0x0b):
        op = code[i][1]
        if op in (0x41, 0x42):
            w = 32 if op == 0x41 else 64
            v = code[i + 1][1]
            stk.append((v & mask(w) if isinstance(v, int) else v if bitsof(v) == w else mkcast('trunc' if w == 32 else 'sext', bitsof(v), w, v), w)); i += 2
        elif op in (0x43, 0x44):
            n = 4 if op == 0x43 else 8
            stk.append((code[i + 1][1], 8 * n)); i += 1 + n
        elif op == 0x23: stk.append(gvals[code[i + 1][1]]); i += 2
        elif op == 0xd0: stk.append((0, 64)); i += 2
        elif op == 0xd2: stk.append((('func', code[i + 1][1]), 64)); i += 2
        else:
            o, w = {0x6a: ('add', 32), 0x6b: ('sub', 32), 0x6c: ('mul', 32), 0x7c: ('add', 64), 0x7d: ('sub', 64), 0x7e: ('mul', 64)}[op]
            b = stk.pop()[0]; a = stk.pop()[0]
            stk.append((mkbin(o, w, a, b), w)); i += 1
    return stk[-1]


class Host:
    """what the embedder offers for the imports of a module"""

    def __init__(self, mod, tsize=10, tmax=20, mpages=3, mmax=10, missing=(), mods=None, fixed=1, quiet=False):
        self.mod = mod
        self.fixed, self.quiet = fixed, quiet     # quiet: the resolver leaves the request alone for what it does not know
        self.missing = missing
        self.ptr = {}
        self.tsize, self.tmax, self.mpages, self.mmax = tsize, tmax, mpages, mmax

    def setup(self, R, st):
        p = R.p
        for k, (m, f, kind, d) in enumerate(self.mod.imports):
            if (m, f, kind) in self.ptr: continue
            if kind == 0: q = ('p', ('IMP', k), 0)
            elif kind == 1:
                q = st.obj(('HT', k), 'zero')
                st.obj(('HTE', k), 'lazy')
                for fl, s, v in (('elem_type', 1, d[0]), ('initial', 4, self.tsize), ('maximum', 4, self.tmax), ('size', 4, self.tsize), ('entries', 8, ('p', ('HTE', k), 0))):
                    st.put(('HT', k), p.off('Table', fl), s, v)
            elif kind == 2:
                q = st.obj(('HM', k), 'zero')
                st.obj(('HMB', k), 'lazy')
                for fl, s, v in (('initial', 4, self.mpages), ('maximum', 4, self.mmax), ('pages', 4, self.mpages), ('bytes', 8, ('p', ('HMB', k), 0)), ('fixed', 1, self.fixed)):
                    st.put(('HM', k), p.off('Memory', fl), s, v)
            else:
                q = st.obj(('HG', k), 'lazy')
            self.ptr[m, f, kind] = q
        res = st.obj(('RESOLVER',), 'zero')
        st.put(('RESOLVER',), p.o['pwart_symbol_resolver', 'resolve'], 8, R.fn('resolve'))

        def resolve(s, a, i):
            b, o = aspair(s.res(a[1]))
            F = lambda f, n: s.res(s.get(b, o + p.o['pwart_symbol_resolve_request', f], n))
            r = (R.text(s, F('import_module', 8)), R.text(s, F('import_field', 8)), F('kind', 4))
            s.user['reqs'] = s.user.get('reqs', ()) + ((a[0],) + r,)
            v = self.ptr.get(r)
            if self.quiet and (v is None or r in self.missing): return None
            s.put(b, o + p.o['pwart_symbol_resolve_request', 'result'], 8, v if v is not None and r not in self.missing else 0)
            return None
        R.host['resolve'] = resolve
        return res


def load(R, mod, host=True, api='compile', st=None, cut=None, hostmod=None, **hk):
    """-> list of (state, runtime context or None, error text or None, host)"""
    st = st or R.start()
    h = Host(hostmod or mod, **hk)
    res = h.setup(R, st)
    sl = mod.slots() if isinstance(mod, Mod) else mod
    ptr, n = R.module(st, sl if cut is None else sl[:cut])
    out = []
    for s in R.call(st, 'pwart_new_module_compiler', []):
        comp = s.result
        if host:
            (s,) = R.call(s, 'pwart_set_symbol_resolver', [comp, res])
        for s in R.call(s, 'pwart_compile', [comp, ptr, n]):
            if s.status != 'ret':
                out.append((s, None, None, h)); continue
            if s.result != 0:
                t = R.text(s, s.result) if isinstance(s.result, tuple) else '?'
                for s2 in R.call(s, 'pwart_free_module_compiler', [comp]): out.append((s2, None, t, h))
                continue
            for s in R.call(s, 'pwart_get_module_state', [comp]):
                rc = s.result
                for s2 in R.call(s, 'pwart_free_module_compiler', [comp]): out.append((s2, rc, None, h))
    return out


class Checker:
    def __init__(self, R, pid):
        self.R = R
        self.pid = pid
        self.problems = []      # (key, where, msg, shape)
        self.ob = 0             # obligations decided
        self.und = 0
        self.states = 0
        self.shape = ''
        self.broken = []
        self.place = 'pwart (module loader)'

    def prob(self, key, where, msg): self.problems.append((key, where or self.place, msg, self.shape))

    def eq(self, st, what, got, want, bits, where=None):
        d = differs(got, want, bits, conds(st))
        if d is None and isinstance(got, tuple) and got[0] == 'cat' and any(k[1] == (None,) for k in got[2]) and 'None,' not in repr(want): d = True   # bytes nobody has written
        if d is None: self.und += 1; return
        self.ob += 1
        if d: self.prob(what, where() if callable(where) else where, '%s is %s instead of %s' % (what, sh(got), sh(want)))

    def mem(self, st, allow=()):
        """no wrong memory access was found on the way"""
        self.ob += 1
        for e in self.R.bad(st):
            if e[0] == 'exit': self.prob('exit', '%s:%s (%s)' % (e[2], e[3], ' > '.join(e[4][-3:])), 'the process is ended (%s)' % (' > '.join(e[4])))
            elif e[1] not in allow: self.prob(e[1], '%s:%s (%s)' % e[4:7], '%s: %s at offset %s' % (e[1], sh(e[2]), sh(e[3])))

    def ended(self, st):
        """-> True when the state returned normally"""
        self.states += 1
        if st.status == 'ret': return True
        if st.status not in ('exit', 'crash'): self.und += 1
        self.mem(st)
        return False


def sh(t, n=120):
    s = repr(t)
    return s if len(s) < n else s[:n] + '...'


def instance(C, mod, st, rc, h):
    """compares the loaded instance with the description"""
    R = C.R
    p = R.p
    bodies = R.bodies(st)
    imp = {k: [] for k in range(4)}
    for m, f, kind, d in mod.imports: imp[kind].append((h.ptr[m, f, kind], d))
    ni = [len(imp[k]) for k in range(4)]
    get = {0: 'pwart_get_export_function', 1: 'pwart_get_export_table', 2: 'pwart_get_export_memory', 3: 'pwart_get_export_global'}
    res = {}
    for n, k, i in mod.exports:
        if (n, k) in res: continue
        o = R.call(st, get[k], [rc, R.str(st, n)])
        if len(o) != 1 or o[0].status != 'ret': C.und += 1; continue
        st = o[0]
        res[n, k] = st.result
        C.ob += 1
        if st.result == 0: C.prob('export lookup', None, 'export %r of kind %d is not found' % (n[:40], k))
    # names that do not exist, or exist for another kind
    for k in range(4):
        names = {n for n, k2, i in mod.exports if k2 == k}
        for n in sorted({n for n, k2, i in mod.exports} | {'nosuch'} | {n + 'x' for n, _, _ in mod.exports[:2]} | {n[:-1] for n, _, _ in mod.exports[:2]} - {''}):
            if n in names: continue
            o = R.call(st, get[k], [rc, R.str(st, n)])
            if len(o) != 1 or o[0].status != 'ret': C.und += 1; continue
            st = o[0]
            C.ob += 1
            if st.result != 0: C.prob('export lookup', None, '%s(%r) finds something although the module exports no such name of that kind' % (get[k], n))
    fptr = {}

    def func_ok(st, i, v, what, where=None):
        """v is the callable of function index i"""
        C.ob += 1
        if i < ni[0]:
            if v != imp[0][i][0]: C.prob(what, where, '%s is not imported function %d but %s' % (what, i, sh(v)))
            return
        b = aspair(v)[0] if isinstance(v, tuple) else None
        tag = bodies.get(b) if b in bodies else None
        if b not in bodies or v[2] != 0:
            C.prob(what, where, '%s is %s, not the code of function %d' % (what, sh(v), i))
        elif tag is not None and tag != ('s', 64, ('in', 'tag%d' % (i - ni[0]))):
            C.prob(what, where, '%s is the code of another function (%s) than function %d' % (what, sh(tag), i))
        else:
            fptr.setdefault(i, v)
            if fptr[i] != v: C.prob(what, where, '%s is not the same as other references to function %d' % (what, i))
    # globals
    gvals = []
    for q, d in imp[3]:
        gvals.append((st.get(q[1], 0, tsize(d[0])), 8 * tsize(d[0])))
    gv2 = []
    for t, mut, init in mod.globals:
        gv2.append(ref_const(init, gvals + gv2))
    seen = {}
    for n, k, i in mod.exports:
        v = res.get((n, k))
        if not v: continue
        if [x for x in mod.exports if x[0] == n and x[1] == k][0][2] != i: continue
        if k == 0: func_ok(st, i, v, 'exported function')
        elif k == 3:
            if i < ni[3]:
                C.ob += 1
                if v != imp[3][i][0]: C.prob('exported global', None, 'export of imported global %d is %s' % (i, sh(v)))
                continue
            t = mod.globals[i - ni[3]][0]
            want, w = gv2[i - ni[3]]
            b, o = aspair(v)
            got = R.load(st, v, 0, w // 8)
            if isinstance(want, tuple) and want[0] == 'func': func_ok(st, want[1], got, 'value of a funcref global', R.writer(st, b, o))
            else: C.eq(st, 'initial value of a global', got, want, w, lambda: R.writer(st, b, o))
            seen.setdefault(b, []).append((o, w // 8, i))
            if b in st.size and isinstance(o, int): 
                C.ob += 1
                if o < 0 or o + w // 8 > st.size[b]: C.prob('global storage', None, 'global %d lies outside its buffer' % i)
        elif k == 1:
            C.ob += 1
            if i < ni[1]:
                if v != imp[1][i][0]: C.prob('exported table', None, 'export of imported table %d is %s' % (i, sh(v)))
            else:
                d = mod.tables[i - ni[1]]
                for f, s, w in (('elem_type', 1, d[0]), ('initial', 4, d[1]), ('size', 4, d[1])) + ((('maximum', 4, d[2]),) if d[2] is not None else ()):
                    C.eq(st, 'table field %s' % f, R.field(st, v, 'Table', f, s), w, 8 * s, lambda: R.writer(st, aspair(v)[0], aspair(v)[1] + p.off('Table', f)))
            ents = R.field(st, v, 'Table', 'entries', 8)
            want = {}
            for fl, tb, off, items in mod.elems:
                if fl in (1, 3, 5, 7): continue
                if (tb if fl in (2, 6) else 0) != i: continue
                o0 = ref_const(off, gvals)[0]
                if not isinstance(o0, int):
                    o0 = st.res(o0)
                for j, x in enumerate(items): want[o0 + j if isinstance(o0, int) else mkbin('add', 64, mkcast('zext', 32, 64, o0), j)] = x
            eb, eo = aspair(ents)
            size = st.res(R.field(st, v, 'Table', 'size', 4))
            if i >= ni[1] and isinstance(size, int) and eb in st.size:
                C.ob += 1
                if st.size[eb] < 8 * size: C.prob('table storage', None, 'table %d has %d entries but storage for %d' % (i, size, st.size[eb] // 8))
            rng = range(size) if isinstance(size, int) and i >= ni[1] and all(isinstance(x, int) for x in want) else ()
            for j in list(rng) + [x for x in want if x not in rng]:
                jo = 8 * j if isinstance(j, int) else mkbin('mul', 64, j, 8)
                try: got = R.load(st, ents, jo, 8)
                except Broken: C.und += 1; continue
                where = R.writer(st, eb, jo)
                x = want.get(j)
                if x is None: C.eq(st, 'table entry', got, 0, 64, where)
                elif isinstance(x, list):
                    c = ref_const(x, gvals)[0]
                    if isinstance(c, tuple) and c[0] == 'func': func_ok(st, c[1], got, 'table entry', where)
                    else: C.eq(st, 'table entry', got, c, 64, where)
                else: func_ok(st, x, got, 'table entry', where)
        elif k == 2:
            C.ob += 1
            if i < ni[2]:
                if v != imp[2][i][0]: C.prob('exported memory', None, 'export of imported memory %d is %s' % (i, sh(v)))
            else:
                d = mod.mems[i - ni[2]]
                for f, s, w in (('initial', 4, d[0]), ('pages', 4, d[0])) + ((('maximum', 4, d[1]),) if d[1] is not None else ()):
                    C.eq(st, 'memory field %s' % f, R.field(st, v, 'Memory', f, s), w, 8 * s, lambda: R.writer(st, aspair(v)[0], aspair(v)[1] + p.off('Memory', f)))
                C.ob += 1
                fx = R.field(st, v, 'Memory', 'fixed', 1)
                if isinstance(fx, int) and bool(fx) != (d[1] is not None): C.prob('memory field fixed', None, 'memory with%s maximum is%s marked fixed' % ('' if d[1] is not None else 'out', '' if fx else ' not'))
            by = R.field(st, v, 'Memory', 'bytes', 8)
            C.ob += 1
            if by == 0: C.prob('memory storage', None, 'memory %d has no storage' % i); continue
            mb, mo = aspair(by)
            want = {}
            symb = False
            for fl, mem, off, bs in mod.data:
                if (mem if fl == 2 else 0) != i: continue
                o0 = st.res(ref_const(off, gvals)[0])
                if not isinstance(o0, int): symb = True
                for j, x in enumerate(bs): want[mkbin('add', 64, mkcast('zext', 32, 64, o0) if not isinstance(o0, int) else o0, j)] = x
            for o, x in want.items():
                try: got = R.load(st, by, o, 1)
                except Broken: C.und += 1; continue
                C.eq(st, 'byte of a data segment', got, x, 8, lambda: R.writer(st, mb, o))
            if i >= ni[2]:
                C.ob += 1
                pages = R.field(st, v, 'Memory', 'pages', 4)
                if mb in st.size and isinstance(pages, int) and st.size[mb] < pages << 16: C.prob('memory storage', None, 'memory %d of %d pages has storage for %d bytes' % (i, pages, st.size[mb]))
                if not symb:
                    C.ob += 1
                    if st.kind.get(mb) == 'undef' and mb not in st.ver and mb[0] == 'h' and pages != 0 and st.default(mb, 0, 1) != 0 and not any(e[0] == 'memset' and e[1][0] == mb for e in st.trace()): C.prob('memory content', None, 'memory %d is not zero outside the data segments' % i)
                    for o, (s, x) in st.mem.get(mb, {}).items():
                        if not isinstance(o, int) or x == 0: continue
                        bad = [o + j for j in range(s) if o + j not in want and not (isinstance(x, int) and x >> 8 * j & 255 == 0)]
                        if bad: C.prob('memory content', R.writer(st, mb, o), 'memory %d is not zero at %s, outside every data segment' % (i, bad[0])); break
    for b, l in seen.items():
        l = sorted(set(l))
        C.ob += 1
        for (o, s, i), (o2, s2, i2) in zip(l, l[1:]):
            if i != i2 and isinstance(o, int) and isinstance(o2, int) and o + s > o2: C.prob('global storage', None, 'globals %d and %d overlap' % (i, i2))
    # start function
    for s2 in R.call(st, 'pwart_get_start_function', [rc]):
        if s2.status != 'ret': C.und += 1; continue
        st = s2
        if mod.start is None:
            C.ob += 1
            if s2.result != 0: C.prob('start function', None, 'a start function is reported although the module has none')
        else: func_ok(s2, mod.start, s2.result, 'start function')
    # inspection
    ib = st.obj(('INSPECT',), 'undef')
    for s2 in R.call(st, 'pwart_inspect_module_state', [rc, ib]):
        if s2.status != 'ret': C.und += 1; continue
        st = s2
        o = {k[1]: v for k, v in p.o.items() if k[0] == 'pwart_inspect_result1'}
        nm = ni[2] + len(mod.mems)
        nt = ni[1] + len(mod.tables)
        C.eq(st, 'inspected table size', st.get(('INSPECT',), o['table_entries_count'], 4), 0 if not nt else h.tsize if ni[1] else mod.tables[0][1], 32)
        C.eq(st, 'inspected memory size', st.get(('INSPECT',), o['memory_size'], 4), 0 if not nm else mkbin('mul', 32, h.mpages if ni[2] else mod.mems[0][0] if isinstance(mod.mems[0][0], int) else mkcast('trunc', 64, 32, mod.mems[0][0]), 65536), 32)
        for n, k, i in mod.exports:
            if k == 2 and i == 0 and res.get((n, k)): C.eq(st, 'inspected memory address', st.get(('INSPECT',), o['memory'], 8), R.field(st, res[n, k], 'Memory', 'bytes', 8), 64)
            if k == 3 and i >= ni[3] and res.get((n, k)):
                gb, go = aspair(st.res(st.get(('INSPECT',), o['globals_buffer'], 8)))
                gn = st.res(st.get(('INSPECT',), o['globals_buffer_size'], 4))
                vb, vo = aspair(res[n, k])
                C.ob += 1
                if vb != gb: C.prob('inspected globals', None, 'global %d is not in the inspected globals buffer' % i)
                elif isinstance(gn, int) and isinstance(go, int) and isinstance(vo, int) and not go <= vo <= go + gn - tsize(mod.globals[i - ni[3]][0]): C.prob('inspected globals', None, 'global %d at %d is outside the inspected globals buffer of %d bytes' % (i, vo - go, gn))
            if k == 1 and i == 0 and res.get((n, k)): C.eq(st, 'inspected table address', st.get(('INSPECT',), o['table_entries'], 8), R.field(st, res[n, k], 'Table', 'entries', 8), 64)
        C.eq(st, 'inspected symbol resolver', st.get(('INSPECT',), o['symbol_resolver'], 8), ('p', ('RESOLVER',), 0), 64)
    ud = ('s', 64, ('in', 'userdata'))
    for s2 in R.call(st, 'pwart_module_state_set_user_data', [rc, ud]):
        for s3 in R.call(s2, 'pwart_module_state_get_user_data', [rc]):
            st = s3
            C.eq(s3, 'user data', s3.result, ud, 64)
    C.mem(st)
    return st


def segment_bounds(C, mod, st, h, accepted):
    """segments at symbolic places: accepted exactly when they lie inside"""
    from .val import Val
    gv = [(st.get(h.ptr[m, f, k][1], 0, tsize(d[0])), 8 * tsize(d[0])) for m, f, k, d in mod.imports if k == 3]
    cs = conds(st) + [(c, False) for c, t in st.assumed.items() if t == 0]
    found = False
    for kind, segs in (('data', mod.data), ('element', mod.elems)):
        for e in segs:
            fl, ix, off, it = e
            if fl & 1: continue
            ix = ix if fl & 2 else 0
            o = st.res(ref_const(off, gv)[0])
            if isinstance(o, int): continue
            ni = sum(1 for i in mod.imports if i[2] == (2 if kind == 'data' else 1))
            if kind == 'data': size = (h.mpages if ix < ni else mod.mems[ix - ni][0]) * 65536
            else: size = h.tsize if ix < ni else mod.tables[ix - ni][1]
            n = len(it)
            for x in sorted({0, 1, size - n, size - n + 1, size - 1, size, size + 1, size + 70000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000 - n, 0xffff0000}):
                if not 0 <= x < 1 << 32: continue
                v = Val((7, x)); v.preset(o, x)
                try:
                    if any(bool(v.ev(t)) != tr for t, tr in cs): continue
                except (Undef, NoMeaning): continue
                found = True
                C.ob += 1
                if accepted and x + n > size: C.prob('invalid module accepted', None, 'a module whose %s segment of length %d lies at %d of %d is accepted' % (kind, n, x, size))
                elif not accepted and x + n <= size: C.prob('valid module rejected', None, 'a module whose %s segment of length %d lies at %d of %d is rejected' % (kind, n, x, size))
    return found


# ---- shapes ---------------------------------------------------------------------
def S(n, bits=64): return sym(n, bits)


def fbodies(n, extra=()): return [([], body(S('tag%d' % k), extra)) for k in range(n)]


def allexports(m):
    cnt = [0] * 4
    for _, _, k, _ in m.imports:
        if k < 4: cnt[k] += 1
    cnt[0] += len(m.funcs); cnt[1] += len(m.tables); cnt[2] += len(m.mems); cnt[3] += len(m.globals)
    return [('%s%d' % ('ftmg'[k], i), k, i) for k in range(4) for i in range(cnt[k])]


def shapes(tier='quick'):
    out = []

    def add(name, ex=None, **kw):
        m = Mod(**kw)
        m.exports = allexports(m) if ex is None else ex
        out.append((name, m))
    T0 = [((), ())]
    T3 = [((), ()), ((I32,), (I32,)), ((I64, F64), ())]
    for n in (0, 1, 2, 3, 8, 40):
        add('%d functions' % n, types=T0, funcs=[0] * n, codes=fbodies(n))
    add('exports in reverse', types=T0, funcs=[0] * 5, codes=fbodies(5), ex=[('x%d' % k, 0, 4 - k) for k in range(5)])
    add('functions of several types', types=T3, funcs=[2, 0, 1, 2], codes=[([], body(S('tag%d' % k), [('op', 0x20), ('imm', 0)] if k == 2 else [])) for k in range(4)])
    # imports in every order
    d = {'f': 0, 't': (0x70, 5, None), 'm': (1, None), 'g': (I32, 0)}
    for perm in list(itertools.permutations('fgmt')) + [tuple('fgfgf'), tuple('ggff'), tuple('ffgg'), tuple('mfmf'), tuple('tgt'), tuple('f'), tuple('g'), tuple('m'), tuple('t'), tuple('ffff'), tuple('gggg')]:
        imps = [('env%d' % (k % 2), 'n%d' % k, K[c], d[c]) for k, c in enumerate(perm)]
        add('imports %s' % ''.join(perm), types=T0, imports=imps, funcs=[0, 0], codes=fbodies(2), globals=[(I32, 0, i32c(S('g0', 32)))],
            tables=[(0x70, 3, None)], mems=[(1, 2)], elems=[(2, perm.count('t'), i32c(0), [0, perm.count('f') + 1])],
            data=[(2, perm.count('m'), i32c(7), b'ab')])
    add('imports only', types=T0, imports=[('a', 'f', 0, 0), ('a', 'g', 3, (I64, 1))])
    add('imports re-exported', types=T0, imports=[('a', 'f', 0, 0), ('a', 'g', 3, (I64, 1)), ('a', 'm', 2, (1, 4)), ('a', 't', 1, (0x70, 2, 9))], funcs=[0], codes=fbodies(1), start=0)
    # tables and element segments
    for nt, fi in itertools.product((1, 2, 3), (0, 2)):
        im = [('h', 'f%d' % k, 0, 0) for k in range(fi)]
        nf = fi + 3
        for off, on in ((i32c(0), '0'), (i32c(2), '2'), ([('op', 0x41), ('imm', 5), ('op', 0x41), ('imm', 4), ('op', 0x6b), ('op', 0x0b)], '5-4'),
                        ([('op', 0x41), ('imm', 2), ('op', 0x41), ('imm', 2), ('op', 0x6c), ('op', 0x0b)], '2*2')):
            for tb in range(nt):
                add('element segment at %s of table %d/%d, %d imports' % (on, tb, nt, fi), types=T0, imports=im, funcs=[0] * 3, codes=fbodies(3), tables=[(0x70, 8 + k, None if k % 2 else 20) for k in range(nt)],
                    elems=[(0 if tb == 0 else 2, tb, off, [nf - 1, 0, fi, nf - 2])])
    add('overlapping element segments', types=T0, funcs=[0] * 4, codes=fbodies(4), tables=[(0x70, 6, None)], elems=[(0, 0, i32c(0), [0, 1, 2, 3]), (0, 0, i32c(2), [0]), (2, 0, i32c(3), [1, 1])])
    add('empty element segment', types=T0, funcs=[0], codes=fbodies(1), tables=[(0x70, 2, None)], elems=[(0, 0, i32c(0), []), (0, 0, i32c(1), [0])])
    add('table of size 0', types=T0, funcs=[0], codes=fbodies(1), tables=[(0x70, 0, None), (0x70, 2, None)], elems=[(2, 1, i32c(1), [0])])
    add('externref table', types=T0, funcs=[0], codes=fbodies(1), tables=[(0x6f, 3, None), (0x70, 2, None)], elems=[(2, 1, i32c(1), [0])])
    for fl in (1, 3, 5, 7):
        add('passive or declared element segment (flags %d)' % fl, types=T0, funcs=[0] * 2, codes=fbodies(2), tables=[(0x70, 4, None)],
            elems=[(fl, 0, None, [1, 0] if fl < 4 else [rfuncc(1), rfuncc(0)]), (0, 0, i32c(2), [1])])
    for fl in (4, 6):
        add('element segment of expressions (flags %d)' % fl, types=T0, funcs=[0] * 2, codes=fbodies(2), tables=[(0x70, 4, None)], elems=[(fl, 0, i32c(1), [rfuncc(1), rnullc(0x70), rfuncc(0)])])
    add('elements of an imported table', types=T0, imports=[('h', 'f', 0, 0), ('h', 't', 1, (0x70, 4, None))], funcs=[0] * 2, codes=fbodies(2), elems=[(0, 0, i32c(1), [2, 0, 1])])
    add('offset from an imported global', types=T0, imports=[('h', 'g', 3, (I32, 0)), ('h', 'h', 3, (I32, 0))], funcs=[0], codes=fbodies(1), mems=[(1, None)], data=[(0, 0, ggetc(1), b'hey')])
    # memories and data
    for mm in ([(1, None)], [(1, 3)], [(0, None)], [(0, 2)], [(2, 2)], [(1, None), (2, 5)], [(3, 4), (1, None), (0, 1)], [(S('ini', 64), None)], [(S('ini', 64), S('max', 64))]):
        add('memories %s' % sh(mm), types=T0, funcs=[0], codes=fbodies(1), mems=mm)
    add('data segments', types=T0, funcs=[0], codes=fbodies(1), mems=[(1, None), (1, 1)], data=[(0, 0, i32c(16), b'hello'), (2, 1, i32c(3), b'xy'), (2, 0, i32c(18), b'LL'), (0, 0, i32c(100), b''), (0, 0, i32c(65530), b'abcdef')])
    add('long data segment', types=T0, mems=[(1, None)], data=[(0, 0, i32c(5), bytes(range(1, 256)) + bytes(range(1, 200)))])
    for pages, off in ((65536, -6), (65536, 0), (32768, 0x7ffffffa), (32769, -0x80000000), (65535, -65542), (65536, 0x7fffffff)):
        for mx in (None, 65536): add('data at the end of a memory of %d pages (%s), at %d' % (pages, mx, off), types=T0, mems=[(pages, mx)], data=[(0, 0, i32c(off), b'abcdef')])
    add('data at a symbolic place', types=T0, mems=[(1, None)], data=[(0, 0, i32c(S('off', 32)), b'qwertzuiop')])
    add('elements at a symbolic place', types=T0, funcs=[0] * 3, codes=fbodies(3), tables=[(0x70, 8, None)], elems=[(0, 0, i32c(S('off', 32)), [2, 0, 1])])
    add('data with flag 2 and memory 0, data count', types=T0, mems=[(1, None)], data=[(2, 0, i32c(5), b'abc')], funcs=[0], codes=fbodies(1), datacount=1)
    add('data of an imported memory', types=T0, imports=[('h', 'm', 2, (1, None))], mems=[(1, None)], data=[(2, 1, i32c(5), b'abc'), (0, 0, i32c(9), b'de')])
    add('data offset from arithmetic', types=T0, mems=[(1, None)], data=[(0, 0, [('op', 0x41), ('imm', 100), ('op', 0x41), ('imm', 7), ('op', 0x6a), ('op', 0x0b)], b'abc')])
    # globals
    gi = {I32: i32c(S('v', 32)), I64: i64c(S('v')), F32: f32c(S('v', 32)), F64: f64c(S('v')), REF: rnullc(), FUNC: rnullc(FUNC)}
    for t in gi:
        for mut in (0, 1):
            add('global %s mut %d' % (TNAME[t], mut), types=T0, globals=[(t, mut, gi[t])])
    for a, b in itertools.product((I32, I64, F32, F64, REF), repeat=2):
        add('globals %s, %s' % (TNAME[a], TNAME[b]), types=T0, globals=[(a, 1, [x if x[0] != 'imm' and x[0] != 'raw' else tuple(S('w', y[1]) if isinstance(y, tuple) else y for y in x) for x in gi[a]]), (b, 1, gi[b]), (a, 0, gi[a])])
    for ng in (25, 70): add('%d globals' % ng, types=T0, globals=[((I32, I64, F32, F64)[k % 4], k % 2, {0: i32c(S('g%d' % k, 32)), 1: i64c(S('g%d' % k)), 2: f32c(S('g%d' % k, 32)), 3: f64c(S('g%d' % k))}[k % 4]) for k in range(ng)])
    for t, w, ops in ((I32, 32, (0x6a, 0x6b, 0x6c)), (I64, 64, (0x7c, 0x7d, 0x7e))):
        for op in ops:
            c = 0x41 if t == I32 else 0x42
            add('global from constant arithmetic %x' % op, types=T0, imports=[('h', 'g', 3, (t, 0)), ('h', 'k', 3, (t, 0))],
                globals=[(t, 0, [('op', c), ('imm', S('a', w)), ('op', c), ('imm', S('b', w)), ('op', op), ('op', 0x0b)]),
                         (t, 0, [('op', 0x23), ('imm', 1), ('op', c), ('imm', S('b', w)), ('op', op), ('op', 0x23), ('imm', 0), ('op', op), ('op', 0x0b)])])
    for t in (I32, I64, F32, F64, REF):
        add('global from an imported %s global' % TNAME[t], types=T0, imports=[('h', 'g', 3, (t, 0)), ('h', 'i', 3, (I32, 0)), ('h', 'j', 3, (t, 1))], globals=[(t, 1, ggetc(2)), (t, 0, ggetc(0))])
    add('funcref globals', types=T0, imports=[('h', 'f', 0, 0)], funcs=[0, 0], codes=fbodies(2), globals=[(FUNC, 0, rfuncc(2)), (FUNC, 1, rfuncc(0)), (FUNC, 0, rnullc(FUNC)), (FUNC, 1, rfuncc(1))])
    # exports
    add('export names', types=T0, funcs=[0] * 6, codes=fbodies(6), ex=[('', 0, 0), ('a', 0, 1), ('ab', 0, 2), ('abc', 0, 3), ('x' * 200, 0, 4), ('x' * 201, 0, 5)])
    add('equal names of different kinds', types=T0, funcs=[0], codes=fbodies(1), tables=[(0x70, 1, None)], mems=[(1, None)], globals=[(I32, 0, i32c(S('v', 32)))],
        ex=[('n', 3, 0), ('n', 2, 0), ('o', 0, 0), ('n', 0, 0), ('n', 1, 0)])
    add('many exports', types=T0, funcs=[0] * 3, codes=fbodies(3), ex=[('export number %d of many' % k, 0, k % 3) for k in range(40)])
    add('no exports', types=T0, funcs=[0], codes=fbodies(1), ex=[])
    # start
    for k in (0, 1, 2):
        add('start function %d' % k, types=T0, imports=[('h', 'f', 0, 0)], funcs=[0, 0], codes=fbodies(2), start=k)
    # custom sections anywhere
    for after in (-1, 1, 3, 7, 10, 11):
        add('custom section after %d' % after, types=T0, funcs=[0], mems=[(1, None)], codes=fbodies(1), data=[(0, 0, i32c(1), b'z')], customs=[(after, 'name', b'some payload'), (after, 'x', b'')])
    add('long custom section name', types=T0, funcs=[0], codes=fbodies(1), customs=[(1, 'n' * 300, b'x' * 20)])
    # locals
    for lo in ([(1, I32)], [(3, I64), (2, F64)], [(0, I32), (1, F32), (200, I64)], [(1, I32), (1, I64), (1, F32), (1, F64), (1, REF)], [(255, I32)]):
        add('locals %s' % lo, types=T3, funcs=[0, 0, 1], codes=[(lo, body(S('tag0'))), ([], body(S('tag1'))), (lo, body(S('tag2'), [('op', 0x20), ('imm', 0)]))])
    return out


def run_load(R, sh_, C):
    """one shape: load, compare, release"""
    name, mod = sh_
    C.shape = name
    for st, rc, err, h in load(R, mod):
        if not C.ended(st): continue
        if segment_bounds(C, mod, st, h, err is None) and err is not None: continue
        if err is not None:
            C.ob += 1
            C.prob('valid module rejected', None, 'a valid module (%s) is rejected: %s' % (name, err)); continue
        instance(C, mod, st, rc, h)


def instantiation(tier):
    for s in shapes(tier): yield s[0], lambda R, C, s=s: run_load(R, s, C)
