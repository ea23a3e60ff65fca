"""Abstract interpretation of the host-side API (module loading, namespaces, frame helpers, release).

A *module description* is turned into a section/byte stream in which every LEB immediate is one slot
(concrete where the loader indexes with it, symbolic otherwise).  A *script* calls API functions on the
resulting abstract states; what it observes goes only through the public header (return values, public
structs, callbacks, heap ownership).
"""
from .gen import *
from .absint import *

WANT = object()


class Code:
    """module bytes: slots ('imm', v) | ('b', n) | ('op', n) | ('raw', term, k, n)"""

    def __init__(self):
        self.s = []

    def leb(self, v): self.s.append(('imm', v)); return self
    def t(self, v): self.s.append(('imm', v, 'byte')); return self        # a single byte, whatever reader it is read with
    def sized(self, c): self.s.append(('imm', len(c.s), 'size')); return self.ext(c)
    def b(self, *v):
        for x in v: self.s.append(('b', x))
        return self
    def name(self, t):
        bs = t if isinstance(t, bytes) else t.encode()
        self.leb(len(bs))
        return self.b(*bs)
    def ext(self, c): self.s += c.s if isinstance(c, Code) else list(c); return self


def sym(name, bits=64): return ('s', bits, ('in', name))


def i32c(v): return [('op', 0x41), ('imm', v), ('op', 0x0b)]
def i64c(v): return [('op', 0x42), ('imm', v), ('op', 0x0b)]
def f32c(t): return [('op', 0x43)] + RAW(t, 4) + [('op', 0x0b)]
def f64c(t): return [('op', 0x44)] + RAW(t, 8) + [('op', 0x0b)]
def ggetc(i): return [('op', 0x23), ('imm', i), ('op', 0x0b)]
def rnullc(t=REF): return [('op', 0xd0), ('imm', t), ('op', 0x0b)]
def rfuncc(i): return [('op', 0xd2), ('imm', i), ('op', 0x0b)]


def body(tag, extra=()):
    """a function body that can be recognised in the emitted code: block; i32.const tag; br_if 0; end"""
    return [('op', 0x02), ('b', 0x40), ('op', 0x41), ('imm', tag), ('op', 0x0d), ('imm', 0), ('op', 0x0b)] + list(extra) + [('op', 0x0b)]


class Mod:
    def __init__(self, types=(((), ()),), imports=(), funcs=(), tables=(), mems=(), globals=(), exports=(), start=None, elems=(), data=(),
                 codes=(), customs=(), order=None, magic=0x6d736100, version=1, tail=(), datacount=None):
        self.__dict__.update(locals()); del self.__dict__['self']

    def section(self, id):
        c = Code()
        if id == 1:
            c.leb(len(self.types))
            for p, r in self.types:
                c.t(0x60).leb(len(p))
                for t in p: c.t(t)
                c.leb(len(r))
                for t in r: c.t(t)
        elif id == 2:
            c.leb(len(self.imports))
            for m, f, kind, d in self.imports:
                c.name(m).name(f).b(kind)
                if kind == 0: c.leb(d)
                elif kind == 1: self.table(c, d)
                elif kind == 2: self.limits(c, d)
                elif kind == 3: c.t(d[0]).t(d[1])
                else:
                    for x in d or (): c.leb(x)
        elif id == 3:
            c.leb(len(self.funcs))
            for t in self.funcs: c.leb(t)
        elif id == 4:
            c.leb(len(self.tables))
            for t in self.tables: self.table(c, t)
        elif id == 5:
            c.leb(len(self.mems))
            for t in self.mems: self.limits(c, t)
        elif id == 6:
            c.leb(len(self.globals))
            for t, mut, init in self.globals: c.t(t).t(mut).ext(init)
        elif id == 7:
            c.leb(len(self.exports))
            for n, k, i in self.exports: c.name(n).b(k).leb(i)
        elif id == 8: c.leb(self.start)
        elif id == 9:
            c.leb(len(self.elems))
            for e in self.elems:
                fl, tb, off, items = e
                c.leb(fl)
                if fl in (2, 6): c.leb(tb)
                if fl in (0, 2, 4, 6): c.ext(off)
                if fl in (1, 2, 3): c.b(0)
                if fl in (5, 6, 7): c.b(0x70)
                c.leb(len(items))
                for x in items:
                    if fl < 4: c.leb(x)
                    else: c.ext(x)
        elif id == 12: c.leb(self.datacount)
        elif id == 10:
            c.leb(len(self.codes))
            for lo, code in self.codes:
                b = Code()
                b.leb(len(lo))
                for n, t in lo: b.leb(n).t(t)
                b.ext(code)
                c.sized(b)
        elif id == 11:
            c.leb(len(self.data))
            for fl, mem, off, bs in self.data:
                c.leb(fl)
                if fl == 2: c.leb(mem)
                if fl in (0, 2): c.ext(off)
                c.leb(len(bs)).b(*bs)
        return c

    @staticmethod
    def limits(c, d):
        ini, mx = d[0], d[1]
        fl = d[2] if len(d) > 2 else (0 if mx is None else 1)
        c.t(fl).leb(ini)
        if mx is not None: c.leb(mx)

    def table(self, c, d):
        c.t(d[0])
        self.limits(c, d[1:])

    def present(self):
        have = dict(zip((1, 2, 3, 4, 5, 6, 7, 9, 10, 11), (self.types, self.imports, self.funcs, self.tables, self.mems, self.globals, self.exports, self.elems, self.codes, self.data)))
        ids = [i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 10, 11) if (i == 8 and self.start is not None) or (i == 12 and self.datacount is not None) or have.get(i)]
        return ids

    def slots(self):
        c = Code()
        for w in (self.magic, self.version):
            c.b(*[w >> 8 * k & 0xff for k in range(4)])
        order = self.order or self.present()
        pend = list(self.customs)
        for id in [-1] + list(order):
            if id >= 0:
                s = self.section(id)
                c.t(id).sized(s)
            for after, nm, payload in pend:
                if after == id:
                    s = Code().name(nm).b(*payload)
                    c.t(0).sized(s)
        c.ext(self.tail)
        return c.s


class ModRun(Gen):
    """abstract host: drives API calls; host callbacks are python functions"""

    def __init__(self, prog):
        super().__init__(prog)
        I = self.I
        del I.hook_call['pwart_get_builtin_symbols']
        I.hook_load.clear()
        I.ext['*indirect'] = self.h_indirect
        I.ext['strncmp'] = self.h_strncmp
        I.ext['strcmp'] = self.h_strcmp
        for n in ('malloc', 'calloc', 'realloc', 'free'): I.ext.pop(n, None)
        self.host = {}         # name -> f(st, args, inst) -> value | Fork
        I.WIDEN = 6
        I.MAXSTEPS = 3000000
        I.maxstates = 60
        I.sized = True
        I.access_hook = self.h_access

    def h_access(self, st, i, what, base, off, n):
        if what != 'load' and what != 'memcpy-src': st.emit(('store', base, off, n, i.file, i.line, i.fn.name))

    def writer(self, st, base, off):
        """last store to a cell, as a report location"""
        for e in reversed(st.trace()):
            if e[0] == 'store' and e[1] == base and (e[2] == off or (isinstance(e[2], int) and isinstance(off, int) and isinstance(e[3], int) and e[2] <= off < e[2] + e[3])):
                return '%s:%s (%s)' % (e[4], e[5], e[6])
        return None

    # -- environment models --
    def h_strncmp(self, I, st, fr, i, a):
        n = st.res(a[2])
        if not isinstance(n, int): return ('s', 32, ('strncmp',) + tuple(a))
        s, ts = I.bytes_at(st, a[0], n, i)
        t, tt = I.bytes_at(st, a[1], n, i)
        if (isinstance(ts, int) or len(s) >= n) and (isinstance(tt, int) or len(t) >= n):
            s, t = s[:n], t[:n]
            return 0 if s == t else (1 if s > t else mask(32))
        return ('s', 32, ('strncmp',) + tuple(a))

    def h_strcmp(self, I, st, fr, i, a): return I.x_strcmp(st, i, a)

    def h_indirect(self, I, st, fr, i, a):
        t = st.res(a[0])
        if isinstance(t, tuple) and t[0] == 'p' and isinstance(t[1], tuple) and t[1][0] == 'HOST' and t[2] == 0:
            st.emit(('host', t[1][1], tuple(a[1:]), i.file, i.line))
            f = self.host.get(t[1][1])
            return f(st, a[1:], i) if f else 0
        if isinstance(t, tuple) and t[0] == 'p' and isinstance(t[1], tuple) and t[1][0] == 'HIT' and t[1][3] == 0 and t[2] == 0:
            st.emit(('host', t[1], tuple(a[1:]), i.file, i.line)); return 0
        if isinstance(t, tuple) and t[0] == 'p' and isinstance(t[1], tuple) and t[1][0] == 'JIT':
            st.emit(('enter-wasm', t[1], tuple(a[1:]), i.file, i.line)); return 0
        st.emit(('bad', 'call through', t, 0, i.file, i.line, i.fn.name))
        st.status = 'crash'

    def fn(self, name): return ('p', ('HOST', name), 0)

    def h_sljit(self, I, st, fr, i, a):
        n = i.callee[1]
        if n == 'sljit_create_compiler':
            st.user['ngen'] = st.user.get('ngen', 0) + 1
            b = ('SLJ', st.fresh())
            st.user['live'] = st.user.get('live', ()) + (b,)
            st.emit(('gen-begin', b, i.file, i.line))
            return ('p', b, 0)
        if n == 'sljit_generate_code':
            b = ('JIT', st.fresh())
            st.user['live'] = st.user.get('live', ()) + (b,)
            st.emit(('generate', aspair(st.res(a[0]))[0], b, i.file, i.line))
            return ('p', b, 0)
        if n in ('sljit_free_compiler', 'sljit_free_code'):
            b = aspair(st.res(a[0]))[0]
            if a[0] == 0 and n == 'sljit_free_code': pass
            elif b not in st.user.get('live', ()):
                st.emit(('bad', 'release of something that is not a live %s' % ('code block' if n.endswith('code') else 'compiler'), b, 0, i.file, i.line, i.fn.name))
            else: st.user['live'] = tuple(x for x in st.user['live'] if x != b)
            st.emit((n, b, i.file, i.line))
            return None
        if n == 'sljit_get_register_index': return 1
        if n.startswith('sljit_emit') or n == 'sljit_set_label':
            if n == 'sljit_emit_label': r = ('p', ('LBL', st.fresh()), 0)
            elif n in ('sljit_emit_jump', 'sljit_emit_cmp', 'sljit_emit_fcmp', 'sljit_emit_call'): r = ('p', ('JMP', st.fresh()), 0)
            else: r = 0 if i.ty != 'void' else None
            st.emit(('lir', n, tuple(a), i.file, i.line))
            return r
        return ('s', BITS.get(i.ty, 64), ('sljit', n, st.fresh())) if i.ty != 'void' else None

    # -- module bytes --
    def module(self, st, slots):
        b = ('CODE', len(st.user.get('codes', {})))
        st.user['codes'] = dict(st.user.get('codes', {}))
        st.user['codes'][b] = slots
        st.obj(b, 'lazy')
        st.size[b] = len(slots)
        self.I.hook_load[b] = lambda I, s, fr, i, off, size, b=b: self.h_bytes(s, i, b, off, size)
        return ('p', b, 0), len(slots)

    def h_bytes(self, st, i, b, off, size):
        code = st.user['codes'][b]
        off = st.res(off)
        if not isinstance(off, int): raise Broken("module position not constant at %s:%s" % (i.file, i.line))
        v = 0
        for k in range(size):
            if not 0 <= off + k < len(code):
                st.emit(('bad', 'read outside the module', b, off + k, i.file, i.line, i.fn.name))
                return ('s', 8 * size, ('beyond', off))
        s = code[off]
        if s[0] == 'raw':
            if s[2] == 0 and s[3] == size: return s[1]
            if size == 1: return ('rawb', 8, s[1], s[2])
            return ('s', 8 * size, ('codebytes', off, size))
        for k in range(size):
            s = code[off + k]
            if s[0] == 'imm':
                if size == 1 and isinstance(s[1], int) and s[1] < 0x80: return s[1]
                st.emit(('rawleb', off + k, i.file, i.line))
                return ('s', 8 * size, ('immbyte', off, size))
            if s[0] not in ('b', 'op'): return ('s', 8 * size, ('codebytes', off, size))
            x = st.res(s[1])
            if not isinstance(x, int): return ('s', 8 * size, ('codebytes', off, size)) if size > 1 else x
            v |= x << 8 * k
        return v

    def h_leb(self, st, i, a, sign):
        base, off = aspair(a[1])
        pc = st.res(st.get(base, off, 4))
        cb, co = aspair(st.res(a[0]))
        if not (isinstance(cb, tuple) and cb[0] == 'CODE' and isinstance(pc, int) and co == 0): raise Broken("LEB source %r %r" % (cb, pc))
        code = st.user['codes'][cb]
        st.put(base, off, 4, pc + 1)
        if pc >= len(code):
            st.emit(('bad', 'read outside the module', cb, pc, i.file, i.line, i.fn.name))
            return ('s', 64, ('beyond', pc))
        s = code[pc]
        sg = int(bool(sign)) if isinstance(sign, int) else 2
        st.emit(('leb', pc, a[2], sg, i.file, i.line))
        if s[0] == 'imm': v = s[1]
        elif s[0] in ('op', 'b'):
            v = s[1] & 0x7f
            if sg == 1 and v & 0x40: v |= MASK[64] ^ 0x7f
            return v
        else: return ('s', 64, ('leb-raw', pc))
        return v & MASK[64] if isinstance(v, int) else v

    # -- scripting --
    def start(self, stack_flags=1, misc=2):
        st = State()
        self.I.init_globals(st)
        if stack_flags is not None: self.config(st, stack_flags, misc)
        st.user['names'] = 0
        return st

    def str(self, st, t):
        st.user['names'] += 1
        return self.cstr(st, ('host', st.user['names']), t.encode() if isinstance(t, str) else t)

    def call(self, st, name, args, ok=True):
        """one API call; -> states that returned (with st.result)"""
        if name not in self.p.m.funcs: raise Broken("no API function %s" % name)
        if st.status == 'ret': st.status = None
        st.frames = []
        st.steps = 0
        self.I.call(st, name, args)
        return self.I.run(st)

    def field(self, st, ptr, typ, f, size, extra=0):
        b, o = aspair(st.res(ptr))
        return st.res(st.get(b, o + self.p.off(typ, f) + extra, size))

    def load(self, st, ptr, off, size):
        b, o = aspair(st.res(ptr))
        if b in st.freed: return ('freed', 8 * size)
        h = self.I.hook_load.get(b)
        return st.res(st.get(b, mkbin('add', 64, o & MASK[64] if isinstance(o, int) else o, off) if not isinstance(o, int) or not isinstance(off, int) else o + off, size))

    def text(self, st, ptr):
        if ptr == 0: return None
        s, t = self.I.bytes_at(st, ptr)
        return bytes(s).decode('latin1')

    def bad(self, st): return [e for e in st.trace() if e[0] in ('bad', 'exit')]

    def bodies(self, st):
        """generated code block -> symbolic tag of the body it was generated from (body())"""
        out = {}
        tag = None
        for e in st.trace():
            if e[0] == 'gen-begin': tag = None
            elif e[0] == 'lir' and tag is None:
                for x in e[2]: tag = tag or findtag(x)
            elif e[0] == 'generate': out[e[2]] = tag
        return out

    def origin(self, st, b):
        for e in st.trace():
            if e[0] == 'alloc' and e[1] == b:
                for f, fi, ln in e[5]:
                    if not fi.endswith('util.c'): return '%s:%s (%s)' % (fi, ln, f)
                f, fi, ln = e[5][-1]
                return '%s:%s (%s)' % (fi, ln, f)
            if e[0] == 'generate' and e[2] == b: return '%s:%s' % (e[3], e[4])
            if e[0] == 'gen-begin' and e[1] == b: return '%s:%s' % (e[2], e[3])
            if e[0] == 'realloc' and e[2] == b: return self.origin(st, e[1])
        return None

    def origin_text(self, st, b):
        if b[0] == 'SLJ': return 'a code generator'
        if b[0] == 'JIT': return 'a block of generated code'
        return 'memory'

    def heap_live(self, st):
        keep = set()
        work = [b for b in st.mem if isinstance(b, tuple) and b[0] == 'g']
        while work:          # process-wide tables stay
            for o, (n, v) in st.mem.get(work.pop(), {}).items():
                v = st.res(v)
                if isinstance(v, tuple) and v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'h' and v[1] not in keep:
                    keep.add(v[1]); work.append(v[1])
        return [b for b in st.mem if isinstance(b, tuple) and b[0] == 'h' and b not in st.freed and b not in keep] + list(st.user.get('live', ()))


def findtag(x, d=0):
    if isinstance(x, tuple):
        if x and x[0] == 's' and isinstance(x[2], tuple) and x[2][0] == 'in' and str(x[2][1]).startswith('tag'): return x
        if d < 6:
            for y in x:
                r = findtag(y, d + 1)
                if r: return r
    return None
