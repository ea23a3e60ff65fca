"""P13: namespaces.  Sequences of namespace operations against a reference model (a list of named modules)."""
import random
from .hostprops import *

TWO = (((), ()),)


def wasm(k, imports=(), start=None, bad=False):
    """module number k: exports f, g (global), m, t; its own items are told apart by their values"""
    nf = sum(1 for i in imports if i[2] == 0)
    ng = sum(1 for i in imports if i[2] == 3)
    nm = sum(1 for i in imports if i[2] == 2)
    nt = sum(1 for i in imports if i[2] == 1)
    ex = [('f', 0, nf), ('g', 3, ng), ('m', 2, nm), ('t', 1, nt), ('only%d' % k, 3, ng)]
    ex += [('im%d' % j, i[2], sum(1 for x in imports[:j] if x[2] == i[2])) for j, i in enumerate(imports)]
    return Mod(types=TWO, imports=imports, funcs=[0], codes=[([], body(S('tag0')))], tables=[(0x70, 2, None)], mems=[(1, None)], globals=[(I32, 1, i32c(1000 + k))], exports=ex, start=start,
               magic=0x6d736101 if bad else 0x6d736100)


FIELDS = ('f', 'g', 'm', 't')
KINDF = {'f': 0, 'g': 3, 'm': 2, 't': 1}


class NS:
    """drives one abstract namespace together with the reference"""

    def __init__(self, R, C, align=1):
        self.R, self.C = R, C
        self.st = R.start(stack_flags=align)
        self.mods = {}         # name -> ('host', ptr, hid) | ('wasm', state) | None (removed)
        self.order = []
        self.hosts = {}        # hid -> ptr
        self.log = []
        self.nh = 0
        self.react, self.spare, self.depth = {}, {}, 0
        o = self.one('pwart_namespace_new', [])
        self.ns = o
        if o == 0 or not isinstance(o, tuple): C.prob('namespace', None, 'pwart_namespace_new gives %s' % sh(o))
        self.mods['pwart_namespace_meta'] = ('meta',)

    def one(self, name, args):
        o = self.R.call(self.st, name, args)
        o2 = [s for s in o if self.C.ended(s)]
        if len(o2) != 1: raise Broken("%s: %d results (%s)" % (name, len(o2), [s.status for s in o]))
        self.st = o2[0]
        return self.st.result

    def indirect(self, f, args):
        """calls a function pointer"""
        f = self.st.res(f)
        if isinstance(f, tuple) and f[0] == 'p' and isinstance(f[1], tuple) and f[1][0] == 'g' and f[1][1] in self.R.p.m.funcs and f[2] == 0: return self.one(f[1][1], args)
        raise Broken("call through %r" % (f,))

    # host modules: their callbacks are recorded; attached/detached may be absent
    def host(self, att=True, det=True):
        k = self.nh; self.nh += 1
        R, st, p = self.R, self.st, self.R.p
        b = ('HMOD', k)
        st.obj(b, 'zero')
        q = ('p', b, 0)
        st.put(b, p.o['pwart_host_module', 'resolve'], 8, R.fn('hres%d' % k))
        if att: st.put(b, p.o['pwart_host_module', 'on_attached'], 8, R.fn('hatt%d' % k))
        if det: st.put(b, p.o['pwart_host_module', 'on_detached'], 8, R.fn('hdet%d' % k))
        self.hosts[k] = (q, att, det)

        def res(s, a, i, k=k):
            bb, o = aspair(s.res(a[1]))
            F = lambda f, n: s.res(s.get(bb, o + p.o['pwart_symbol_resolve_request', f], n))
            f, kind = R.text(s, F('import_field', 8)), F('kind', 4)
            s.user['asked'] = s.user.get('asked', ()) + ((k, a[0], R.text(s, F('import_module', 8)), f, kind),)
            if f == 'none': return None
            s.put(bb, o + p.o['pwart_symbol_resolve_request', 'result'], 8, self.hitem(s, k, f, kind))
            return None
        R.host['hres%d' % k] = res
        R.host['hatt%d' % k] = lambda s, a, i, k=k: self.cb(s, 'att', k, a)
        R.host['hdet%d' % k] = lambda s, a, i, k=k: self.cb(s, 'det', k, a)
        return k

    def hitem(self, s, k, f, kind):
        """what host module k offers under a name"""
        p = self.R.p
        b = ('HIT', k, f, kind)
        if kind == 1 and b not in s.mem:
            s.obj(b, 'zero'); s.obj(('HITE', k, f), 'lazy')
            for fl, n, v in (('elem_type', 1, 0x70), ('initial', 4, 9), ('maximum', 4, 9), ('size', 4, 9), ('entries', 8, ('p', ('HITE', k, f), 0))): s.put(b, p.off('Table', fl), n, v)
        elif kind == 2 and b not in s.mem:
            s.obj(b, 'zero'); s.obj(('HITB', k, f), 'lazy')
            for fl, n, v in (('initial', 4, 4), ('maximum', 4, 4), ('pages', 4, 4), ('bytes', 8, ('p', ('HITB', k, f), 0)), ('fixed', 1, 1)): s.put(b, p.off('Memory', fl), n, v)
        elif b not in s.mem: s.obj(b, 'lazy')
        return ('p', b, 0)

    def cb(self, s, what, k, a):
        ns2 = s.res(s.get(('HMOD', k), self.R.p.o['pwart_host_module', 'namespace2'], 8))
        s.user['cbs'] = s.user.get('cbs', ()) + ((what, k),)
        self.C.ob += 1
        if a[0] != ('p', ('HMOD', k), 0): self.C.prob('callback', None, 'on_%sached is called with %s instead of its module' % (what, sh(a[0])))
        elif ns2 != self.ns_now(s): self.C.prob('callback', None, 'on_%sached is called while namespace2 is %s' % (what, sh(ns2)))
        for op, x in self.react.get((what, k), ()):
            n = self.R.str(s, x)
            if op == 'define':
                q = self.hosts[self.spare[x]][0]
                self.nested(s, 'pwart_namespace_define_host_module', [self.ns_now(s), n, q])
                self.mods[x] = ('host', self.spare[x])
            else:
                self.nested(s, 'pwart_namespace_remove_module', [self.ns_now(s), n])
                self.mods[x] = None
        return None

    def nested(self, s, name, args):
        """an API call made by a callback"""
        t = s.copy()
        t.status = None
        self.depth += 1
        if self.depth > 5: self.C.prob('callback', None, '%s calls on_detached again and again' % name); raise Broken('stop')
        o = [x for x in self.R.call(t, name, args) if self.C.ended(x)]
        self.depth -= 1
        if len(o) != 1: raise Broken('%s in a callback: %d results' % (name, len(o)))
        for f in s.__slots__:
            if f not in ('frames', 'steps', 'status', 'result'): setattr(s, f, getattr(o[0], f))
        return o[0].result

    def ns_now(self, s): return self.ns

    def name(self, t): return self.R.str(self.st, t)

    def callbacks(self, what, want):
        got = list(self.st.user.get('cbs', ()))
        self.st.user['cbs'] = ()
        self.C.ob += 1
        if got != want: self.C.prob('callback', None, '%s: the callbacks %s are called instead of %s' % (what, got, want))

    def leave(self, name):
        """expected callbacks when what is under the name goes"""
        m = self.mods.get(name)
        if m and m[0] == 'host' and self.hosts[m[1]][2]: return [('det', m[1])]
        return []

    # operations
    def def_host(self, name, att=True, det=True, struct=False):
        k = self.host(att, det)
        want = self.leave(name) + ([('att', k)] if att else [])
        q = self.hosts[k][0]
        n = self.name(name)
        if struct: self.define_struct(n, 1, q)
        else: self.one('pwart_namespace_define_host_module', [self.ns, n, q])
        self.forget(n)
        self.mods[name] = ('host', k)
        self.callbacks('define host module', want)

    def def_host_raw(self, name):
        k = self.host(True, True)
        self.one('pwart_namespace_define_host_module', [self.ns, self.name(name), self.hosts[k][0]])

    def forget(self, n):
        """the caller reuses the memory of the name"""
        b = n[1]
        for k in range(4):
            if k in self.st.mem.get(b, {}): self.st.put(b, k, 1, 0x23)

    def define_struct(self, n, typ, val):
        st, p = self.st, self.R.p
        b = ('NMOD', len(st.user.get('codes', {})), self.nh, len(self.order))
        self.order.append(b)
        st.obj(b, 'undef')
        st.put(b, p.o['pwart_named_module', 'name'], 8, n)
        st.put(b, p.o['pwart_named_module', 'type'], 4, typ)
        st.put(b, p.o['pwart_named_module', 'val'], 8, val)
        r = self.one('pwart_namespace_define_module', [self.ns, ('p', b, 0)])
        st = self.st
        for f, s in (('name', 8), ('type', 4), ('val', 8)): st.put(b, p.o['pwart_named_module', f], s, 0x1234567)      # the caller's structure is reused
        self.C.ob += 1
        if r != 0: self.C.prob('define', None, 'pwart_namespace_define_module gives an error')

    def def_wasm(self, name, mod, how='bytes'):
        want = self.leave(name)
        st = self.st
        ok = mod.magic == 0x6d736100 and all(self.expect(m, f, k) is not None for m, f, k, d in mod.imports)
        exp = [self.expect(m, f, k) for m, f, k, d in mod.imports] if ok else None
        ptr, n = self.R.module(st, mod.slots())
        nm = self.name(name)
        eb = ('ERR', len(self.order)); self.order.append(eb)
        st.obj(eb, 'zero')
        if how == 'bytes':
            s = self.one('pwart_namespace_define_wasm_module', [self.ns, nm, ptr, n, ('p', eb, 0)])
        elif how == 'noerr':
            s = self.one('pwart_namespace_define_wasm_module', [self.ns, nm, ptr, n, 0])
        else:
            comp = self.one('pwart_new_module_compiler', [])
            res = 0
            if how != 'alone': res = self.one('pwart_namespace_resolver', [self.ns])
            if res: self.one('pwart_set_symbol_resolver', [comp, res])
            e = self.one('pwart_compile', [comp, ptr, n])
            s = self.one('pwart_get_module_state', [comp]) if e == 0 else 0
            self.one('pwart_free_module_compiler', [comp])
            if e == 0: self.define_struct(nm, 2, s)
        self.forget(nm)
        self.C.ob += 1
        if ok != (s != 0):
            self.C.prob('define', None, 'loading a %s module into the namespace %s' % ('valid' if ok else 'module that can not be loaded as', 'fails' if ok else 'succeeds')); raise Broken('stop')
        if how == 'bytes':
            e = self.st.get(eb, 0, 8)
            self.C.ob += 1
            if ok and e != 0: self.C.prob('define', None, 'an error is reported for a module that was loaded')
            if not ok:
                t = self.R.text(self.st, e) if e != 0 and isinstance(e, tuple) else None
                if not t or not t.isprintable(): self.C.prob('error text', None, 'no readable error text for a module that can not be loaded: %s' % sh(t if t is not None else e))
        if ok:
            self.mods[name] = ('wasm', s, mod)
            self.callbacks('define wasm module', want)
            # bound to what the namespace offered at that moment
            for j, (m, f, k, d) in enumerate(mod.imports): self.export(s, 'im%d' % j, k, exp[j], 'import %s.%s of kind %d of a module in the namespace' % (m, f, k))
            self.user_resolver(s)
        else: self.callbacks('failed load', [])
        return s

    GET = {0: 'pwart_get_export_function', 1: 'pwart_get_export_table', 2: 'pwart_get_export_memory', 3: 'pwart_get_export_global'}

    def export(self, s, f, k, want, what):
        got = self.one(self.GET[k], [s, self.name(f)])
        self.C.ob += 1
        if got != want: self.C.prob('resolution', None, '%s is bound to %s instead of %s' % (what, sh(got), sh(want)))

    def user_resolver(self, s):
        ib = ('INS', len(self.order)); self.order.append(ib)
        self.st.obj(ib, 'undef')
        self.one('pwart_inspect_module_state', [s, ('p', ib, 0)])
        got = self.st.get(ib, self.R.p.o['pwart_inspect_result1', 'symbol_resolver'], 8)
        want = self.one('pwart_namespace_resolver', [self.ns])
        self.C.eq(self.st, 'symbol resolver of a module in the namespace', got, want, 64)

    def expect(self, m, f, k):
        """what resolving m.f of kind k gives now; None: nothing"""
        x = self.mods.get(m)
        if not x: return None
        if x[0] == 'meta': return self.ns if f == 'this' else None
        if x[0] == 'host': return None if f == 'none' else self.hitem(self.st, x[1], f, k)
        if x[0] == 'list': return x[2].get(f)
        mod = x[2]
        for n, kk, i in mod.exports:
            if n == f and kk == k: return self.one(self.GET[k], [x[1], self.name(f)]) or None
        return None

    def remove(self, name):
        want = self.leave(name)
        n = self.name(name)
        r = self.one('pwart_namespace_remove_module', [self.ns, n])
        self.C.ob += 1
        if r != 0: self.C.prob('remove', None, 'removing a module gives an error')
        if name in self.mods: self.mods[name] = None
        self.callbacks('remove %s' % name, want)

    def look(self, names=('a', 'b', 'c', 'ab', '', 'pwart_namespace_meta')):
        """everything that can be observed"""
        p = self.R.p
        for n in names:
            q = self.one('pwart_namespace_find_module', [self.ns, self.name(n)])
            x = self.mods.get(n)
            self.C.ob += 1
            if q == 0:
                if x: self.C.prob('find', None, 'module "%s" is not found' % n)
                continue
            b, o = aspair(q)
            F = lambda f, s: self.st.res(self.st.get(b, o + p.o['pwart_named_module', f], s))
            typ = F('type', 4)
            if not x:
                if typ != 0: self.C.prob('find', None, 'module "%s" is found although it was never defined or was removed' % n)
                continue
            t = self.R.text(self.st, F('name', 8))
            if t != n: self.C.prob('find', None, 'the module found for "%s" has the name "%s"' % (n, t))
            wt = 2 if x[0] == 'wasm' else 1
            wv = x[1] if x[0] == 'wasm' else self.hosts[x[1]][0] if x[0] == 'host' else x[1] if x[0] == 'list' else None
            self.C.ob += 1
            if typ != wt or (wv is not None and F('val', 8) != wv): self.C.prob('find', None, 'module "%s" is found with type %s and value %s instead of %s and %s' % (n, typ, sh(F('val', 8)), wt, sh(wv)))
        rs = self.one('pwart_namespace_resolver', [self.ns])
        rf = self.st.get(rs[1], rs[2] + p.o['pwart_symbol_resolver', 'resolve'], 8)
        for m in names:
            for f, k in (('f', 0), ('g', 3), ('m', 2), ('t', 1), ('g', 0), ('f', 3), ('none', 0), ('this', 3), ('x', 2)):
                want = self.expect(m, f, k)
                b = ('REQ', len(self.order)); self.order.append(b)
                self.st.obj(b, 'undef')
                for fl, s, v in (('import_module', 8, self.name(m)), ('import_field', 8, self.name(f)), ('kind', 4, k), ('result', 8, ('p', ('JUNK',), 0))):
                    self.st.put(b, p.o['pwart_symbol_resolve_request', fl], s, v)
                self.st.user['asked'] = ()
                self.indirect(rf, [rs, ('p', b, 0)])
                got = self.st.res(self.st.get(b, p.o['pwart_symbol_resolve_request', 'result'], 8))
                x = self.mods.get(m)
                self.C.ob += 1
                if got != (want or 0): self.C.prob('resolution', None, 'resolving %s.%s of kind %d gives %s instead of %s' % (m, f, k, sh(got), sh(want)))
                asked = self.st.user.get('asked', ())
                wa = ((x[1], self.hosts[x[1]][0], m, f, k),) if x and x[0] == 'host' else ()
                if asked != wa: self.C.prob('resolution', None, 'resolving %s.%s asks the host modules %s instead of %s' % (m, f, sh(asked), sh(wa)))

    def delete(self):
        want = sorted(x for n in self.mods for x in self.leave(n))
        self.one('pwart_namespace_delete', [self.ns])
        got = sorted(self.st.user.get('cbs', ()))
        self.C.ob += 1
        if got != want: self.C.prob('callback', None, 'deleting the namespace calls %s instead of %s' % (got, want))
        for n, x in self.mods.items():
            if x and x[0] == 'list': self.one('pwart_namespace_delete_host_module', [x[1]])
        leak_check(self.R, self.C, self.st, 'the namespace was deleted')

    def def_list(self, name, fn):
        """a host module made from a list of names"""
        st = self.st
        names = ['f', 'g', 'ff', '']
        nb, sb = ('LN', self.nh), ('LS', self.nh)
        self.nh += 1
        st.obj(nb, 'undef'); st.obj(sb, 'undef')
        items = {}
        for j, n in enumerate(names):
            st.put(nb, 8 * j, 8, self.name(n))
            v = ('p', ('LIT', nb[1], n), 0)
            items[n] = v
            st.put(sb, 8 * j, 8, v)
        want = self.leave(name)
        h = self.one(fn, [('p', nb, 0), ('p', sb, 0), len(names)])
        self.one('pwart_namespace_define_host_module', [self.ns, self.name(name), h])
        self.mods[name] = ('list', h, items)
        self.callbacks('define host module from a list', want)
        ns2 = self.R.field(self.st, h, 'pwart_host_module', 'namespace2', 8) if ('pwart_host_module', 'namespace2') in self.R.p.o else None
        self.C.eq(self.st, 'namespace2 of a host module', ns2, self.ns, 64)


OPS = ['ha', 'hb', 'wa', 'wb', 'ia', 'ra', 'rb', 'xa', 'la', 'sa', 'pa', 'hn', 'rz', 'rm', 'ib', 'na', 'qa']


def do(N, op, k):
    if op == 'ha': N.def_host('a')
    elif op == 'hb': N.def_host('b', att=k % 2 == 0, det=k % 3 != 0)
    elif op == 'hn': N.def_host('ab', att=False, det=False, struct=True)
    elif op == 'wa': N.def_wasm('a', wasm(k))
    elif op == 'wb': N.def_wasm('b', wasm(k))
    elif op == 'ia': N.def_wasm('c', wasm(k, [('a', 'f', 0, 0), ('a', 'g', 3, (I32, 1)), ('b', 'm', 2, (1, None)), ('b', 't', 1, (0x70, 1, None))]))
    elif op == 'ib': N.def_wasm('b', wasm(k, [('a', 't', 1, (0x70, 1, None)), ('a', 'm', 2, (1, None)), ('pwart_namespace_meta', 'this', 3, (REF, 0))]))
    elif op == 'ra': N.remove('a')
    elif op == 'rb': N.remove('b')
    elif op == 'rz': N.remove('zz')
    elif op == 'rm': N.remove('c')
    elif op == 'xa': N.def_wasm('a', wasm(k, bad=True))
    elif op == 'na': N.def_wasm('a', wasm(k, bad=True), how='noerr')
    elif op == 'la': N.def_list('a' if k % 2 else 'c', 'pwart_namespace_new_host_module%s' % ('2' if k % 3 else ''))
    elif op == 'sa': N.def_host('a', struct=True)
    elif op == 'qa': N.def_wasm('a', wasm(k), how='alone')
    elif op == 'pa': N.def_wasm('a', wasm(k), how='state')


def sequence(R, C, ops):
    N = NS(R, C)
    try:
        dead = set()
        lists = []
        for k, op in enumerate(ops):
            tgt = {'ha': 'a', 'wa': 'a', 'pa': 'a', 'qa': 'a', 'sa': 'a', 'ra': 'a', 'la': 'a' if k % 2 else 'c', 'hb': 'b', 'wb': 'b', 'ib': 'b', 'rb': 'b', 'ia': 'c', 'rm': 'c', 'hn': 'ab'}.get(op)
            old = N.mods.get(tgt)
            do(N, op, k)
            if old and old[0] == 'list' and N.mods.get(tgt) is not old: lists.append(old[1])
            N.look()
        for h in lists: N.one('pwart_namespace_delete_host_module', [h])
        N.delete()
    finally:
        C.mem(N.st)


def sequences(tier):
    out = [[]] + [[a] for a in OPS]
    out += [[a, b] for a in OPS for b in OPS]
    rnd = random.Random(5)
    n3, nl = (60, 60) if tier == 'quick' else (1500, 1500)
    for _ in range(n3): out.append([rnd.choice(OPS) for _ in range(3)])
    for _ in range(nl): out.append([rnd.choice(OPS) for _ in range(rnd.randint(4, 9))])
    out.append([['ha', 'hb', 'wa', 'wb', 'hn', 'ia'][k % 6] for k in range(30)])
    return out


def reentrant(R, C, what, acts, how):
    """a callback of module a works on the namespace itself"""
    N = NS(R, C)
    try:
        N.def_host('b')
        N.def_wasm('c', wasm(3))
        for op, x in acts:
            if op == 'define': N.spare[x] = N.host(False, False)
        k = N.nh
        N.react[what, k] = acts
        want = []
        for op, x in acts:
            if op == 'remove': want += [y for y in N.leave(x)]
        if what == 'att':
            for op, x in acts: pass
        m0 = dict(N.mods)
        N.def_host_raw('a')
        N.mods['a'] = ('host', k)
        N.callbacks('define', [('att', k)] + (want if what == 'att' else []))
        if what == 'att': N.look(); N.react.clear(); N.delete(); return
        N.look()
        if how == 'remove':
            N.one('pwart_namespace_remove_module', [N.ns, N.name('a')])
            N.mods['a'] = None
            N.callbacks('remove', [('det', k)] + want)
        elif how == 'redefine':
            j = N.host(False, False)
            N.one('pwart_namespace_define_host_module', [N.ns, N.name('a'), N.hosts[j][0]])
            N.mods['a'] = ('host', j)
            N.callbacks('define again', [('det', k)] + want)
        else:
            every = sorted(set(y for n in N.mods for y in N.leave(n)))
            N.one('pwart_namespace_delete', [N.ns])
            got = sorted(N.st.user.get('cbs', ()))
            C.ob += 1
            if got != every: C.prob('callback', None, 'deleting the namespace calls %s instead of %s' % (got, every))
            leak_check(R, C, N.st, 'the namespace was deleted')
            return
        N.look()
        N.delete()
    finally:
        C.mem(N.st)


def many(R, C):
    """more modules than the first allocation holds"""
    N = NS(R, C)
    for k in range(40):
        (N.def_host if k % 3 else lambda n: N.def_wasm(n, wasm(k)))('m%d' % k)
    N.look(['m%d' % k for k in range(0, 40, 3)] + ['m1', 'm39', 'm4', 'm', 'pwart_namespace_meta'])
    for k in range(0, 40, 2): N.remove('m%d' % k)
    N.look(['m%d' % k for k in range(0, 40, 5)] + ['pwart_namespace_meta'])
    N.delete()
    C.mem(N.st)


def two(R, C):
    """two namespaces know nothing of each other"""
    N = NS(R, C)
    M = NS.__new__(NS)
    M.__dict__.update(N.__dict__)
    M.mods = {'pwart_namespace_meta': ('meta',)}
    M.ns = N.one('pwart_namespace_new', [])
    M.st = N.st
    cur = {}

    def sw(x, y): y.st = x.st; y.nh = x.nh
    N.ns_now = M.ns_now = lambda s: cur['ns']
    steps = [(N, 'ha'), (M, 'wa'), (N, 'wb'), (M, 'hb'), (N, 'ia'), (M, 'ra'), (M, 'ia')]
    prev = N
    for k, (x, op) in enumerate(steps):
        if x is not prev: sw(prev, x)
        cur['ns'] = x.ns
        do(x, op, k)
        x.look()
        prev = x
    sw(prev, N)
    cur['ns'] = N.ns
    want = sorted(x for n in N.mods for x in N.leave(n))
    N.one('pwart_namespace_delete', [N.ns])
    got = sorted(N.st.user.get('cbs', ())); N.st.user['cbs'] = ()
    C.ob += 1
    if got != want: C.prob('callback', None, 'deleting the namespace calls %s instead of %s' % (got, want))
    sw(N, M)
    cur['ns'] = M.ns
    M.look()
    M.delete()
    C.mem(M.st)


def namespaces(tier):
    for s in sequences(tier): yield 'operations %s' % (' '.join(s) or '(none)'), lambda R, C, s=s: sequence(R, C, s)
    yield 'many modules', many
    D = [('define', 'n%d' % k) for k in range(12)]
    for what, how in (('att', ''), ('det', 'remove'), ('det', 'redefine'), ('det', 'delete')):
        for acts in ([('remove', 'b')], [('remove', 'c')], [('remove', 'zz')], [('remove', 'a')], D[:1], D[:3], D, [('remove', 'b')] + D, D + [('remove', 'c')]):
            if (what == 'att' and ('remove', 'a') in acts) or (how == 'delete' and acts[0][0] == 'define'): continue
            if how == 'delete' and D[0] in acts: continue
            yield 'callback %s %s: %s' % (what, how, ' '.join(a + ' ' + b for a, b in acts)), lambda R, C, what=what, acts=acts, how=how: reentrant(R, C, what, acts, how)
    yield 'two namespaces', two
