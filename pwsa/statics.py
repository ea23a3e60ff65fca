"""P26: no state outside the objects of the API.  Stores into static storage (and into memory only static storage points to)
are watched while API calls are interpreted: the configuration is written by its setter only, tables that are built on first
use are built once and always the same, everything else static is never changed."""
import multiprocessing, os, time
from .absint import Broken, Interp, aspair
from .gen import Prog, Gen
from .ir import IRError
from .modrun import ModRun
from .loadprops import Checker
from .report import Report, AnalysisBroken
from . import loadprops, hostprops, frameprops, nsprops, frags, mixed
from .hostcheck import TRUST
from .sjmach import SJ, Failed, FULL, BASE, EXLO

SETTER = 'pwart_set_global_compile_config'


def content(st, base):
    """what an object holds, independent of how it was written; zero is nothing"""
    out = {}
    for off, (n, v) in st.mem.get(base, {}).items():
        v = st.res(v)
        if isinstance(off, int) and isinstance(v, int):
            for k in range(n):
                if v >> 8 * k & 0xff: out[off + k] = v >> 8 * k & 0xff
        else: out[off, n] = v
    return out


class Watch:
    def __init__(self, I, shared=lambda st: False):
        self.I = I
        self.shared = shared
        self.prev = I.access_hook
        I.access_hook = self.hook
        self.names = {n for n, g in I.m.globals.items() if not g['const'] and g['init'] is not None and not n.startswith(('.str', 'k_', 'llvm.', '__pw_'))}
        self.bases = [('g', n) for n in sorted(self.names)]
        st = I.init_globals(type_state())
        self.initial = {b: content(st, b) for b in self.bases}

    def heap(self, st):
        """heap objects that are reached from static storage -> the root"""
        out = {}
        for r in self.bases:
            work = [r]
            while work:
                for o, (n, v) in st.mem.get(work.pop(), {}).items():
                    v = st.res(v)
                    if isinstance(v, tuple) and v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'h' and v[1] not in out and v[1] not in st.freed:
                        out[v[1]] = r; work.append(v[1])
        return out

    def begin(self, st, api):
        u = st.user
        u['w.api'] = api
        u['w.heap'] = self.heap(st)
        u['w.cold'] = frozenset(b for b in self.bases if content(st, b) == self.initial[b])
        u['w.pend'] = None
        u['w.wrote'] = ()
        u['w.on'] = True

    def hook(self, st, i, what, base, off, n):
        if self.prev: self.prev(st, i, what, base, off, n)
        u = st.user
        if not u.get('w.on'): return
        if what == 'memcpy-src': return          # comes between a copy's announcement and the copy
        if u['w.pend']: self.settle(st)
        if what == 'load': return
        root = base if isinstance(base, tuple) and base[0] == 'g' and base[1] in self.names else u['w.heap'].get(base)
        if root is not None: u['w.pend'] = (base, root, content(st, base), i.file, i.line, i.fn.name, self.shared(st))

    def settle(self, st):
        u = st.user
        base, root, before, f, l, fn, shared = u['w.pend']
        u['w.pend'] = None
        if shared or content(st, base) == before: return
        u['w.wrote'] = u['w.wrote'] + ((root[1], fn, '%s:%s' % (f, l), u['w.api'], root in u['w.cold']),)

    def digest(self, st, root):
        num = {}

        def val(v):
            v = st.res(v)
            if isinstance(v, tuple) and v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'h':
                if v[1] in num: return ('same', num[v[1]], v[2])
                num[v[1]] = len(num)
                return ('block', obj(v[1]), v[2])
            return v if not isinstance(v, tuple) or v[0] in ('p', 'fc') else ('value', scrub(v))

        def obj(b):
            c = content(st, b)
            return tuple((k, val(c[k])) for k in sorted(c, key=str))
        return obj(root)

    def end(self, st):
        """-> (problems, tables built in this call)"""
        u = st.user
        if u.get('w.pend'): self.settle(st)
        u['w.on'] = False
        probs, built = [], []
        for g, fn, at, api, cold in u['w.wrote']:
            if not cold: probs.append((g, fn, at, '%s changes static "%s" after it was set up (in %s)' % (fn, g, api)))
        for g in sorted({w[0] for w in u['w.wrote'] if w[4]}):
            w = [w for w in u['w.wrote'] if w[0] == g][-1]
            if content(st, ('g', g)) == self.initial[('g', g)]: probs.append((g, w[1], w[2], '%s uses static "%s" as scratch storage (in %s)' % (w[1], g, w[3])))
            else: built.append((g, self.digest(st, ('g', g)), w[1], w[2], w[3]))
        return probs, built


def scrub(v):
    """terms without the numbers of fresh symbols"""
    if isinstance(v, tuple): return tuple(scrub(x) for x in v)
    return v


def type_state():
    from .absint import State
    return State()


class Stat(ModRun):
    """ModRun whose API calls are watched"""

    def __init__(self, prog):
        super().__init__(prog)
        self.W = Watch(self.I)
        self.log = None
        self.nest = 0

    def call(self, st, name, args, ok=True):
        if self.log is None or self.nest or name == SETTER and self.setter_only: return super().call(st, name, args, ok)
        self.W.begin(st, name)
        self.nest += 1
        try: out = super().call(st, name, args, ok)
        finally: self.nest -= 1
        for s in out:
            if s.status != 'ret': s.user['w.on'] = False; continue
            self.log['calls'] += 1
            probs, built = self.W.end(s)
            freed = [b for b in s.user['w.heap'] if b in s.freed]
            for b in freed:
                r = s.user['w.heap'][b]
                if r not in s.user['w.cold']: probs.append((r[1], name, name, '%s releases memory static "%s" holds' % (name, r[1])))
            if name == SETTER:
                self.log['config'] |= {(w[0], w[1]) for w in s.user['w.wrote']}
                continue
            for p in probs: self.log['probs'].append(p)
            for b in built: self.log['built'].append(b)
            for w in s.user['w.wrote']:
                if w[4]: self.log['cold'].add((w[0], w[1]))
        return out

    setter_only = False


def newlog(): return dict(calls=0, probs=[], built=[], config=set(), cold=set(), broken=[], points=0)


_w = {}


def _host(k):
    R, cases = _w['R'], _w['cases']
    log = R.log = newlog()
    R.nest = 0
    name, f = cases[k]
    now = time.monotonic()
    if now > _w['end']: log['broken'].append('%s: time limit' % name); return log, name
    Interp.deadline = now + 60
    C = Checker(R, 'P26')
    try: f(R, C)
    except Broken as e: log['broken'].append('%s: %s' % (name, e))
    except RecursionError: log['broken'].append('%s: recursion' % name)
    return log, name


def _trans(part):
    """translation of function bodies: starts in a state in which everything is set up"""
    g, log = _w['gen'], newlog()
    W = _w['genw']
    for env, code, shape in part:
        now = time.monotonic()
        if now > _w['end']: log['broken'].append('%s: time limit' % shape); continue
        Interp.deadline = now + 30
        try:
            for st in g.emit(env, code):
                log['calls'] += 1
                if st.user.get('w.pend'): W.settle(st)
                for gl, fn, at, api, cold in st.user.get('w.wrote', ()):
                    log['probs'].append((gl, fn, at, '%s changes static "%s" while a function body is translated' % (fn, gl)))
        except Broken as e: log['broken'].append('%s: %s' % (shape, e))
    return log, 'translation'


def _sj(part):
    sj, W, gen = _w['sj'], _w['sjw'], _w['fgen']
    sj.use()
    log = newlog()
    for f in part:
        now = time.monotonic()
        if now > _w['end']: log['broken'].append('%s: time limit' % f.name); continue
        Interp.deadline = now + 60
        sj.log = log
        try:
            st = sj.start(f.cpu)
            for _ in range(2):
                st, c = sj.call(st, 'sljit_create_compiler', 0)
                st, labels, named = gen.build(st, c, f.ops)
                st, code = sj.call(st, 'sljit_generate_code', c, 0, 0)
                st, _x = sj.call(st, 'sljit_free_compiler', c)
                if isinstance(code, int) and code: st, _x = sj.call(st, 'sljit_free_code', code, 0)
            st, _x = sj.call(st, 'sljit_free_unused_memory_exec')
            for _ in range(2):
                st, k = sj.call(st, 'sljit_allocate_stack', 4096, 65536, 0)
                if not isinstance(k, int) or k: st, _x = sj.call(st, 'sljit_free_stack', k, 0)
        except (Failed, Broken) as e: log['broken'].append('%s: %s' % (f.name, e))
    return log, 'sljit'


class StatSJ(SJ):
    def __init__(self, m=None):
        super().__init__(m)
        self.log = None
        self.I.ext['pthread_mutex_lock'] = self.lock
        self.I.ext['pthread_mutex_unlock'] = self.unlock
        self.W = Watch(self.I, lambda st: st.user.get('w.lock', 0) > 0)

    def lock(self, I, st, fr, i, a):
        if st.user.get('w.pend'): self.W.settle(st)
        st.user['w.lock'] = st.user.get('w.lock', 0) + 1
        return 0

    def unlock(self, I, st, fr, i, a):
        if st.user.get('w.pend'): self.W.settle(st)
        st.user['w.lock'] = st.user.get('w.lock', 0) - 1
        return 0

    def call(self, st, name, *args):
        if self.log is None: return super().call(st, name, *args)
        self.W.begin(st, name)
        st, r = super().call(st, name, *args)
        self.log['calls'] += 1
        probs, built = self.W.end(st)
        self.log['probs'] += probs
        self.log['built'] += [(g, (st.user['cpu'], d), fn, at, api) for g, d, fn, at, api in built]
        for w in st.user['w.wrote']:
            if w[4]: self.log['cold'].add((w[0], w[1]))
        return st, r


def direct(m, watched):
    """every store, copy or fill whose address is static storage: (global, function, place)"""
    out = set()
    n = 0
    for fn in m.funcs.values():
        insts = [i for b in fn.blocks for i in b.insts]
        defs = {i.id: i for i in insts}

        def roots(op, seen=None):
            seen = seen if seen is not None else set()
            if op[0] == 'g': return {op[1]}
            if op[0] != 'r' or op[1] in seen: return set()
            seen.add(op[1])
            i = defs.get(op[1])
            if i is None: return set()
            if i.op == 'gep': return roots(i.ops[0], seen)
            if i.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'add', 'sub', 'and', 'or'): return set().union(*[roots(o, seen) for o in i.ops])
            if i.op == 'phi': return set().union(*[roots(o, seen) for _, o in i.inc])
            if i.op == 'select': return roots(i.ops[1], seen) | roots(i.ops[2], seen)
            return set()
        for i in insts:
            t = None
            if i.op == 'store': t = i.ops[1]
            elif i.op == 'call' and i.callee and i.callee[0] == 'g' and any(x in i.callee[1] for x in ('memcpy', 'memmove', 'memset', 'strcpy', 'strcat', 'strncpy', 'sprintf')): t = i.ops[0]
            if t is None: continue
            n += 1
            for g in roots(t):
                if g in watched: out.add((g, fn.name, '%s:%s' % (i.file, i.line)))
    return out, n


def reachable(m, start):
    """functions that API functions call, or whose address is taken there"""
    seen, work = set(), [f for f in start if f in m.funcs]
    refs = {}

    def ops(fn):
        for i in (i for b in fn.blocks for i in b.insts):
            for o in list(i.ops or ()) + ([i.callee] if i.callee else []): yield o

    def names(o):
        if isinstance(o, tuple):
            if len(o) >= 2 and o[0] == 'g' and isinstance(o[1], str): yield o[1]
    while work:
        f = work.pop()
        if f in seen: continue
        seen.add(f)
        for o in ops(m.funcs[f]):
            for n in names(o):
                if n in m.funcs: work.append(n)
                elif n in m.globals and m.globals[n]['init']:
                    for off, (sz, x) in m.globals[n]['init'].items():
                        for q in names(x):
                            if q in m.funcs: work.append(q)
    return seen


def run26(tier):
    r = Report('P26', tier, 'other', 'abstract interpretation; store analysis of the IR')
    r.assume = TRUST + ["the modules of pwart_syslib are process-wide by design (one uvwasi state) and not part of this property", "sljit's heap of executable memory is shared by design: what is written with its lock held is the subject of P23"]
    try:
        p = Prog()
        R = Stat(p)
        sj = StatSJ()
        g = Gen(Prog())
    except IRError as e:
        raise AnalysisBroken("cannot load /repo: %s" % e)
    lim = 420 if tier == 'quick' else 2400
    _w['end'] = time.monotonic() + lim
    step = 1 if tier != 'quick' else 4

    def thin(l, k): return [c for n, c in enumerate(l) if n % k == 0]
    cases = thin(list(loadprops.instantiation(tier)), step) + thin(list(hostprops.imports(tier)), step) + thin(list(hostprops.release(tier)), step * 2) + thin(list(hostprops.rejection(tier)), step)
    cases += thin(list(nsprops.namespaces(tier)), step * 2) + thin(list(frameprops.frames(tier)), step * 4) + list(frameprops.builtins(tier)) + [('configuration', frameprops.config_case)]
    _w['R'], _w['cases'] = R, cases
    # translation
    gw = Watch(g.I)
    fr = []
    for fam in (frags.numeric, frags.memory, frags.locals_, frags.calls, frags.control, frags.moved, frags.globals_, frags.tables, frags.bulk): fr += thin(list(fam(tier)), 37 if tier == 'quick' else 5)
    for n in ('locals', 'calls', 'control', 'moved'): fr += mixed.family(n, 40 if tier == 'quick' else 400)(tier)
    orig = g.I.run

    def watched(st, *a, **k):
        if not st.user.get('w.on'): gw.begin(st, 'translation')
        return orig(st, *a, **k)
    g.I.run = watched
    _w['gen'], _w['genw'] = g, gw
    # sljit
    from . import sjfnfam
    from .sjfunc import FGen
    _w['sj'], _w['sjw'], _w['fgen'] = sj, sj.W, FGen(sj)
    fs, seen = [], {}
    for f in sjfnfam.cases(tier):
        if f.exlo != EXLO: continue
        k = f.name.split(':')[0], tuple(o[0] for o in f.ops)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= (2 if tier == 'quick' else 6): fs.append(f)
    n = min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n) as pool:
        a = pool.map_async(_host, range(len(cases)), chunksize=max(1, len(cases) // 64))
        b = pool.map_async(_trans, [fr[k::n * 4] for k in range(n * 4)], chunksize=1)
        c = pool.map_async(_sj, [fs[k::n * 4] for k in range(n * 4)], chunksize=1)
        resh, rest, ress = a.get(), b.get(), c.get()
    probs, built, expl, brk, calls = {}, {}, {'pwart': set(), 'sljit': set()}, [], {}
    cfg = set()
    for part, res in (('pwart', resh), ('translation', rest), ('sljit', ress)):
        for log, name in res:
            calls[part] = calls.get(part, 0) + log['calls']
            brk += log['broken']
            cfg |= log['config']
            for q in log['probs']: probs.setdefault((part, q[0], q[1]), (q[2], q[3], name))
            for gl, d, fn, at, api in log['built']: built.setdefault((part, gl) + ((d[0],) if part == 'sljit' else ()), {}).setdefault(d, (fn, at, api, name))
            if part != 'translation': expl[part] |= log['cold']
    place = {'pwart': 'pwart', 'translation': 'pwart', 'sljit': 'sljit/sljit_src'}
    cfgnames = {x[0] for x in cfg}
    for (part, gl, fn), (at, msg, name) in sorted(probs.items()):
        r.add('static %s %s' % (gl, fn), '%s (%s)' % (at, fn), '%s; case "%s"' % (msg, name))
    for k, v in sorted(built.items(), key=str):
        if len(v) > 1:
            x, y = list(v.values())[:2]
            r.add('history %s' % k[1], '%s (%s)' % (x[1], x[0]), 'what static "%s" holds after the first use depends on that use: set in %s (case "%s") and, differently, in %s (case "%s")' % (k[1], x[2], x[3], y[2], y[3]))
    nst = 0
    unseen = 0
    for part, m, W in (('pwart', p.m, R.W), ('sljit', sj.m, sj.W)):
        ext = [f.name for f in m.funcs.values() if not f.internal]
        live = reachable(m, ext)
        d, n_ = direct(m, W.names)
        nst += n_
        locked = lockset(m)
        for gl, fn, at in sorted(d):
            if fn not in live: continue
            if (gl, fn) in expl[part] or (gl, fn) in cfg: continue
            if part == 'sljit' and (fn in locked or gl in locked): unseen += 1; continue
            if ('pwart' if part == 'pwart' else 'sljit', gl, fn) in probs or ('translation', gl, fn) in probs: continue
            r.add('store %s %s' % (gl, fn), '%s (%s)' % (at, fn), '%s writes static "%s", which is neither the configuration nor a table built on first use' % (fn, gl))
    r.cov.update(cases=len(cases) + len(fr) + len(fs), obligations=sum(calls.values()), api_calls=calls.get('pwart', 0), translations=calls.get('translation', 0), sljit_calls=calls.get('sljit', 0),
                 static_objects=len(R.W.names) + len(sj.W.names), stores_analysed=nst, stores_under_lock=unseen, tables_built_on_first_use=sorted({k[1] for k in built}), configuration=sorted(cfgnames),
                 not_analysed=len(brk), not_analysed_samples=brk[:5], functions=len(p.m.funcs) + len(sj.m.funcs), samples=[cases[0][0], cases[len(cases) // 2][0], fr[0][2], fs[0].name],
                 rule='no API call changes static storage or memory only static storage points to, except pwart_set_global_compile_config the configuration and the first use tables that are the same for every first use',
                 explanation='Stores into static storage are watched while API calls, translations and sljit calls are interpreted abstractly; every direct store of the IR into static storage must belong to one of the two exceptions.')
    if sum(calls.values()) < 4000 and not r.items:
        r.finish()
        raise AnalysisBroken("only %d calls could be analysed: %s" % (sum(calls.values()), brk[:3]))
    return r.finish()


def lockset(m):
    """functions of the executable allocator (called between lock and unlock) and functions that take a lock themselves"""
    out = set()
    for f in m.funcs.values():
        if any(i.op == 'call' and i.callee and i.callee[0] == 'g' and 'mutex_lock' in i.callee[1] for b in f.blocks for i in b.insts): out.add(f.name)
    callers = {}
    for f in m.funcs.values():
        for i in (i for b in f.blocks for i in b.insts):
            if i.op == 'call' and i.callee and i.callee[0] == 'g': callers.setdefault(i.callee[1], set()).add(f.name)
    for n, c in callers.items():
        if n in m.funcs and m.funcs[n].internal and c and all(x in out for x in c): out.add(n)
    return out
