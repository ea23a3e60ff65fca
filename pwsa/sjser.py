"""P25: a compiler rebuilt from its serialized form generates the same code"""
import multiprocessing, os, random, time
from .absint import Broken, Interp, aspair
from .sjmach import SJ, Failed, FULL, EXLO
from .sjfunc import FGen
from .ir import IRError
from .report import Report, AnalysisBroken
from .sjprops import TRUST
from .sjmem import Oom

KINDS = ('label', 'jump', 'const')


class Differs(Exception): pass


class Ser:
    def __init__(self, sj):
        self.sj = sj
        self.gen = FGen(sj)
        self.bad = {}
        self.broken = []
        self.stats = dict(cases=0, obligations=0, equal=0, cuts=0, faults=0)
        self.oom = Oom(sj, FULL)

    def prob(self, fn, key, msg):
        k = (fn, key)
        if k not in self.bad or len(self.bad[k]) > len(msg): self.bad[k] = msg

    def things(self, st, c):
        out = {}
        for n in KINDS:
            l = out[n] = []
            st, x = self.sj.call(st, 'w_first_' + n, c)
            while not (isinstance(x, int) and x == 0):
                l.append(x)
                if len(l) > 3000: raise Differs("the list of %ss does not end" % n)
                st, x = self.sj.call(st, 'w_next_' + n, x)
        return st, out

    def index(self, st, a, ref):
        """what the compiler tells about its labels and jumps"""
        call = self.sj.call
        out = []
        for l in ref['label']:
            st, v = call(st, 'sljit_get_label_index', l)
            out.append(('index of label', v))
        for j in ref['jump']:
            for f in ('sljit_jump_has_label', 'sljit_jump_has_target', 'sljit_jump_is_mov_addr'):
                st, v = call(st, f, j)
                out.append((f, v))
        return st, out

    def cut(self, twice=False):
        def f(st, c, th):
            call = self.sj.call
            for _ in range(2 if twice else 1):
                st, old = self.things(st, c)
                st, i0 = self.index(st, c, old)
                p = ('p', ('OUT', 0), 0)
                st.obj(('OUT', 0), 'zero')
                st, buf = call(st, 'sljit_serialize_compiler', c, 0, p)
                st, e = call(st, 'w_error', c)
                if isinstance(buf, int) and buf == 0: raise Differs("sljit_serialize_compiler gives no buffer")
                n = st.get(('OUT', 0), 0, 8)
                b, o = aspair(buf)
                if n != st.size.get(b): raise Differs("sljit_serialize_compiler gives the size %r of a buffer of %r bytes" % (n, st.size.get(b)))
                # the compiler is released before the buffer is used
                st, _ = call(st, 'sljit_free_compiler', c)
                self.last = (st.copy(), buf, n)
                st, d = call(st, 'sljit_deserialize_compiler', buf, n, 0, 0)
                if isinstance(d, int) and d == 0: raise Differs("sljit_deserialize_compiler rejects what sljit_serialize_compiler made")
                self.oom.free(self.sj.I, st, None, self.inst, [buf])
                st, new = self.things(st, d)
                for k in KINDS:
                    if len(new[k]) != len(old[k]): raise Differs("%d %ss before and %d after" % (len(old[k]), k, len(new[k])))
                st, i1 = self.index(st, d, new)
                for x, y in zip(i0, i1):
                    if x != y: raise Differs("%s is %r before and %r after" % (x[0], x[1], y[1]))
                m = {}
                for k in KINDS:
                    for x, y in zip(old[k], new[k]): m[x] = y
                th = [m.get(x) for x in th]
                if None in th: raise Differs("a label, jump or constant is not in the lists of the compiler")
                c = d
            return st, c, th
        return f

    def code(self, ops, cpu, cut=None):
        sj = self.sj
        st = sj.start(cpu)
        st.user['oom'] = None
        st, c = sj.call(st, 'sljit_create_compiler', 0)
        self.gen.c = c
        st, labels, named = self.gen.build(st, c, ops, cut)
        c = self.gen.c
        st, code = sj.call(st, 'sljit_generate_code', c, 0, 0)
        if not isinstance(code, int) or code == 0: raise Failed("sljit_generate_code returns %r" % (code,))
        st, n = sj.call(st, 'w_code_size', c)
        addr = {}
        for k, l in labels.items(): st, addr['label %s' % k] = sj.call(st, 'w_label_addr', l)
        for k, (t, x) in named.items(): st, addr['%s %s' % (t, k)] = sj.call(st, 'w_const_addr' if t == 'const' else 'w_jump_addr', x)
        # what the lists of the compiler tell, in their order
        st, th = self.things(st, c)
        for t, l in th.items():
            where = []
            for x in l:
                st, v = sj.call(st, 'w_%s_addr' % t, x)
                where.append(v)
            addr['the list of %ss' % t] = tuple(where)
        st, _ = sj.call(st, 'sljit_free_compiler', c)
        if st.user.get('al'): raise Differs("%d allocations are not released" % len(st.user['al']))
        lo = sj.exlo
        return tuple(st.get(('CODE', 0), code - lo + i, 1) for i in range(n)), addr

    def case(self, f, deep):
        self.sj.use()
        self.stats['cases'] += 1
        sj = self.sj
        try: want = self.code(f.ops, f.cpu)
        except (Failed, Differs, Broken) as e:
            self.broken.append('%s: %s' % (f.name, e))
            return
        n = len(f.ops)
        deep = deep or f.name.startswith('interleaved')
        cuts = sorted({1, 2, n // 2, n - 1, n, n + 1} | (set(range(1, n)) if deep else set()))
        for k in cuts:
            if not 0 < k <= n + 1: continue
            for twice in ((False, True) if k == n // 2 else (False,)):
                self.stats['cuts'] += 1
                ctx = '%s, serialized %s' % (f.name, 'before "%s"' % (f.ops[k][0],) if k < n else 'before jumps are set' if k == n else 'at the end')
                try: got = self.code(f.ops, f.cpu, (k, self.cut(twice)))
                except Differs as e:
                    self.prob('round trip', str(e).split('(')[0].strip('0123456789'), '%s: %s' % (ctx, e)); continue
                except Failed as e:
                    self.prob('round trip', 'failure', '%s: %s' % (ctx, e)); continue
                except Broken as e:
                    self.broken.append('%s: %s' % (ctx, e)); continue
                self.stats['obligations'] += 1 + len(want[1])
                if got == want: self.stats['equal'] += 1 + len(want[1]); continue
                if len(got[0]) != len(want[0]): what = 'the code has %d bytes instead of %d' % (len(got[0]), len(want[0]))
                elif got[0] != want[0]:
                    i = next(i for i in range(len(got[0])) if got[0][i] != want[0][i])
                    what = 'byte %d of the code is %s instead of %s' % (i, got[0][i] if not isinstance(got[0][i], int) else hex(got[0][i]), hex(want[0][i]) if isinstance(want[0][i], int) else want[0][i])
                else:
                    q = next(q for q in want[1] if got[1].get(q) != want[1][q])
                    what = '%s is at %r instead of %r' % (q, got[1].get(q), want[1][q])
                self.prob('round trip', 'code', '%s: %s' % (ctx, what))
        if f.name.split(':')[0] in self.done: return
        self.done.add(f.name.split(':')[0])
        self.faults(f)

    done = set()

    def faults(self, f):
        """buffers cut short or of another kind, allocations that fail"""
        call = self.sj.call
        n = len(f.ops)
        try: self.code(f.ops, f.cpu, (n, self.cut()))
        except (Failed, Differs, Broken): return
        st0, buf, size = self.last
        b, o = aspair(buf)
        al0 = st0.user.get('al', ())

        def run(what, prep, fn, args, maysucceed=False):
            self.stats['faults'] += 1
            self.stats['obligations'] += 1
            st = st0.copy()
            prep(st)
            try:
                st, r = call(st, fn, *args)
                if not (isinstance(r, int) and r == 0):
                    if maysucceed and not st.user.get('hit'): return True
                    self.prob(fn, what.split(' at ')[0], '%s, %s: %s gives a result' % (f.name, what, fn))
                elif st.user.get('al', ()) != al0: self.prob(fn, 'leak', '%s, %s: %d allocations are not released' % (f.name, what, len(st.user['al']) - len(al0)))
            except Failed as e: self.prob(fn, 'memory', '%s, %s: %s' % (f.name, what, e))
            except Broken as e: self.broken.append('%s, %s: %s' % (f.name, what, e))

        def nothing(st): pass

        def shorter(n):
            def p(st): st.size[b] = n
            return p
        for z in list(range(0, min(size, 400), 8)) + list(range(max(400, size - 160), size, 8)): run('a buffer cut at %d bytes' % z, shorter(z), 'sljit_deserialize_compiler', (buf, z, 0, 0))
        for z in (1, 7, size - 1, size - 7): run('a size of %d bytes' % z, nothing, 'sljit_deserialize_compiler', (buf, z, 0, 0))

        def patch(off):
            def p(st): st.put(b, off, 1, st.get(b, off, 1) ^ 0x41)
            return p
        for off in (0, 1, 2, 3, 4, 5): run('another %s' % ('signature' if off < 4 else 'version'), patch(off), 'sljit_deserialize_compiler', (buf, size, 0, 0))
        for k in range(12):
            def few(st): st.user['oom'] = k
            if run('no memory for allocation %d' % (k + 1), few, 'sljit_deserialize_compiler', (buf, size, 0, 0), True): break


_w = {}


def interleaved(count):
    """programs with several labels, jumps, calls, addresses and constants, so that every list has members on both sides of a cut"""
    from .sjfnfam import Fn, ent, mov, r, i, R0, R1, S0, EN, EF
    from .sjfnfam import SP
    rng = random.Random(2500)
    for n in range(count):
        ops = [ent('W', ('W', 'P'), 7, 6, 2, 32), mov(r(R0), r(S0))]
        kinds = ['label', 'label', 'const', 'const', 'jmp', 'jmp', 'rwjmp', 'call', 'addr', 'alabel', 'cmpj', 'pad', 'op', 'target']
        body = [rng.choice(kinds) for _ in range(rng.randint(6, 14))] + ['label', 'const', 'jmp', 'const', 'label']
        rng.shuffle(body)
        labs = ['l%d' % k for k in range(sum(b in ('label', 'alabel') for b in body))]
        nl = nk = 0
        for b in body:
            nk += 1
            if b == 'label': ops.append(('label', labs[nl])); nl += 1
            elif b == 'alabel': ops.append(('alabel', labs[nl], rng.randrange(5))); nl += 1
            elif b == 'const': ops.append(('const', rng.choice(['MOV', 'MOV32', 'MOV_S32', 'MOV_U8', 'MOV32_U8']), rng.choice([r(R0), r(R1), ('m1', SP, 8)]), rng.choice([1, 0x77]), 'c%d' % nk))
            elif b == 'jmp': ops.append(('jmp', 'JUMP', rng.choice(labs)))
            elif b == 'target': ops.append(('jmp', 'JUMP', rng.choice([EN, EF])))
            elif b == 'rwjmp': ops.append(('jmp', 'JUMP', rng.choice(labs), 'rw', ('name', 'j%d' % nk)))
            elif b == 'cmpj': ops.append(('cmpj', 'SIG_LESS', 0, r(R0), i(5), rng.choice(labs)))
            elif b == 'call': ops.append(('call', 'CALL', 'W', ('W',), rng.choice([EN, EF])))
            elif b == 'addr': ops.append(('addr', rng.choice(['MOV_ADDR', 'MOV_ABS_ADDR']), r(R1), rng.choice(labs), 'a%d' % nk))
            elif b == 'pad': ops.append(('pad', rng.choice([3, 40, 130])))
            else: ops.append(('op2', 'ADD', (), r(R0), r(R0), i(nk)))
        yield Fn('interleaved: #%d' % n, ops + [('ret', 'MOV', r(R0))], [None, ('ptr', {})])


def _go(part):
    sj, end, deep = _w['sj'], _w['end'], _w['deep']
    sj.use()
    S = Ser(sj)
    S.inst = sj.m.funcs['sljit_free_compiler'].blocks[0].insts[0]
    Ser.done = set()
    skipped = 0
    for f in part:
        if time.monotonic() > end:
            skipped += 1
            continue
        Interp.deadline = time.monotonic() + 120
        S.case(f, deep)
    return list(S.bad.items()), S.broken, S.stats, skipped


def run25(tier):
    from . import sjfnfam
    r = Report('P25', tier, 'other', 'abstract interpretation')
    r.assume = TRUST
    try: sj = SJ()
    except IRError as e: raise AnalysisBroken("cannot load /repo/sljit: %s" % e)
    cs, seen = [], {}
    lim = 3 if tier == 'quick' else 20
    for f in list(sjfnfam.cases(tier)) + list(interleaved(24 if tier == 'quick' else 120)):
        if f.exlo != EXLO: continue
        k = f.name.split(':')[0], tuple(o[0] if o[0] == 'pad' else (o[0],) + tuple(x for x in o[1:] if isinstance(x, str)) for o in f.ops)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= lim or k[0] == 'interleaved': cs.append(f)
    _w.update(sj=sj, end=time.monotonic() + (400 if tier == 'quick' else 2400), deep=tier != 'quick')
    n = min(8, os.cpu_count() or 1)
    with multiprocessing.get_context('fork').Pool(n) as pool: res = pool.map(_go, [cs[k::n * 3] for k in range(n * 3) if cs[k::n * 3]], chunksize=1)
    bad, brk, tot, skipped = {}, [], {}, 0
    for b, k, s, sk in res:
        for key, m in b:
            if key not in bad or len(bad[key]) > len(m): bad[key] = m
        brk += k; skipped += sk
        for a, v in s.items(): tot[a] = tot.get(a, 0) + v
    for (f, k), m in sorted(bad.items()): r.add('%s %s' % (f, k), 'sljit/sljit_src/sljitSerialize.c (%s)' % f, m[:600])
    r.cov.update(cases=tot['cases'], cuts=tot['cuts'], faults=tot['faults'], obligations=tot['obligations'], equal=tot['equal'], not_analysed=len(brk) + skipped, not_analysed_samples=brk[:5], functions=len(sj.m.funcs),
                 samples=[cs[k].name for k in sorted({0, len(cs) // 3, len(cs) // 2, len(cs) - 1})],
                 rule='a compiler serialized at any point of a program, released, rebuilt and continued generates the same code with labels, jumps and constants at the same places; buffers that are cut short or of another kind and failing '
                      'allocations give NULL, read nothing behind the buffer and leave no allocation',
                 explanation='Programs of every family of P22 are generated by abstract interpretation twice, once with a round trip at the beginning, middle or end; the resulting code is compared byte by byte.')
    if tot['equal'] < 1000 and not r.items:
        r.finish()
        raise AnalysisBroken("only %d round trips could be analysed: %s" % (tot['equal'], brk[:3]))
    return r.finish()
