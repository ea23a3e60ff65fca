"""P21-P23: the machine code the bundled sljit generates (x86-64), compared with the description of its operations in sljitLir.h"""
import multiprocessing, os, time
from . import absint
from .absint import Broken, State, mask, aspair, Interp
from .val import Val, valuations, directed, canonical, Undef, NoMeaning, b2f
from .x86 import Machine, BadCode, T
from .sjmach import SJ, Failed, explore, FULL, BASE, REPO
from .sljspec import Lir, setof, ICOND, FP, FSET, NEGATED
from .ir import IRError
from .report import Report, AnalysisBroken

SPB = ('STK', 's')
LOCALS = 256


def regs_of(ops):
    """registers used as base and as index"""
    base, idx = set(), set()
    for o in ops:
        for x in o[1:]:
            if isinstance(x, tuple) and x:
                if x[0] in ('m1', 'm2'): base.add(x[1])
                if x[0] == 'm2': idx.add(x[2])
    return base, idx


class Case:
    """a sequence of LIR operations; checked from the label before it to the label behind it"""

    def __init__(self, name, ops, cpu=FULL):
        self.name, self.ops, self.cpu = name, ops, cpu


class Gen:
    """emits sequences of operations"""

    def __init__(self, sj):
        self.sj = sj
        self.k = sj.k

    def opnd(self, o):
        k = self.k
        if o[0] in ('r', 'f'): return o[1], 0
        if o[0] == 'i': return k['IMM'], o[1]
        if o[0] == 'm0': return k['MEM'], o[1]
        if o[0] == 'm1': return k['MEM'] | o[1], o[2]
        if o[0] == 'm2': return k['MEM'] | o[1] | o[2] << 8, o[3]
        if o[0] == 'pair': return o[1] | o[2] << 8, 0
        raise Broken("operand %r" % (o,))

    def op(self, name): return self.k[name]

    def setf(self, flags):
        r = 0
        for f in flags: r |= self.k['SET_' + f]
        return r

    def emit(self, st, c, o):
        k, call = o[0], self.sj.call
        X = self.opnd
        op = self.op
        jump = None
        if k == 'op0': st, e = call(st, 'sljit_emit_op0', c, op(o[1]))
        elif k == 'op1': st, e = call(st, 'sljit_emit_op1', c, op(o[1]), *X(o[2]), *X(o[3]))
        elif k == 'op2': st, e = call(st, 'sljit_emit_op2', c, op(o[1]) | self.setf(o[2]), *X(o[3]), *X(o[4]), *X(o[5]))
        elif k == 'op2u': st, e = call(st, 'sljit_emit_op2u', c, op(o[1]) | self.setf(o[2]), *X(o[3]), *X(o[4]))
        elif k == 'op2r': st, e = call(st, 'sljit_emit_op2r', c, op(o[1]), o[2][1], *X(o[3]), *X(o[4]))
        elif k == 'shift_into': st, e = call(st, 'sljit_emit_shift_into', c, op(o[1]) | (self.k['SHIFT_INTO_NON_ZERO'] if o[2] else 0), o[3][1], o[4][1], o[5][1], *X(o[6]))
        elif k == 'op_flags': st, e = call(st, 'sljit_emit_op_flags', c, op(o[1]) | (self.k['SET_Z'] if o[2] else 0), *X(o[3]), op(o[4]))
        elif k == 'select': st, e = call(st, 'sljit_emit_select', c, op(o[1]) | (self.k['32'] if o[2] else 0), o[3][1], *X(o[4]), o[5][1])
        elif k == 'fselect': st, e = call(st, 'sljit_emit_fselect', c, op(o[1]) | (self.k['32'] if o[2] else 0), o[3][1], *X(o[4]), o[5][1])
        elif k == 'fop1': st, e = call(st, 'sljit_emit_fop1', c, op(o[1]) | (self.setf([o[2]]) if o[2] else 0), *X(o[3]), *X(o[4]))
        elif k == 'fop2': st, e = call(st, 'sljit_emit_fop2', c, op(o[1]), *X(o[2]), *X(o[3]), *X(o[4]))
        elif k == 'fop2r': st, e = call(st, 'sljit_emit_fop2r', c, op(o[1]), o[2][1], *X(o[3]), *X(o[4]))
        elif k in ('fset32', 'fset64'): st, e = call(st, 'sljit_emit_' + k, c, o[1], o[2])
        elif k == 'fcopy': st, e = call(st, 'sljit_emit_fcopy', c, op(o[1]), o[2], X(o[3])[0])
        elif k == 'mem': st, e = call(st, 'sljit_emit_mem', c, op(o[1]) | self.k['MEM_STORE' if o[2] else 'MEM_LOAD'] | (self.k[o[5]] if len(o) > 5 and o[5] else 0), X(o[3])[0], *X(o[4]))
        elif k == 'fmem': st, e = call(st, 'sljit_emit_fmem', c, op(o[1]) | self.k['MEM_STORE' if o[2] else 'MEM_LOAD'] | (self.k[o[5]] if len(o) > 5 and o[5] else 0), o[3], *X(o[4]))
        elif k in ('cmp', 'fcmp'):
            st, jump = call(st, 'sljit_emit_' + k, c, op(o[1]) | (self.k['32'] if o[2] else 0), *X(o[3]), *X(o[4]))
        elif k == 'jump': st, jump = call(st, 'sljit_emit_jump', c, op(o[1]))
        elif k == 'op2cmpz': st, jump = call(st, 'sljit_emit_op2cmpz', c, op(o[1]) | self.setf(o[2]) | self.k['JUMP_IF_ZERO' if o[3] else 'JUMP_IF_NON_ZERO'], *X(o[4]), *X(o[5]), *X(o[6]))
        else: raise Broken("operation %r" % (k,))
        if jump is not None:
            if jump == 0 and isinstance(jump, int): raise Failed("sljit_emit_%s returns no jump" % k)
            st, e = call(st, 'sljit_emit_op1', c, self.k['MOV'], o[-1], 0, self.k['IMM'], 0x77)
            st, l = call(st, 'sljit_emit_label', c)
            st, _ = call(st, 'sljit_set_label', jump, l)
        if not (isinstance(e, int) and e == 0): raise Failed("sljit_emit_%s returns %r" % (k, e))
        return st


class Base:
    """a compiler just after sljit_emit_enter, for one set of CPU features"""

    def __init__(self, sj, cpu):
        st = sj.start(cpu)
        st, c = sj.call(st, 'sljit_create_compiler', 0)
        k = sj.k
        nr, ns = k['NUMBER_OF_REGISTERS'], k['NUMBER_OF_SAVED_REGISTERS']
        nf, nfs = k['NUMBER_OF_FLOAT_REGISTERS'], k['NUMBER_OF_SAVED_FLOAT_REGISTERS']
        st, e = sj.call(st, 'sljit_emit_enter', c, 0, 0, nr - ns | nf - nfs << 8, ns | nfs << 8, LOCALS)
        if e != 0: raise Failed("sljit_emit_enter returns %r" % (e,))
        self.c, self.sj, self.cpu = c, sj, cpu
        self.rm, self.fm = sj.regmap(st), sj.regmap(st, True)
        self.st = st


class Ctx:
    def __init__(self, sj):
        self.sj = sj
        self.gen = Gen(sj)
        self.bases = {}
        self.memo = {}
        self.stats = dict(cases=0, paths=0, obligations=0, equal=0, folded=0, undecided=0, instructions=0, not_analysed=0)
        self.problems = []        # (category, name, message)
        self.broken = []

    def base(self, cpu):
        b = self.bases.get(cpu)
        if b is None: b = self.bases[cpu] = Base(self.sj, cpu)
        return b

    # ---- a batch of cases compiled into one function ---------------------------------------------
    def batch(self, cases):
        self.sj.use()
        b = self.base(cases[0].cpu)
        st = b.st.copy()
        marks = []
        for cs in cases:
            keep = st.copy()
            try:
                st, l0 = self.sj.call(st, 'sljit_emit_label', b.c)
                for o in cs.ops: st = self.gen.emit(st, b.c, o)
                st, l1 = self.sj.call(st, 'sljit_emit_label', b.c)
                marks.append((cs, l0, l1))
            except Failed as e:
                self.problems.append(('rejected', cs, str(e)))
                st = keep
            except Broken as e:
                self.broken.append('%s: %s' % (cs.name, e))
                st = keep
        if not marks: return
        try:
            st, e = self.sj.call(st, 'sljit_emit_return_void', b.c)
            st, code = self.sj.call(st, 'sljit_generate_code', b.c, 0, 0)
            if not isinstance(code, int) or code == 0: raise Failed("sljit_generate_code returns %r" % (code,))
            st, size = self.sj.call(st, 'w_code_size', b.c)
            addrs = []
            for cs, l0, l1 in marks:
                st, a = self.sj.call(st, 'w_label_addr', l0)
                st, z = self.sj.call(st, 'w_label_addr', l1)
                addrs.append((cs, a, z))
        except Failed as e:
            if len(cases) > 1:
                for cs in cases: self.batch([cs])
            else: self.problems.append(('code generation', cases[0], str(e)))
            return
        except Broken as e:
            self.broken.append('%s..: %s' % (cases[0].name, e))
            return
        lo = self.sj.exlo
        self.codebytes = lambda ip: st.get(('CODE', 0), ip - lo, 1) if code <= ip < code + size else None
        for cs, a, z in addrs: self.one(b, st, cs, a, z)

    def init(self, b, st, cs):
        """initial values: machine and reference"""
        base, idx = regs_of(cs.ops)
        s0 = st.copy()
        s0.obj(SPB, 'lazy')
        r, f = {}, {}
        for n in b.rm:
            if n == self.sj.k['SP']: r[n] = ('p', SPB, 0)
            elif n in base:
                s0.obj(('M', n), 'lazy')
                r[n] = ('p', ('M', n), 0x40)
            elif n in idx: r[n] = 0x35 + 2 * n
            else: r[n] = ('s', 64, ('in', n))
        for n in b.fm: f[n] = ('s', 64, ('fin', n))
        return s0, r, f

    def one(self, b, st, cs, a, z):
        self.stats['cases'] += 1
        s0, r, f = self.init(b, st, cs)
        ref = Lir(s0.copy(), None)
        ref.r, ref.f = dict(r), dict(f)
        try: ref.run(cs.ops)
        except Broken as e:
            self.broken.append('%s: reference: %s' % (cs.name, e)); return
        m = Machine(s0, self.codebytes)
        m.feats = frozenset(cs.cpu)
        inv = {v: k for k, v in b.rm.items()}
        for k in range(16): m.r[k] = r[inv[k]] if k in inv else ('s', 64, ('tmp', k))
        inf = {v: k for k, v in b.fm.items()}
        for k in range(16): m.x[k] = [f[inf[k]] if k in inf else ('s', 64, ('ftmp', k)), ('s', 64, ('fhi', k))]
        m.alignof = lambda base: 0
        m.cf, m.zf, m.sf, m.of, m.pf = [('s', 1, ('fl0', k)) for k in range(5)]
        m.ip = a
        try:
            def done(x):
                if x.ip == z: return True
                if isinstance(x.ip, int) and not a <= x.ip < z: raise BadCode("control goes to %+d from the start of %d bytes of code" % (x.ip - a, z - a))
                self.stats['instructions'] += 1
                return False
            outs = explore(m, done)
        except BadCode as e:
            self.problems.append(('code', cs, '%s (%s)' % (e, self.hexof(a, z)))); return
        except Broken as e:
            self.broken.append('%s: %s' % (cs.name, e))
            self.stats['not_analysed'] += 1
            return
        code = self.hexof(a, z)
        for x in outs:
            self.stats['paths'] += 1
            self.compare(b, cs, x, ref, code, s0)

    def hexof(self, a, z): return ''.join('%02x' % self.codebytes(k) for k in range(a, min(z, a + 48)))

    def compare(self, b, cs, x, ref, code, s0):
        names = {}
        for n, h in b.rm.items():
            w = 32 if n in ref.low else 64
            if not self.same(cs, x, ref, 'register %s' % self.rname(n), T(x.r[h], w) if w == 32 else x.r[h], T(ref.r[n], w) if w == 32 else ref.r[n], w, False, code): return
        for n, h in b.fm.items():
            w = 32 if n in ref.flow else 64
            if not self.same(cs, x, ref, 'float register FR%d' % (n - 1), T(x.x[h][0], w) if w == 32 else x.x[h][0], T(ref.f[n], w) if w == 32 else ref.f[n], w, n in ref.nanfree, code): return
        # memory
        wm = {(bb, o, n) for k, bb, o, n in x.log if k == 'w' and not self.private(bb, o)}
        wr = {(bb, o, n) for k, bb, o, n in ref.log if k == 'w'}
        for bb, o, n in sorted(wr, key=repr):
            if not self.same(cs, x, ref, '%d bytes at %s' % (n, self.loc(bb, o)), x.st.get(bb, o, n), ref.st.get(bb, o, n), 8 * n, ref.msk.get((bb, o, n)), code): return
        for bb, o, n in sorted(wm - wr, key=repr):
            for k in range(n):
                if isinstance(o, int) and any(b2 == bb and isinstance(o2, int) and o2 <= o + k < o2 + n2 for b2, o2, n2 in wr): continue
                at = absint.mkbin('add', 64, o, k) if not isinstance(o, int) else o + k
                if not self.same(cs, x, ref, 'byte at %s, which the operation does not write' % self.loc(bb, o), x.st.get(bb, at, 1), s0.get(bb, at, 1), 8, False, code): return
        # reads stay within what the operation reads
        ok = [(bb, o, n) for k, bb, o, n in ref.log]
        for k, bb, o, n in x.log:
            if k != 'r' or self.private(bb, o) or isinstance(bb, tuple) and bb[0] == 'g': continue
            if bb == ('abs',) and not ok: pass
            self.stats['obligations'] += 1
            if isinstance(o, int) and all(any(b2 == bb and isinstance(o2, int) and o2 <= o + j < o2 + n2 for b2, o2, n2 in ok) for j in range(n)): continue
            if not isinstance(o, int): continue
            self.problems.append(('memory read', cs, 'reads %d bytes at %s, outside of the operands (%s)' % (n, self.loc(bb, o), code)))
            return

    def private(self, bb, o):
        return bb == SPB and isinstance(o, int) and o < 0

    def loc(self, b, o):
        if b == ('abs',): return hex(o) if isinstance(o, int) else str(o)
        if b == SPB: return 'SP%+d' % o if isinstance(o, int) else 'SP+?'
        if b[0] == 'M': return '%s%+d' % (self.rname(b[1]), o - 0 if isinstance(o, int) else 0)
        return str(b)

    def rname(self, n):
        k = self.sj.k
        if n == k['SP']: return 'SP'
        lo = k['NUMBER_OF_REGISTERS'] - k['NUMBER_OF_SAVED_REGISTERS']
        return 'R%d' % (n - 1) if n <= lo else 'S%d' % (k['NUMBER_OF_REGISTERS'] - n)

    def same(self, cs, x, ref, what, tm, tr, w, nan, code):
        self.stats['obligations'] += 1
        if tm == tr:
            self.stats['equal'] += 1
            return True
        conds = tuple(x.conds) + tuple(ref.need)
        flat = [t for t, _ in conds]
        key = canonical([tm, tr] + flat)
        if key is not None:
            key = (key, tuple(v for _, v in conds), nan, w)
            r = self.memo.get(key)
            if r is not None:
                self.stats[r] += 1
                return True
        n = 0
        for v in self.witnesses(tm, tr, conds):
            try: e = v.ev(tr) & mask(w)
            except (Undef, NoMeaning): continue
            try: g = v.ev(tm) & mask(w)
            except NoMeaning: continue
            except Undef: g = None
            n += 1
            if g == e: continue
            if nan and g is not None:
                if b2f(w, g) != b2f(w, g) and b2f(w, e) != b2f(w, e): continue
            ins = []
            for s in sorted(self.inputs([tm, tr] + flat), key=repr)[:4]:
                try: ins.append('%s=%#x' % (self.iname(s), v.ev(s)))
                except (Undef, NoMeaning): pass
            self.problems.append(('value', cs, '%s is %s instead of %#x when %s (%s)' % (what, 'undefined' if g is None else '%#x' % g, e, ', '.join(ins) or 'always', code)))
            return False
        r = 'folded' if n >= 8 else 'undecided'
        self.stats[r] += 1
        if key is not None: self.memo[key] = r
        return True

    def iname(self, s):
        n = s[2]
        if isinstance(n, tuple) and n[0] == 'in': return self.rname(n[1])
        if isinstance(n, tuple) and n[0] == 'fin': return 'FR%d' % (n[1] - 1)
        if isinstance(n, tuple) and n[0] == 'm': return '[%s]' % self.loc(n[1], n[2])
        return str(n)

    def inputs(self, ts):
        from .val import symbols
        out = []
        for t in ts: symbols(t, out)
        return out

    def witnesses(self, tm, tr, conds):
        yield from directed([tm, tr], conds)
        yield from valuations(conds, 'sj', tries=400, want=24)


# ---- running ------------------------------------------------------------------------------------------------------
_w = {}


def _go(part):
    sj, end = _w['sj'], _w['end']
    C = Ctx(sj)
    by = {}
    for cs in part: by.setdefault(cs.cpu, []).append(cs)
    skipped = 0
    for cpu, l in by.items():
        for k in range(0, len(l), 24):
            if time.monotonic() > end:
                skipped += len(l) - k
                break
            Interp.deadline = time.monotonic() + 120
            try: C.batch(l[k:k + 24])
            except (Failed,) as e: C.problems.append(('setup', l[k], str(e)))
            except Broken as e: C.broken.append('%s..: %s' % (l[k].name, e))
    C.stats['skipped'] = skipped
    return [(c, cs.name, msg) for c, cs, msg in C.problems], C.broken, C.stats


def family(name): return name.split(':')[0]


def analyse(sj, cases, limit):
    _w['sj'], _w['end'] = sj, time.monotonic() + limit
    n = min(8, os.cpu_count() or 1)
    parts = [cases[k::n * 4] for k in range(n * 4)]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n) as pool: res = pool.map(_go, [p for p in parts if p], chunksize=1)
    probs, broken, stats = [], [], {}
    for a, b, s in res:
        probs += a; broken += b
        for k, v in s.items(): stats[k] = stats.get(k, 0) + v
    return probs, broken, stats


# ---- P21 ----------------------------------------------------------------------------------------------------------
ENTRY = {'op0': 'sljit_emit_op0', 'op1': 'sljit_emit_op1', 'op2': 'sljit_emit_op2', 'op2u': 'sljit_emit_op2u', 'op2r': 'sljit_emit_op2r', 'shift_into': 'sljit_emit_shift_into', 'op_flags': 'sljit_emit_op_flags',
         'select': 'sljit_emit_select', 'fselect': 'sljit_emit_fselect', 'fop1': 'sljit_emit_fop1', 'fop2': 'sljit_emit_fop2', 'fop2r': 'sljit_emit_fop2r', 'fset32': 'sljit_emit_fset32', 'fset64': 'sljit_emit_fset64',
         'fcopy': 'sljit_emit_fcopy', 'mem': 'sljit_emit_mem', 'fmem': 'sljit_emit_fmem', 'cmp': 'sljit_emit_cmp', 'fcmp': 'sljit_emit_fcmp', 'jump': 'sljit_emit_jump', 'op2cmpz': 'sljit_emit_op2cmpz'}
TRUST = ["clang's -O0 + mem2reg IR represents the source of /repo/sljit/sljit_src on x86-64 Linux (the configuration pwart builds)",
         "pwsa/x86.py gives each instruction the meaning of the Intel manual; an instruction it does not know is not analysed and never reported",
         "operations are described by the comments of sljitLir.h; what these leave undefined (high halves of 32 bit results, NaN payloads of results, shift counts out of range for plain shifts on memory operands) is not compared"]


def mainop(cs):
    """the operation a case is about: the first one that is not a plain preparation"""
    k = cs.name.split(':')[0]
    ops = cs.ops
    if k in ('condition', 'select', 'fselect') and len(ops) > 1: return ops[1]
    if k == 'compare' and len(ops) > 1 and ops[1][0] in ('op_flags', 'select', 'fselect'): return ops[0] if ops[1][1] == 'MOV' else ops[1]
    if k == 'mov between': return ops[1]
    return ops[0]


def nameop(o): return '%s %s' % (ENTRY.get(o[0], o[0]), o[1] if isinstance(o[1], str) else '')


def run21(tier):
    from . import sjfam
    r = Report('P21', tier, 'translation_validation', 'abstract interpretation')
    r.assume = TRUST
    try: m = SJ().m
    except IRError as e: raise AnalysisBroken("cannot load /repo/sljit: %s" % e)
    lim = 560 if tier == 'quick' else 2400
    cs = sjfam.cases(tier)
    t0 = time.monotonic()
    sets = [('', SJ(m), cs), (' (data of the library at 64 bit addresses)', SJ(m, high=True), [c for c in cs if c.name.split(':')[0] in ('float', 'convert', 'constant', 'fselect', 'compare', 'copy')][::1 if tier != 'quick' else 3])]
    tot, brk, n = {}, [], 0
    by = {}
    for tag, sj, l in sets:
        probs, broken, stats = analyse(sj, l, lim - (time.monotonic() - t0))
        ops = {c.name: nameop(mainop(c)) for c in l}
        for c, name, msg in probs: by.setdefault((c, ops[name]), []).append((name + tag, msg))
        for k, v in stats.items(): tot[k] = tot.get(k, 0) + v
        brk += broken
        n += len(l)
    for (c, op), l in sorted(by.items()):
        l.sort(key=lambda x: len(x[0]))
        r.add('%s %s' % (op, c), 'sljit/sljit_src/sljitNativeX86_common.c (%s)' % op, 'code for "%s": %s%s' % (l[0][0], l[0][1][:500], ' and %d more' % (len(l) - 1) if len(l) > 1 else ''), detail=[x[0] for x in l[:200]])
    r.cov.update(cases=n, obligations=tot.get('obligations', 0), equal=tot.get('equal', 0), folded=tot.get('folded', 0), undecided=tot.get('undecided', 0), paths=tot.get('paths', 0),
                 instructions=tot.get('instructions', 0), not_analysed=len(brk) + tot.get('skipped', 0), not_analysed_samples=brk[:5], functions=len(m.funcs),
                 samples=[cs[k].name for k in sorted({0, len(cs) // 3, len(cs) // 2, len(cs) - 1})],
                 rule='every operation, called with every kind of operand, leaves code whose every path gives registers, memory and flags the values sljitLir.h describes and changes or reads nothing else',
                 explanation='The entry points of sljit are interpreted abstractly (IR of sljitLir.c and sljitNativeX86_*.c); the bytes they leave in executable memory are decoded and given their meaning as terms over '
                             'symbolic registers and memory; every path is compared with the described meaning of the operations. Values that cannot be compared are counted as undecided and never reported.')
    if tot.get('equal', 0) < 1000000 and not r.items:
        r.finish()
        raise AnalysisBroken("only %d obligations could be decided: %s" % (tot.get('equal', 0), brk[:3]))
    return r.finish()


def run22(tier):
    from . import sjfnfam, sjfunc
    r = Report('P22', tier, 'translation_validation', 'abstract interpretation')
    r.assume = TRUST
    try: m = SJ().m
    except IRError as e: raise AnalysisBroken("cannot load /repo/sljit: %s" % e)
    cs = sjfnfam.cases(tier)
    probs, brk, tot = sjfunc.analyse(m, cs, 600 if tier == 'quick' else 2400)
    by = {}
    for c, name, msg in probs: by.setdefault((c, name.split(':')[0]), []).append((name, msg))
    for (c, fam), l in sorted(by.items()):
        l.sort(key=lambda x: len(x[0]))
        r.add('%s %s' % (fam, c), 'sljit/sljit_src/sljitNativeX86_64.c (%s)' % fam, 'function "%s": %s%s' % (l[0][0], l[0][1][:500], ' and %d more' % (len(l) - 1) if len(l) > 1 else ''), detail=[x[0] for x in l[:200]])
    r.cov.update(cases=len(cs), obligations=tot.get('obligations', 0), equal=tot.get('equal', 0), folded=tot.get('folded', 0), undecided=tot.get('undecided', 0), paths=tot.get('paths', 0),
                 instructions=tot.get('instructions', 0), not_analysed=len(brk) + tot.get('skipped', 0), not_analysed_samples=brk[:5], functions=len(m.funcs),
                 samples=[cs[k].name for k in sorted({0, len(cs) // 3, len(cs) // 2, len(cs) - 1})],
                 rule='a function built with sljit, entered the way the System V ABI describes, calls with the right target, arguments and stack alignment, returns to its caller with the described result, all preserved registers and '
                      'the stack pointer restored, and writes only its locals and what its operations name; jumps, labels, constants and their later rewriting reach the described place or value',
                 explanation='Whole functions are generated by abstract interpretation of sljit including sljit_generate_code; the final bytes are decoded from the entry with symbolic registers and stack; every path is compared with a '
                             'reference interpreter of the same LIR program and with the ABI. Values that cannot be compared are counted as undecided and never reported.')
    if tot.get('equal', 0) < 50000 and not r.items:
        r.finish()
        raise AnalysisBroken("only %d obligations could be decided: %s" % (tot.get('equal', 0), brk[:3]))
    return r.finish()
