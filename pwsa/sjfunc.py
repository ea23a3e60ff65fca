"""P22: whole functions generated by the bundled sljit (x86-64): entry and return, C calls, fast calls, labels and jumps of every
distance, addresses and constants that can be rewritten. The machine code of a function is followed from its entry as a C caller
sees it and compared with a reference interpreter of the operation list."""
import multiprocessing, os, time
from . import absint
from .absint import Broken, mask, aspair, Interp, mkbin, mkicmp, sgn
from .x86 import Machine, BadCode, T, not1
from .sjmach import SJ, Failed, FULL, BASE, EXLO
from .sljspec import Lir, NEGATED, FP, IPRED
from .sjprops import Gen, Ctx, SPB
from .ir import IRError
from .report import Report, AnalysisBroken

RET = 0x7777000                     # return address of the entry function
ENTRYSP = 0                         # offset of the return address in the stack object
CS = (3, 5, 12, 13, 14, 15)         # rbx rbp r12-r15: preserved for a C caller
WARG = (7, 6, 2, 1)                 # rdi rsi rdx rcx


class Fn:
    """a compiled unit: operations, entry parameters, what is done after the code was generated"""

    def __init__(self, name, ops, args=(), cpu=FULL, exlo=EXLO, after=(), regarg=None, targets=()):
        self.name, self.ops, self.args, self.cpu, self.exlo, self.after, self.regarg = name, list(ops), tuple(args), cpu, exlo, tuple(after), regarg
        self.targets = frozenset(targets)


def isfloat(t): return t[0] == 'F'


class FGen(Gen):
    def types(self, ret, args):
        v = self.k['ARG_TYPE_RET_VOID'] if ret is None else self.k['ARG_TYPE_' + ret]
        for n, t in enumerate(args): v |= self.k['ARG_TYPE_' + t] << 4 * (n + 1)
        return v

    def build(self, st, c, ops, cut=None):
        """-> state, labels, named things; cut = (n, f): before operation n (len(ops): before, len(ops) + 1: after the targets of jumps are set) the compiler is replaced by that of
        f(st, c, things) -> st, c, things"""
        call, k, X, op = self.sj.call, self.k, self.opnd, self.op
        labels, pend, named = {}, [], {}

        def flag(l): return (k['REWRITABLE_JUMP'] if 'rw' in l else 0) | (k['CALL_RETURN'] if 'tail' in l else 0)

        def tojump(j, tgt, nm=None):
            if j == 0 and isinstance(j, int): raise Failed("no jump is returned")
            pend.append((j, tgt))
            if nm: named[nm] = ('jump', j)

        def swap(st, c):
            th = list(labels.items()) + [(n, v[1]) for n, v in named.items()] + [(n, j) for n, (j, t) in enumerate(pend)]
            st, c, new = cut[1](st, c, [x for _, x in th])
            nl, nn = len(labels), len(named)
            for (n, _), x in zip(th[:nl], new): labels[n] = x
            for (n, _), x in zip(th[nl:nl + nn], new[nl:]): named[n] = (named[n][0], x)
            for n, x in enumerate(new[nl + nn:]): pend[n] = (x, pend[n][1])
            return st, c
        for n, o in enumerate(ops):
            if cut and cut[0] == n: st, c = swap(st, c)
            e = 0
            kind = o[0]
            if kind == 'enter':
                _, opts, ret, args, nr, ns, nf, loc = o
                v = 0
                for x in opts: v |= x if isinstance(x, int) else k[x]
                st, e = call(st, 'sljit_emit_enter', c, v, self.types(ret, args), nr | nf << 8, ns, loc)
            elif kind == 'context':
                _, opts, ret, args, nr, ns, nf, loc = o
                v = 0
                for x in opts: v |= x if isinstance(x, int) else k[x]
                st, e = call(st, 'sljit_set_context', c, v, self.types(ret, args), nr | nf << 8, ns, loc)
            elif kind == 'label': st, labels[o[1]] = call(st, 'sljit_emit_label', c)
            elif kind == 'alabel': st, labels[o[1]] = call(st, 'sljit_emit_aligned_label', c, o[2], 0)
            elif kind == 'jmp':
                st, j = call(st, 'sljit_emit_jump', c, op(o[1]) | flag(o[3:]))
                tojump(j, o[2], [x[1] for x in o[3:] if isinstance(x, tuple)][0] if any(isinstance(x, tuple) for x in o[3:]) else None)
            elif kind == 'cmpj':
                st, j = call(st, 'sljit_emit_cmp', c, op(o[1]) | (k['32'] if o[2] else 0), *X(o[3]), *X(o[4]))
                tojump(j, o[5])
            elif kind == 'fcmpj':
                st, j = call(st, 'sljit_emit_fcmp', c, op(o[1]) | (k['32'] if o[2] else 0), *X(o[3]), *X(o[4]))
                tojump(j, o[5])
            elif kind == 'ijump': st, e = call(st, 'sljit_emit_ijump', c, op(o[1]), *X(o[2]))
            elif kind == 'call':
                st, j = call(st, 'sljit_emit_call', c, op(o[1]) | flag(o[5:]), self.types(o[2], o[3]))
                tojump(j, o[4], [x[1] for x in o[5:] if isinstance(x, tuple)][0] if any(isinstance(x, tuple) for x in o[5:]) else None)
            elif kind == 'icall': st, e = call(st, 'sljit_emit_icall', c, op(o[1]) | flag(o[5:]), self.types(o[2], o[3]), *X(o[4]))
            elif kind == 'ret': st, e = call(st, 'sljit_emit_return', c, op(o[1]), *X(o[2]))
            elif kind == 'retvoid': st, e = call(st, 'sljit_emit_return_void', c)
            elif kind == 'retto': st, e = call(st, 'sljit_emit_return_to', c, *X(o[1]))
            elif kind == 'fast_enter': st, e = call(st, 'sljit_emit_op_dst', c, k['FAST_ENTER'], *X(o[1]))
            elif kind == 'getret': st, e = call(st, 'sljit_emit_op_dst', c, k['GET_RETURN_ADDRESS'], *X(o[1]))
            elif kind == 'fast_return': st, e = call(st, 'sljit_emit_op_src', c, k['FAST_RETURN'], *X(o[1]))
            elif kind == 'lbase': st, e = call(st, 'sljit_get_local_base', c, *X(o[1]), o[2])
            elif kind == 'const':
                st, x = call(st, 'sljit_emit_const', c, op(o[1]), *X(o[2]), o[3])
                if x == 0 and isinstance(x, int): raise Failed("sljit_emit_const returns no constant")
                named[o[4]] = ('const', x)
            elif kind == 'addr':
                st, j = call(st, 'sljit_emit_op_addr', c, k[o[1]], *X(o[2]))
                tojump(j, o[3], o[4] if len(o) > 4 else None)
            elif kind == 'pad':
                for _ in range(o[1] // 10): st, e = call(st, 'sljit_emit_op1', c, k['MOV'], k['NUMBER_OF_REGISTERS'], 0, k['IMM'], 0x123456789abcdef)
                for _ in range(o[1] % 10): st, e = call(st, 'sljit_emit_op0', c, k['NOP'])
            else: st = self.emit(st, c, o)
            if not (isinstance(e, int) and e == 0): raise Failed("%s returns %r" % (kind, e))
        if cut and cut[0] == len(ops): st, c = swap(st, c)
        for j, t in pend:
            if isinstance(t, int): st, _ = call(st, 'sljit_set_target', j, t)
            else: st, _ = call(st, 'sljit_set_label', j, labels[t])
        if cut and cut[0] == len(ops) + 1: st, c = swap(st, c)
        self.c = c
        return st, labels, named


class RefFn:
    """reference interpreter of an operation list; forks on conditions that are not known"""

    def __init__(self, st, ops, k, consts, targets, laddr):
        self.l = Lir(st, None)
        self.ops, self.k, self.consts, self.targets, self.laddr = ops, k, consts, targets, laddr
        self.pc = 0
        self.conds = []
        self.frames = []
        self.events = []
        self.undef = 0
        self.steps = 0
        self.end = None
        self.result = None

    def copy(self):
        o = RefFn.__new__(RefFn)
        o.__dict__.update(self.__dict__)
        l = Lir.__new__(Lir)
        l.__dict__.update(self.l.__dict__)
        l.st = self.l.st.copy()
        for n in ('r', 'f', 'flags', 'msk'): setattr(l, n, dict(getattr(l, n)))
        for n in ('low', 'flow', 'nanfree', 'clob'): setattr(l, n, set(getattr(l, n)))
        l.log, l.need = list(l.log), list(l.need)
        o.l = l
        o.conds, o.events = list(self.conds), list(self.events)
        o.frames = [dict(f) for f in self.frames]
        return o

    def fresh(self):
        self.undef += 1
        return ('undef', self.undef)

    def label(self, n):
        for i, o in enumerate(self.ops):
            if o[0] in ('label', 'alabel') and o[1] == n: return i
        raise Broken("label %r" % (n,))

    def scratch(self, keep=()):
        """registers a call leaves undefined"""
        first = self.k['NUMBER_OF_REGISTERS'] - self.frames[-1]['ns']
        for r in range(1, first + 1):
            if r not in keep: self.l.r[r] = ('s', 64, ('undef', self.undef, r))
        for r in range(1, self.k['NUMBER_OF_FLOAT_REGISTERS'] + 1):
            if ('f', r) not in keep: self.l.f[r] = ('s', 64, ('undeff', self.undef, r))
        self.undef += 1
        self.l.flags = {}
        self.l.low.clear(); self.l.flow.clear()

    def enter(self, o, args, regarg):
        _, opts, ret, types, nr, ns, nf, loc = o
        k, l = self.k, self.l
        NR = k['NUMBER_OF_REGISTERS']
        keep = sum(x for x in opts if isinstance(x, int))
        fr = dict(ret=ret, ns=ns, opts=opts, keep=keep, saved={r: l.r[r] for r in range(NR - k['NUMBER_OF_SAVED_REGISTERS'] + 1, NR + 1)}, regarg=regarg)
        self.frames.append(fr)
        base = ('LOC', len(self.events), self.steps)
        l.st.obj(base, 'undef')
        fr['sp'] = l.r.get(14)
        l.r[14] = ('p', base, 0)
        if regarg: return
        sn, wn, fn = keep, 0, 0
        new = {}
        for t, v in zip(types, args):
            if isfloat(t):
                fn += 1
                l.f[fn] = v
                if t == 'F32': l.flow.add(fn)
            else:
                r = 1 + wn if t.endswith('_R') else NR - sn
                if not t.endswith('_R'): sn += 1
                wn += 1
                new[r] = v
                (l.low.add if t.startswith('32') else l.low.discard)(r)
        # all other scratch registers and the saved registers without an argument are undefined
        for r in range(1, NR + 1):
            if r in new: l.r[r] = new[r]
            elif r <= nr or r > NR - ns + 0: l.r[r] = ('s', 64, ('undef', self.undef, r)) if not (r > NR - keep) else l.r[r]
        self.undef += 1

    def value(self, t, r):
        """the argument or result of type t in register r (as the callee may look at it)"""
        if isfloat(t): return T(self.l.f[r], 32) if t == 'F32' else self.l.f[r]
        return T(self.l.r[r], 32) if t.startswith('32') else self.l.r[r]

    def args(self, types):
        out, w, f = [], 0, 0
        for t in types:
            if isfloat(t): f += 1; out.append((t, self.value(t, f)))
            else: w += 1; out.append((t, self.value(t, w)))
        return tuple(out)

    def leave(self, res):
        """return from the current frame with the value res"""
        fr = self.frames.pop()
        if not self.frames:
            self.kept = {n: self.l.r[self.k['NUMBER_OF_REGISTERS'] - n] for n in range(fr['keep'])}
            self.end, self.result = 'ret', (fr['ret'], res)
            return
        cf = self.frames[-1]
        kept = {r: self.l.r[r] for r in range(self.k['NUMBER_OF_REGISTERS'] - fr['keep'] + 1, self.k['NUMBER_OF_REGISTERS'] + 1)}
        for r, v in fr['saved'].items():
            if r not in kept: self.l.r[r] = v
        self.l.r[14] = fr['sp']
        self.scratch()
        t = fr['ret']
        if t is not None:
            if isfloat(t): self.l.f[1] = res; (self.l.flow.add if t == 'F32' else self.l.flow.discard)(1)
            else: self.l.r[1] = res; (self.l.low.add if t.startswith('32') else self.l.low.discard)(1)
        self.pc = fr['back']

    def goto(self, tgt, what):
        """tgt: label name or address"""
        if not isinstance(tgt, int): self.pc = self.label(tgt); return
        for n, a in self.laddr.items():
            if a == tgt: self.pc = self.label(n); return
        self.end, self.result = 'jump', (tgt, what)

    def callto(self, typ, ret, types, tgt, tail):
        if isinstance(tgt, int):
            for n, a in self.laddr.items():
                if a == tgt: tgt = n
        if isinstance(tgt, int):
            a = self.args(types)
            self.events.append((tgt, a, ret))
            n = len(self.events)
            if tail:
                self.end = 'tail'
                return
            self.scratch()
            if ret is not None:
                if isfloat(ret): self.l.f[1] = ('s', 64, ('fret', n)); (self.l.flow.add if ret == 'F32' else self.l.flow.discard)(1)
                else: self.l.r[1] = ('s', 64, ('ret', n)); (self.l.low.add if ret.startswith('32') else self.l.low.discard)(1)
            return
        i = self.label(tgt)
        while self.ops[i][0] != 'enter': i += 1
        vals = [v for t, v in self.args(types)]
        vals = [('zext64', v) if False else v for v in vals]
        full, w, f = [], 0, 0
        for t in types:
            if isfloat(t): f += 1; full.append(self.l.f[f])
            else: w += 1; full.append(self.l.r[w])
        back = self.pc
        if tail:
            fr = self.frames.pop()
            for r, v in fr['saved'].items():
                if r <= self.k['NUMBER_OF_REGISTERS'] - fr['keep']: self.l.r[r] = v
            self.l.r[14] = fr['sp']
        self.enter(self.ops[i], full, typ == 'CALL_REG_ARG')
        self.frames[-1]['back'] = back if not tail else fr.get('back')
        self.pc = i + 1

    def step(self):
        """-> list of states"""
        self.steps += 1
        if self.steps > 600: raise Broken("reference: too many steps")
        o = self.ops[self.pc]
        self.pc += 1
        l, kind = self.l, o[0]
        if kind in ('label', 'alabel', 'pad', 'context'):
            if kind == 'pad' and o[1] >= 10: l.r[self.k['NUMBER_OF_REGISTERS']] = 0x123456789abcdef
            return [self]
        if kind == 'enter': raise Broken("reference: control runs into a function")
        if kind == 'jmp':
            if o[1] == 'FAST_CALL':
                self.fast = ('s', 64, ('fastret', self.pc))
                self.goto(o[2], 'fast')
                return [self]
            return self.cond(1 if o[1] == 'JUMP' else l.cond(o[1]), o[2])
        if kind in ('cmpj', 'fcmpj'):
            w = 32 if o[2] else 64
            x, y = l.src(o[3], w), l.src(o[4], w)
            l.flags = {}
            if kind == 'fcmpj': c = ('fcmp', 1, FP[o[1]], w, x, y)
            else:
                n = NEGATED.get(o[1], o[1])
                c = mkicmp('eq' if n == 'EQUAL' else IPRED[n], w, x, y)
                if n != o[1]: c = not1(c)
            return self.cond(c, o[5])
        if kind == 'ijump':
            t = l.src(o[2], 64)
            if o[1] == 'FAST_CALL': self.fast = ('s', 64, ('fastret', self.pc))
            self.indirect(t)
            return [self]
        if kind == 'call':
            self.callto(o[1], o[2], o[3], o[4], 'tail' in o[5:]); return [self]
        if kind == 'icall':
            t = l.src(o[4], 64)
            if not isinstance(t, int):
                if isinstance(t, tuple) and t[0] == 'label': t = t[1]
                else: raise Broken("reference: call to %r" % (t,))
            self.callto(o[1], o[2], o[3], t, 'tail' in o[5:]); return [self]
        if kind == 'ret':
            if o[1].startswith('MOV_F'):
                v = l.src(o[2], 32 if o[1].endswith('32') else 64)
                if o[1].endswith('32'): from .x86 import Z; v = Z(v, 32, 64)
            else:
                q = self.copy()
                q.l.o_op1(o[1], ('r', 1), o[2])
                v = q.l.r[1]
            self.leave(v); return [self]
        if kind == 'retvoid': self.leave(None); return [self]
        if kind == 'retto':
            t = l.src(o[1], 64)
            r0 = l.r[1]
            fr = self.frames[-1]
            self.leave(None)
            if self.end: self.end, self.result = 'retto', (t, r0)
            else:
                l.r[1] = r0
                self.indirect(t)
            return [self]
        if kind == 'fast_enter': l.dst(o[1], 64, self.fast); return [self]
        if kind == 'getret': l.dst(o[1], 64, RET); return [self]
        if kind == 'fast_return':
            t = l.src(o[1], 64)
            if not (isinstance(t, tuple) and t[0] == 's' and t[2][0] == 'fastret'): raise Broken("reference: fast return to %r" % (t,))
            self.pc = t[2][1]
            return [self]
        if kind == 'lbase': l.dst(o[1], 64, mkbin('add', 64, l.r[14], o[2] & mask(64))); return [self]
        if kind == 'const':
            v = self.consts.get(o[4], o[3])
            if 'U8' in o[1]:
                v = v | -0x100 if v & 0x100 else v & 0xff          # nine bits with sign
                if o[2][0] == 'r': l.dst(o[2], 32 if '32' in o[1] else 64, v & mask(32 if '32' in o[1] else 64), '32' in o[1])
                else: l.dst(o[2], 8, v & 255)
            elif o[1] == 'MOV_S32' and o[2][0] != 'r': l.dst(o[2], 64, sgn(v & mask(32), 32) & mask(64))       # a whole word, as test78 of sljit wants it
            else: l.o_op1(o[1], o[2], ('i', v))
            return [self]
        if kind == 'addr':
            t = self.targets.get(o[4], o[3]) if len(o) > 4 else o[3]
            v = t if isinstance(t, int) else self.laddr[t]
            if o[1] == 'ADD_ABS_ADDR': v = mkbin('add', 64, l.src(o[2], 64), v)
            l.dst(o[2], 64, v); return [self]
        getattr(l, 'o_' + kind)(*o[1:])
        return [self]

    def indirect(self, t):
        if not isinstance(t, int): raise Broken("reference: jump to %r" % (t,))
        self.goto(t, 'ijump')

    def cond(self, c, tgt):
        if isinstance(c, int):
            if c: self.goto(tgt, 'jmp')
            return [self]
        for t, v in self.conds:
            if t == c:
                if v: self.goto(tgt, 'jmp')
                return [self]
        o = self.copy()
        o.conds.append((c, False))
        self.conds.append((c, True))
        self.goto(tgt, 'jmp')
        return [self, o]


class FCtx(Ctx):
    def __init__(self, sj):
        Ctx.__init__(self, sj)
        self.gen = FGen(sj)
        self.stats = dict(cases=0, paths=0, obligations=0, equal=0, folded=0, undecided=0, instructions=0, not_analysed=0, calls=0)
        self.cb = {}

    def rmap(self, cpu):
        x = self.cb.get(cpu)
        if x is None:
            st = self.sj.start(cpu)
            x = self.cb[cpu] = (self.sj.regmap(st), self.sj.regmap(st, True))
        return x

    def case(self, cs):
        self.sj.use()
        self.stats['cases'] += 1
        try: self.run(cs)
        except Failed as e: self.problems.append(('rejected', cs, str(e)))
        except Broken as e:
            self.broken.append('%s: %s' % (cs.name, e)); self.stats['not_analysed'] += 1

    def run(self, cs):
        sj, k = self.sj, self.sj.k
        rm, fm = self.rmap(cs.cpu)
        call = sj.call
        st = sj.start(cs.cpu)
        st, c = call(st, 'sljit_create_compiler', 0)
        st, labels, named = self.gen.build(st, c, cs.ops)
        st, code = call(st, 'sljit_generate_code', c, 0, 0)
        if not isinstance(code, int) or code == 0: raise Failed("sljit_generate_code returns %r" % (code,))
        st, size = call(st, 'w_code_size', c)
        laddr = {}
        for n, l in labels.items(): st, laddr[n] = call(st, 'w_label_addr', l)
        for o in cs.ops:
            if o[0] == 'alabel' and laddr[o[1]] & (1 << o[2]) - 1: self.problems.append(('alignment', cs, 'label %s at %#x' % (o[1], laddr[o[1]]))); return
        addr = {}
        for n, (t, x) in named.items(): st, addr[n] = call(st, 'w_const_addr' if t == 'const' else 'w_jump_addr', x)
        st, off = call(st, 'w_exec_offset', c)
        st, _ = call(st, 'sljit_free_compiler', c)
        consts, targets = {}, {}
        for a in cs.after:
            if a[0] == 'const':
                st, _ = call(st, 'sljit_set_const', addr[a[1]], k[a[2]], a[3], off)
                consts[a[1]] = a[3]
            else:
                t = a[2] if isinstance(a[2], int) else laddr[a[2]]
                st, _ = call(st, 'sljit_set_jump_addr', addr[a[1]], t, off)
                targets[a[1]] = a[2]
        lo = sj.exlo
        self.codebytes = lambda ip: st.get(('CODE', 0), ip - lo, 1) if code <= ip < code + size else None
        self.code, self.size = code, size
        # reference operations with rewritten jumps
        ops = []
        for o in cs.ops:
            if o[0] in ('jmp', 'call'):
                nm = [x[1] for x in o if isinstance(x, tuple) and x and x[0] == 'name']
                if nm and nm[0] in targets:
                    i = 2 if o[0] == 'jmp' else 4
                    o = o[:i] + (targets[nm[0]],) + o[i + 1:]
            ops.append(o)
        # initial state
        s0 = st.copy()
        s0.obj(SPB, 'lazy')
        vals = []
        for i, a in enumerate(cs.args):
            if isinstance(a, tuple) and a and a[0] == 'ptr':
                b = ('M', i)
                s0.obj(b, 'lazy')
                for off2, v in a[1].items(): s0.put(b, 0x40 + off2, 8, v)
                vals.append(('p', b, 0x40))
            elif a is None: vals.append(('s', 64, ('arg', i)))
            else: vals.append(a)
        ent = cs.ops[0] if cs.ops[0][0] == 'enter' else next(o for o in cs.ops if o[0] == 'enter')
        types = ent[3]
        m = Machine(s0.copy(), self.codebytes)
        m.feats = frozenset(cs.cpu)
        m.r = [('s', 64, ('in', n)) for n in range(16)]
        m.x = [[('s', 64, ('fin', n)), ('s', 64, ('fhi', n))] for n in range(16)]
        m.alignof = lambda base: 0
        m.cf, m.zf, m.sf, m.of, m.pf = [('s', 1, ('fl0', n)) for n in range(5)]
        m.ev = []
        ref = RefFn(s0.copy(), ops, k, consts, targets, laddr)
        ref.fast = None
        for n, h in rm.items(): ref.l.r[n] = m.r[h]
        for n, h in fm.items(): ref.l.f[n] = m.x[h][0]
        if cs.regarg is not None:          # called as other sljit code does
            for n, v in enumerate(vals):
                m.r[rm[1 + n]] = v
                ref.l.r[1 + n] = v
        else:
            w = f = 0
            for t, v in zip(types, vals):
                if isfloat(t): m.x[f][0] = v; f += 1
                else: m.r[WARG[w]] = v; w += 1
        m.r[4] = ('p', SPB, ENTRYSP)
        m.st.put(SPB, ENTRYSP, 8, RET)
        init = list(m.r)
        m.ip = code if cs.ops[0][0] == 'enter' else laddr[next(o[1] for o in cs.ops if o[0] in ('label', 'alabel'))]
        ref.pc = next(i for i, o in enumerate(ops) if o[0] == 'enter') + 1
        ref.enter(ent, vals, cs.regarg is not None)
        rs = self.refpaths(ref)
        try: ms = self.paths(m, cs, init)
        except BadCode as e:
            self.problems.append(('code', cs, '%s (%s)' % (e, self.hexof(code, code + size)))); return
        for x in ms:
            self.stats['paths'] += 1
            if len(x.ev): self.stats['calls'] += len(x.ev)
            for r in rs:
                if self.clash(x, r): continue
                if not self.compare(cs, x, r, init, s0, rm): return

    def clash(self, x, r):
        d = {}
        for t, v in list(x.conds) + list(r.conds):
            if d.setdefault(t, v) != v: return True
        from .absint import mknot
        for t, v in d.items():
            n = mknot(t)
            if d.get(n) == v: return True
        return False

    def refpaths(self, ref):
        work, out = [ref], []
        while work:
            x = work.pop()
            while x.end is None:
                l = x.step()
                work += l[1:]
                x = l[0]
            out.append(x)
            if len(out) > 60: raise Broken("reference: too many paths")
        return out

    def paths(self, m, cs, init):
        work, out, n = [m], [], 0
        while work:
            x = work.pop()
            while True:
                n += 1
                if n > 20000: raise Broken("too many instructions")
                ip = x.ip
                if ip == RET: x.end = 'ret'; break
                if not isinstance(ip, int): raise BadCode("control goes to the computed address %s" % str(ip)[:60])
                if not self.code <= ip < self.code + self.size:
                    if ip not in cs.targets: raise BadCode("control goes to %#x" % ip)
                    b, off = aspair(x.r[4])
                    ra = x.st.get(b, off, 8) if b == SPB and isinstance(off, int) else None
                    if not (b == SPB and isinstance(off, int)): raise BadCode("stack pointer %s at a call" % (x.r[4],))
                    if ip in cs.targets and off > ENTRYSP: x.end = 'left'; x.at = ip; break          # left with the frame released
                    x.ev.append((ip, [x.r[r] for r in WARG], [x.x[f][0] for f in range(8)], off, list(x.r)))
                    if ra == RET: x.end = 'tail'; break
                    if not (isinstance(ra, int) and self.code <= ra < self.code + self.size):
                        x.end = 'left'; x.at = ip; x.ev.pop(); break
                    k = len(x.ev)
                    for r in (0, 1, 2, 6, 7, 8, 9, 10, 11): x.r[r] = ('s', 64, ('clob', k, r))
                    for r in range(16): x.x[r] = [('s', 64, ('fclob', k, r)), ('s', 64, ('fclobh', k, r))]
                    x.r[0] = ('s', 64, ('ret', k))
                    x.x[0][0] = ('s', 64, ('fret', k))
                    for j in range(24): x.st.put(SPB, off - 8 * j, 8, ('s', 64, ('below', k, j)))
                    x.cf, x.zf, x.sf, x.of, x.pf = [('s', 1, ('flc', k, j)) for j in range(5)]
                    x.r[4] = ('p', SPB, off + 8)
                    x.ip = ra
                    continue
                self.stats['instructions'] += 1
                ev = x.ev
                l = x.step()
                for y in l[1:]:
                    y.ev = list(ev)
                    work.append(y)
                x = l[0]
            out.append(x)
            if len(out) > 100: raise Broken("too many paths")
        return out

    def bad(self, cs, cat, msg):
        self.problems.append((cat, cs, '%s (%s)' % (msg, self.hexof(self.code, self.code + self.size))))
        return False

    def compare(self, cs, x, r, init, s0, rm):
        code = self.hexof(self.code, self.code + self.size)
        r.l.need = list(r.conds) + list(r.l.need)
        ref = r.l
        S = lambda what, tm, tr, w=64, nan=False: self.same(cs, x, ref, what, T(tm, w) if w < 64 else tm, T(tr, w) if w < 64 else tr, w, nan, code)
        # which way it went
        sigm = (x.end, x.at if x.end == 'left' else 0, tuple(e[0] for e in x.ev))
        t = r.result
        sigr = ('left' if r.end in ('jump', 'retto') else r.end, t[0] if r.end in ('jump', 'retto') else 0, tuple(e[0] for e in r.events))
        self.stats['obligations'] += 1
        if sigm != sigr:
            if not x.conds and not r.conds or any(True for v in self.witnesses(0, 1, tuple(x.conds) + tuple(ref.need)) if self.holds(v, tuple(x.conds) + tuple(ref.need))):
                return self.bad(cs, 'control', 'control %s; expected %s' % (self.tell(sigm), self.tell(sigr)))
            self.stats['undecided'] += 1
            return True
        self.stats['equal'] += 1
        for i, (e, f) in enumerate(zip(x.ev, r.events)):
            self.stats['obligations'] += 1
            self.stats['equal'] += 1
            if (e[3] + 8) % 16 != (ENTRYSP + 8) % 16: return self.bad(cs, 'stack', 'the stack is not 16 byte aligned at the call of %#x' % e[0])
            w = fl = 0
            for n, (t, v) in enumerate(f[1]):
                if isfloat(t):
                    if not S('argument %d of call %d' % (n + 1, i + 1), e[2][fl], v, 32 if t == 'F32' else 64): return False
                    fl += 1
                else:
                    if not S('argument %d of call %d' % (n + 1, i + 1), e[1][w], v, 32 if t.startswith('32') else 64): return False
                    w += 1
        keep = 0
        if x.end in ('ret', 'tail', 'left'):
            regs = x.r if x.end != 'tail' else x.ev[-1][4]
            want = {'ret': ENTRYSP + 8, 'tail': ENTRYSP}.get(x.end, ENTRYSP + 8 if r.end == 'retto' else None)
            if want is not None:
                self.stats['obligations'] += 1
                if regs[4] != ('p', SPB, want): return self.bad(cs, 'stack', 'the stack pointer is %s instead of entry%+d at the end' % (regs[4], want))
                self.stats['equal'] += 1
                opts = next(o for o in cs.ops if o[0] == 'enter')[1]
                keep = sum(y for y in opts if isinstance(y, int))
                kept = {rm[self.sj.k['NUMBER_OF_REGISTERS'] - n]: n for n in range(keep)}
                for h in CS:
                    if h in kept:
                        if r.end == 'ret' and not S('kept register S%d at return' % kept[h], regs[h], r.kept[kept[h]]): return False
                    elif not S('saved machine register %s at the end' % self.hname(h), regs[h], init[h]): return False
        if r.end == 'ret' and r.result[0] is not None and r.result[1] is not None:
            t, v = r.result
            if isfloat(t):
                if not S('result', x.x[0][0], v, 32 if t == 'F32' else 64): return False
            elif not S('result', x.r[0], v, 32 if t.startswith('32') else 64): return False
        if r.end == 'retto' and not S('R0', x.r[0], r.result[1]): return False
        # memory
        wm = {(b, o, n) for k, b, o, n in x.log if k == 'w' and not (b == SPB and isinstance(o, int) and o < ENTRYSP + 8)}
        wr = {(b, o, n) for k, b, o, n in ref.log if k == 'w' and not (isinstance(b, tuple) and b[0] == 'LOC')}
        code_ = {(b, o, n) for b, o, n in wr if self.codeaddr(ref.st.get(b, o, n))}          # addresses in the code itself have no name in the reference
        for b, o, n in sorted(wr - code_, key=repr):
            if not S('%d bytes at %s' % (n, self.loc(b, o)), x.st.get(b, o, n), ref.st.get(b, o, n), 8 * n, ref.msk.get((b, o, n))): return False
        for b, o, n in sorted(wm - wr, key=repr):
            for j in range(n):
                if isinstance(o, int) and any(b2 == b and isinstance(o2, int) and o2 <= o + j < o2 + n2 for b2, o2, n2 in wr): continue
                at = o + j if isinstance(o, int) else mkbin('add', 64, o, j)
                if not S('byte at %s, which the function does not write' % self.loc(b, at), x.st.get(b, at, 1), s0.get(b, at, 1), 8): return False
        return True

    def codeaddr(self, v):
        return isinstance(v, tuple) and (v[0] == 's' and isinstance(v[2], tuple) and v[2][0] == 'fastret' or v[0] == 'p' and v[1][0] == 'LOC')

    def holds(self, v, conds):
        from .val import Undef, NoMeaning
        try: return all(bool(v.ev(t) & 1) == bool(w) for t, w in conds)
        except (Undef, NoMeaning): return False

    def hname(self, h): return 'rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15'.split()[h]

    def tell(self, s):
        e = {'ret': 'returns', 'tail': 'ends in a tail call', 'left': 'goes to %s' % (hex(s[1]) if isinstance(s[1], int) else s[1])}.get(s[0], str(s[0]))
        return e + (' after calls of %s' % ', '.join('%#x' % c for c in s[2]) if s[2] else '')

    def iname(self, s):
        n = s[2]
        if isinstance(n, tuple) and n[0] == 'arg': return 'argument %d' % (n[1] + 1)
        return Ctx.iname(self, s) if not (isinstance(n, tuple) and n[0] == 'in') else self.hname(n[1])

    def rname(self, n): return str(n)


# ---- running ------------------------------------------------------------------------------------------------------
_w = {}


def _go(part):
    end = _w['end']
    C = {}
    skipped = 0
    for cs in part:
        if time.monotonic() > end:
            skipped += 1
            continue
        x = C.get(cs.exlo)
        if x is None: x = C[cs.exlo] = FCtx(_w['sj'][cs.exlo])
        Interp.deadline = time.monotonic() + 60
        x.case(cs)
    stats = {}
    for x in C.values():
        for k, v in x.stats.items(): stats[k] = stats.get(k, 0) + v
    stats['skipped'] = skipped
    return [(c, cs.name, msg) for x in C.values() for c, cs, msg in x.problems], [b for x in C.values() for b in x.broken], stats


def analyse(m, cases, limit):
    _w['sj'] = {e: SJ(m, high=e > 1 << 32, exlo=e) for e in {c.exlo for c in cases}}
    _w['end'] = time.monotonic() + limit
    n = min(8, os.cpu_count() or 1)
    parts = [cases[k::n * 6] for k in range(n * 6)]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n) as pool: res = pool.map(_go, [p for p in parts if p], chunksize=1)
    probs, broken, stats = [], [], {}
    for a, b, s in res:
        probs += a; broken += b
        for k, v in s.items(): stats[k] = stats.get(k, 0) + v
    return probs, broken, stats
