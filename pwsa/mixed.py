"""Well-typed function bodies that mix all kinds of operands, locals, memory, globals, calls and blocks, drawn by a
generator with a fixed seed: they look for interactions between instructions that the enumerated families treat
one at a time. Immediates and contents stay symbolic as in frags.py."""
import random
from .frags import *

CALLS = {'v': ([], []), 'i': ([I32], [I32, F32]), 'l': ([I64], [I64]), 'fi': ([F32, I32], [F64]), 'm5': ([I32, I64, F32, F64, REF], [I32]), 'm3': ([I32, I64, F64], [F64, I32, I64]), 'v4': ([F64, I32, I64, I32], [])}
for _t in T5: CALLS[_t] = ([], [_t])
TRUNCS = set(range(0xa8, 0xac)) | set(range(0xae, 0xb2))
NUMOPS = [o for o in range(0x45, 0xc5) if o not in BITCOUNT and o not in TRUNCS and o not in (0x77, 0x78, 0x89, 0x8a)]
DIVS = {0x6d, 0x6e, 0x6f, 0x70, 0x7f, 0x80, 0x81, 0x82}
LOADOPS = sorted(SP.LOADS)


class Body:
    def __init__(s, rng, mem, calls, control, size, w, extend):
        # without EXTEND_INDEX a sign-extended index is limited to 2 GiB (pwart.h)
        s.loads = [o for o in LOADOPS if extend or o not in (0x2c, 0x2e)]
        s.r = rng; s.code = []; s.mem = mem; s.ctl = control; s.size = size; s.w = w; s.calls = calls
        s.nb = 0; s.lab = []; s.vs = []; s.base = 0; s.k = 0; s.names = []; s.div = 1; s.inloop = False

    def pick(s, xs): return xs[s.r.randrange(len(xs))]

    def push(s, t):
        r = s.r.random()
        s.k += 1
        if r < .2: s.code += const(t, 'k%d' % s.k)
        elif r < .6:
            ids = [i for i, x in enumerate(PARAMS + LOCALS) if x == t]
            s.code += get(s.pick(ids))
        elif r < .75: s.code += [OP(0x23), IMM(glob(t, s.r.randrange(2)))]
        elif r < .85 and t != REF and s.mem:
            b = s.base; s.base = len(s.vs); s.push(I32); s.vs.pop(); s.base = b
            s.load(s.pick([o for o in s.loads if LOADT[o] == t]))
        elif r < .95 and t != REF:
            ops = [o for o in NUMOPS if sig(o)[1] == t and o not in DIVS]
            b = s.base; s.base = len(s.vs); s.num(s.pick(ops)); s.base = b; return
        else: s.code += get(param(t, s.r.randrange(2)))
        s.vs.append(t)

    def load(s, op):
        s.code += [OP(op)] + memarg(s.r.randrange(len(s.mem)), s.pick([OFF, 0, 8, 0x80000000]))

    def need(s, ts):
        """brings operands of these types to the top; takes what is there when it fits"""
        n = len(ts)
        for j in range(n, -1, -1):
            if len(s.vs) - s.base >= j and s.vs[len(s.vs) - j:] == ts[:j] and (j == 0 or s.r.random() < .7):
                b = s.base
                for t in ts[j:]:
                    s.base = len(s.vs); s.push(t)
                s.base = b
                break
        del s.vs[len(s.vs) - n:]

    def num(s, op):
        ts, r = sig(op)
        if op in DIVS:
            if not s.div: return
            s.div -= 1
        s.need(ts)
        s.code += [OP(op)]; s.vs.append(r)

    def block(s, kind, depth):
        s.nb += 1
        rt = s.pick([None, None] + T5)
        rs = [rt] if rt else []
        if kind == 4: s.need([I32])
        s.code += [OP(kind), B(rt if rt else 0x40)]
        old = s.base; s.base = len(s.vs)
        s.lab.append([] if kind == 3 else rs)
        br = s.nbr if kind == 3 else None
        s.stmts(s.r.randrange(2, 6), depth + 1)
        s.leave(rs)
        if kind == 4 and (rs or s.r.random() < .5):
            s.vs[s.base:] = []
            s.code += [OP(5)]
            s.stmts(s.r.randrange(1, 5), depth + 1)
            s.leave(rs)
        s.code += END
        s.lab.pop(); del s.vs[s.base:]; s.base = old; s.vs += rs

    def leave(s, rs):
        """reduces the operands of this block to its results"""
        while len(s.vs) > s.base + (len(rs) if rs and s.vs[-len(rs):] == rs and len(s.vs) == s.base + len(rs) else 0):
            t = s.vs.pop()
            s.sink(t)
        if len(s.vs) == s.base:
            for t in rs: s.push(t)

    def sink(s, t):
        r = s.r.random()
        if r < .45: s.code += [OP(0x1a)]
        elif r < .75: s.code += lset(s.pick([i for i, x in enumerate(PARAMS + LOCALS) if x == t]))
        else: s.code += [OP(0x24), IMM(glob(t, s.r.randrange(2)))]

    nbr = 0

    def stmts(s, n, depth):
        for _ in range(n):
            if len(s.code) > s.size: return
            a = s.r.choices(['push', 'num', 'set', 'tee', 'gset', 'store', 'load', 'call', 'icall', 'drop', 'select', 'block', 'brif', 'grow', 'size', 'bulk'], s.w)[0]
            if a == 'push': s.push(s.pick(T5))
            elif a == 'num': s.num(s.pick(NUMOPS))
            elif a in ('set', 'tee'):
                i = s.r.randrange(len(PARAMS + LOCALS)); t = (PARAMS + LOCALS)[i]
                s.need([t]); s.code += [OP(0x21 if a == 'set' else 0x22), IMM(i)]
                if a == 'tee': s.vs.append(t)
            elif a == 'gset':
                i = s.r.randrange(len(GL)); s.need([GL[i]]); s.code += [OP(0x24), IMM(i)]
            elif a == 'store' and s.mem:
                op = s.pick(sorted(STORET)); s.need([I32, STORET[op]]); s.load(op)
            elif a == 'load' and s.mem:
                op = s.pick(s.loads); s.need([I32]); s.load(op); s.vs.append(LOADT[op])
            elif a in ('call', 'icall') and s.calls:
                k = s.pick(sorted(CALLS, key=str)); p, q = CALLS[k]
                s.need(p + ([I32] if a == 'icall' else []))
                s.code += [OP(0x10), IMM(TI[k])] if a == 'call' else [OP(0x11), IMM(TI[k]), IMM(0)]
                s.vs += q
            elif a == 'drop' and len(s.vs) > s.base: s.vs.pop(); s.code += [OP(0x1a)]
            elif a == 'select':
                t = s.pick(T5); s.need([t, t, I32]); s.code += [OP(0x1b)]; s.vs.append(t)
            elif a == 'block' and s.nb < s.ctl and depth < 3:
                k = s.pick([2, 2, 4, 4, 4, 3])
                s.block(k, depth)
            elif a == 'brif' and s.lab and s.nbr < s.ctl:
                d = s.r.randrange(len(s.lab)); rs = s.lab[-1 - d]
                s.need(rs + [I32]); s.code += [OP(0xd), IMM(d)]; s.vs += rs; s.nbr += 1
            elif a == 'grow' and s.mem:
                s.need([I32]); s.code += [OP(0x40), IMM(0)]; s.vs.append(I32)
            elif a == 'size' and s.mem: s.code += [OP(0x3f), IMM(0)]; s.vs.append(I32)
            elif a == 'bulk' and s.mem:
                s.need([I32, I32, I32]); s.code += s.pick([[OP(0xfc), B(10), IMM(0), IMM(0)], [OP(0xfc), B(11), IMM(0)]])


W = {'locals': [6, 8, 4, 4, 2, 2, 2, 0, 0, 1, 2, 0, 0, 0, 1, 0],
     'calls': [6, 6, 3, 3, 2, 2, 2, 4, 2, 1, 2, 0, 0, 0, 1, 0],
     'control': [6, 6, 4, 3, 2, 2, 2, 1, 0, 1, 2, 4, 3, 0, 1, 0],
     'moved': [5, 3, 2, 2, 1, 5, 5, 2, 1, 1, 1, 3, 2, 2, 1, 1]}


def generate(which, n, seed):
    for j in range(n):
        rng = random.Random('%s-%s-%d' % (which, seed, j))
        mem = rng.choice([('grow',), ('fixed',), ('grow', 'grow'), ('grow', 'fixed')]) if which == 'moved' else rng.choice([('grow',), ('grow',), ('fixed',)])
        al, misc = rng.choice([(0, 2), (0, 2), (1, 2), (0, 3), (1, 3), (0, 0)])
        rs = rng.choice([[], [], [I32], [I64], [F32], [F64], [REF], [F64, I32, I64], [I64, I32]])
        b = Body(rng, mem, which in ('calls', 'control', 'moved'), {'control': 3, 'moved': 2}.get(which, 0), rng.choice([30, 50, 70]), W[which], misc & 1)
        for i in range(len(LOCALS)):
            if not misc & 2: b.code += get(param(LOCALS[i], i & 1)) + lset(NP + i)
        for i in range(len(LOCALS)):
            if rng.random() < .4: b.push(LOCALS[i]); b.vs.pop(); b.code += lset(NP + i)
        b.stmts(40, 0)
        if rs and rng.random() < .4:
            b.need(rs); b.code += [OP(0xf)] + END
        else:
            while b.vs and b.vs[-len(rs):] != rs or len(b.vs) > len(rs): b.sink(b.vs.pop())
            if not b.vs:
                for t in rs: b.push(t)
            b.code += END
        yield env(mem=mem, align=al, misc=misc, results=rs), b.code, 'mixed %s %d/a%dm%d' % (which, j, al, misc)


def family(which, n):
    def f(tier): return generate(which, n if tier == 'quick' else n * 12, 'q')
    return f
