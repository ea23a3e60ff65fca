"""The bundled sljit as a code generator: interprets its entry points abstractly, reads the bytes it leaves in executable
memory and gives every path of them a meaning (x86.py)."""
import os, tempfile, shutil
from . import absint
from .absint import Interp, State, Broken, mask, aspair, Fork
from .ir import compile_ir, IRError
from .x86 import Machine, BadCode

REPO = os.environ.get('PWSA_REPO', '/repo')

OPS = '''NOP LMUL_UW LMUL_SW DIVMOD_UW DIVMOD_U32 DIVMOD_SW DIVMOD_S32 DIV_UW DIV_U32 DIV_SW DIV_S32 MEMORY_BARRIER ENDBR
MOV MOV_U8 MOV32_U8 MOV_S8 MOV32_S8 MOV_U16 MOV32_U16 MOV_S16 MOV32_S16 MOV_U32 MOV_S32 MOV32 MOV_P CLZ CLZ32 CTZ CTZ32 REV REV32 REV_U16 REV32_U16 REV_S16 REV32_S16 REV_U32 REV_S32
ADD ADD32 ADDC ADDC32 SUB SUB32 SUBC SUBC32 MUL MUL32 AND AND32 OR OR32 XOR XOR32 SHL SHL32 MSHL MSHL32 LSHR LSHR32 MLSHR MLSHR32 ASHR ASHR32 MASHR MASHR32 ROTL ROTL32 ROTR ROTR32
MULADD MULADD32 SHIFT_INTO_NON_ZERO FAST_RETURN PREFETCH_L1 PREFETCH_L2 PREFETCH_L3 PREFETCH_ONCE FAST_ENTER GET_RETURN_ADDRESS
MOV_F64 MOV_F32 CONV_F64_FROM_F32 CONV_F32_FROM_F64 CONV_SW_FROM_F64 CONV_SW_FROM_F32 CONV_S32_FROM_F64 CONV_S32_FROM_F32 CONV_F64_FROM_SW CONV_F32_FROM_SW CONV_F64_FROM_S32 CONV_F32_FROM_S32
CONV_F64_FROM_UW CONV_F32_FROM_UW CONV_F64_FROM_U32 CONV_F32_FROM_U32 CMP_F64 CMP_F32 NEG_F64 NEG_F32 ABS_F64 ABS_F32 ADD_F64 ADD_F32 SUB_F64 SUB_F32 MUL_F64 MUL_F32 DIV_F64 DIV_F32
COPYSIGN_F64 COPYSIGN_F32 COPY_TO_F64 COPY32_TO_F32 COPY_FROM_F64 COPY32_FROM_F32
32 SET_Z IMM MEM NUMBER_OF_REGISTERS NUMBER_OF_SAVED_REGISTERS NUMBER_OF_SCRATCH_REGISTERS NUMBER_OF_FLOAT_REGISTERS NUMBER_OF_SAVED_FLOAT_REGISTERS SP GP_REGISTER FLOAT_REGISTER RETURN_REG
EQUAL NOT_EQUAL LESS GREATER_EQUAL GREATER LESS_EQUAL SIG_LESS SIG_GREATER_EQUAL SIG_GREATER SIG_LESS_EQUAL OVERFLOW NOT_OVERFLOW CARRY NOT_CARRY ATOMIC_STORED ATOMIC_NOT_STORED
F_EQUAL F_NOT_EQUAL F_LESS F_GREATER_EQUAL F_GREATER F_LESS_EQUAL UNORDERED ORDERED ORDERED_EQUAL UNORDERED_OR_NOT_EQUAL ORDERED_LESS UNORDERED_OR_GREATER_EQUAL ORDERED_GREATER UNORDERED_OR_LESS_EQUAL
UNORDERED_OR_EQUAL ORDERED_NOT_EQUAL UNORDERED_OR_LESS ORDERED_GREATER_EQUAL UNORDERED_OR_GREATER ORDERED_LESS_EQUAL
SET_LESS SET_GREATER SET_SIG_LESS SET_SIG_GREATER SET_OVERFLOW SET_CARRY SET_ATOMIC_STORED SET_F_EQUAL SET_F_LESS SET_F_GREATER SET_UNORDERED SET_ORDERED_EQUAL SET_ORDERED_LESS SET_ORDERED_GREATER
SET_UNORDERED_OR_EQUAL SET_UNORDERED_OR_LESS SET_UNORDERED_OR_GREATER JUMP FAST_CALL CALL CALL_REG_ARG REWRITABLE_JUMP CALL_RETURN JUMP_IF_ZERO JUMP_IF_NON_ZERO MEM_LOAD MEM_STORE MEM_UNALIGNED MEM_ALIGNED_16 MEM_ALIGNED_32
MEM_PRE MEM_POST MEM_SUPP ARG_TYPE_RET_VOID ARG_TYPE_W ARG_TYPE_W_R ARG_TYPE_32 ARG_TYPE_32_R ARG_TYPE_P ARG_TYPE_P_R ARG_TYPE_F64 ARG_TYPE_F32 ENTER_REG_ARG ENTER_USE_VEX
HAS_FPU HAS_CLZ HAS_CTZ HAS_REV HAS_ROT HAS_CMOV HAS_PREFETCH HAS_COPY_F32 HAS_COPY_F64 HAS_SIMD HAS_ATOMIC HAS_AVX HAS_AVX2 SUCCESS ERR_ALLOC_FAILED ERR_EX_ALLOC_FAILED ERR_UNSUPPORTED ERR_COMPILED
MOV_ADDR MOV_ABS_ADDR ADD_ABS_ADDR GENERATE_CODE_BUFFER GENERATE_CODE_NO_CONTEXT MAX_LOCAL_SIZE'''.split()

WRAP = r'''
#include "%(src)s"
%(consts)s
sljit_uw w_label_addr(struct sljit_label *l) { return sljit_get_label_addr(l); }
sljit_uw w_jump_addr(struct sljit_jump *j) { return sljit_get_jump_addr(j); }
sljit_uw w_const_addr(struct sljit_const *c) { return sljit_get_const_addr(c); }
sljit_uw w_code_size(struct sljit_compiler *c) { return sljit_get_generated_code_size(c); }
sljit_sw w_exec_offset(struct sljit_compiler *c) { return sljit_get_executable_offset(c); }
struct sljit_label *w_first_label(struct sljit_compiler *c) { return sljit_get_first_label(c); }
struct sljit_jump *w_first_jump(struct sljit_compiler *c) { return sljit_get_first_jump(c); }
struct sljit_const *w_first_const(struct sljit_compiler *c) { return sljit_get_first_const(c); }
struct sljit_label *w_next_label(struct sljit_label *l) { return sljit_get_next_label(l); }
struct sljit_jump *w_next_jump(struct sljit_jump *j) { return sljit_get_next_jump(j); }
struct sljit_const *w_next_const(struct sljit_const *c) { return sljit_get_next_const(c); }
sljit_s32 w_error(struct sljit_compiler *c) { return sljit_get_compiler_error(c); }
'''

CPUID = {  # feature -> (leaf, register, bit)
    'tzcnt': (7, 1, 1 << 3), 'avx2': (7, 1, 1 << 5), 'sse41': (1, 2, 1 << 19), 'osxsave': (1, 2, 1 << 27), 'avx': (1, 2, 1 << 28),
    'sse2': (1, 3, 1 << 26), 'cmov': (1, 3, 1 << 15), 'lzcnt': (0x80000001, 2, 1 << 5)}
FULL = ('tzcnt', 'avx2', 'sse41', 'osxsave', 'avx', 'sse2', 'cmov', 'lzcnt')
BASE = ('sse2', 'cmov')

EXLO = 0x10000000           # executable memory
GLO = 0x600000              # data of the library (low addresses, as in a program linked without PIE)
GHI = 0x555555800000


def load():
    src = REPO + '/sljit/sljit_src/sljitLir.c'
    d = tempfile.mkdtemp(prefix='pwsj')
    try:
        names = list(OPS)
        for _ in range(4):
            w = os.path.join(d, 'w.c')
            with open(w, 'w') as f: f.write(WRAP % dict(src=src, consts='\n'.join('const long long k_%s = SLJIT_%s;' % (n, n) for n in names)))
            try: return compile_ir(w, REPO)
            except IRError as e:
                import re
                bad = set(re.findall(r"undeclared (?:identifier|here[^']*) 'SLJIT_(\w+)'", str(e)))
                if not bad: raise
                names = [n for n in names if n not in bad]
        raise IRError("constants of sljitLir.h")
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Failed(Exception):
    """an entry point of the library ended in a way it must not (abort, assertion, bad memory access)"""


class SJ:
    """one sljit module, its constants and a way to call its functions"""

    def __init__(self, m=None, high=False, exlo=EXLO):
        self.m = m or load()
        self.k = {}
        for n, g in self.m.globals.items():
            if n.startswith('k_') and g['init']:
                v = g['init'].get(0)
                self.k[n[2:]] = v[1][1] if v and v[1][0] == 'c' else 0
            elif n.startswith('k_'): self.k[n[2:]] = 0
        for n, v in self.k.items():
            if v >= 1 << 63: self.k[n] = v - (1 << 64)
        I = self.I = Interp(self.m)
        I.sized = True
        I.MAXSTEPS = 4000000
        self.exlo = exlo
        a = GHI if high else GLO
        self.abs = []
        for n, g in sorted(self.m.globals.items()):
            if n.startswith('k_') or n.startswith('.str') or n in ('stdout', 'stderr', 'stdin'): continue
            I.gaddr[n] = a
            self.abs.append((a, a + max(1, g['size']), ('g', n)))
            a += g['size'] + 15 & ~15
        self.nex = 0
        x = I.ext
        x['mmap'] = self.mmap
        x['munmap'] = self.munmap
        for n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'mprotect', 'madvise', 'posix_madvise', 'fflush', 'fprintf', 'puts', 'putchar'): x[n] = lambda I, st, fr, i, a: 0
        x['sysconf'] = x['getpagesize'] = lambda I, st, fr, i, a: 4096
        x['*asm'] = self.asm
        self.trace_on = False

    def use(self):
        """make the absolute addresses of this instance those of the interpreter"""
        absint.ABS[:] = self.abs + [(self.exlo, self.exlo + (1 << 32), ('CODE', 0))]

    def mmap(self, I, st, fr, i, a):
        n = st.user.get('exnext', self.exlo)
        sz = st.res(a[1])
        if not isinstance(sz, int): raise Broken("mmap of a size that is not known")
        st.user['exnext'] = n + sz + 0x10000
        st.user['exmaps'] = st.user.get('exmaps', ()) + ((n, sz),)
        if ('CODE', 0) not in st.mem: st.obj(('CODE', 0), 'zero')
        return n

    def munmap(self, I, st, fr, i, a):
        st.user['unmaps'] = st.user.get('unmaps', ()) + ((a[0], a[1]),)
        return 0

    def asm(self, I, st, fr, i, a):
        t = i.callee[1]
        if 'cpuid' in t:
            leaf = a[0]
            f = st.user.get('cpu', FULL)
            if leaf == 0: return ('agg', (13, 0, 0, 0))
            if leaf == 0x80000000: return ('agg', (0x80000008, 0, 0, 0))
            r = [0, 0, 0, 0]
            for n in f:
                l, k, b = CPUID[n]
                if l == leaf: r[k] |= b
            return ('agg', tuple(r))
        if 'xgetbv' in t or '\x0f\x01\xd0' in t: return 7
        if i.ty == 'i32': return 7
        raise Broken("inline assembly %r" % t)

    def start(self, cpu=FULL):
        self.use()
        st = State()
        st.user['cpu'] = cpu
        st.kind[('CODE', 0)] = 'zero'
        self.I.init_globals(st)
        return st

    def call(self, st, name, *args):
        """-> (state, result); exactly one outcome, or Failed"""
        st.frames = []; st.status = None; st.steps = 0
        ev = st.events
        st.events = None
        if name not in self.m.funcs: raise Broken("no function %s" % name)
        self.I.call(st, name, [a & mask(64) if isinstance(a, int) else a for a in args])
        outs = self.I.run(st)
        for o in outs:
            for e in o.trace():
                if e[0] == 'bad': raise Failed("%s: %s at %s:%s" % ((name,) + tuple(str(x) for x in e[1:4])))
        ret = [o for o in outs if o.status == 'ret']
        if not ret:
            e = [x for o in outs for x in o.trace() if x[0] == 'exit']
            raise Failed("%s does not return: %s" % (name, e[-1:] or [o.status for o in outs]))
        if len(outs) > 1: raise Broken("%s: %d outcomes" % (name, len(outs)))
        o = ret[0]
        o.events = ev
        return o, o.result

    def K(self, n): return self.k[n]

    # ---- registers -------------------------------------------------------------------------------
    def R(self, i): return 1 + i
    def Sv(self, i): return self.k['NUMBER_OF_REGISTERS'] - i
    def FR(self, i): return 1 + i
    def FS(self, i): return self.k['NUMBER_OF_FLOAT_REGISTERS'] - i

    def regmap(self, st, fp=False):
        """LIR register -> machine register"""
        out = {}
        n = self.k['NUMBER_OF_FLOAT_REGISTERS' if fp else 'NUMBER_OF_REGISTERS']
        for r in range(1, n + 1):
            st, v = self.call(st, 'sljit_get_register_index', self.k['FLOAT_REGISTER' if fp else 'GP_REGISTER'], r)
            if not (isinstance(v, int) and v < 16): raise Failed("sljit_get_register_index(%d) = %r" % (r, v))
            out[r] = v
        if not fp: out[self.k['SP']] = 4
        return out


def explore(m, done, leave=(), limit=400):
    """every path of machine m until done(ip) -> finished machines; a path must not leave to anywhere else"""
    work, out = [m], []
    n = 0
    while work:
        x = work.pop()
        while not done(x):
            n += 1
            if n > limit * 20: raise Broken("too many instructions")
            if not isinstance(x.ip, int): raise Broken("jump to %r" % (x.ip,))
            l = x.step()
            if len(l) > 1: work += l[1:]
            x = l[0]
        out.append(x)
        if len(out) > limit: raise Broken("too many paths")
    return out
