"""Abstract model of the translator's inputs (module compiler, runtime context, code bytes) and the
collection of what the translator emits for a wasm code fragment.

The translator (/repo/pwart, through its LLVM IR) is interpreted abstractly: immediates, pointers and
sizes are unknowns, the opcodes and the operand shapes are the partition.
"""
import os, re, sys, tempfile, shutil
from . import ir, absint
from .absint import *

REPO = os.environ.get("PWSA_REPO", "/repo")

OFFS = {
 'ModuleCompiler': "context path byte_count bytes types types_pool import_count trap_handler globals functions import_resolver compile_succeeded jitc target_ptr_size pc sp stack blocks br_table eof block_returned function_type function_locals_type locals mem_base_local table_entries_local first_stackvalue_offset cached_midx locals_need_zero registers_status float_registers_status import_name_buffer".split(),
 'RuntimeContext': "stack_flags is_in_namespace strings_pool start_function funcentries funcentries_count import_funcentries_count import_tables_count own_tables_count own_memories_count own_tables own_memories own_globals tables memories exports resolver userdata".split(),
 'StackValue': "wasm_type jit_type frame_offset val.op val.opw val.cmp.flag".split(),
 'WasmFunction': "func_ptr tidx fidx locals_type".split(),
 'Type': "form params results".split(),
 'Table': "elem_type initial maximum size entries".split(),
 'Memory': "initial maximum pages bytes fixed".split(),
 'Export': "external_kind export_name value".split(),
 'Namespace': "resolver mods nsmeta nsmetasyms".split(),
 'Block': "block_type stack_offset saved_sp else_jump br_label br_jump".split(),
 'struct dynarr': "len cap elemSize data".split(),
 'struct pool': "chunks cur used chunk_size".split(),
 'struct pwart_global_compile_config': "stack_flags misc_flags".split(),
 'struct pwart_symbol_resolve_request': "import_module import_field kind result".split(),
 'struct pwart_symbol_resolver': "resolve".split(),
 'struct pwart_named_symbol': "name kind val".split(),
 'struct pwart_named_module': "name type val".split(),
 'struct pwart_inspect_result1': "memory_size memory table_entries_count table_entries globals_buffer_size globals_buffer symbol_resolver".split(),
 'struct pwart_host_module': "resolve namespace2 on_attached on_detached".split(),
}
CONSTS = """SLJIT_32 SLJIT_MEM SLJIT_IMM SLJIT_R0 SLJIT_R1 SLJIT_R2 SLJIT_R3 SLJIT_S0 SLJIT_S1 SLJIT_SP SLJIT_FR0 SLJIT_FS0 SLJIT_FIRST_SAVED_REG SLJIT_FIRST_SAVED_FLOAT_REG
SLJIT_NUMBER_OF_SCRATCH_REGISTERS SLJIT_NUMBER_OF_REGISTERS SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS SLJIT_NUMBER_OF_FLOAT_REGISTERS SLJIT_NUMBER_OF_SAVED_REGISTERS SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS
SLJIT_MOV SLJIT_MOV_U8 SLJIT_MOV_S8 SLJIT_MOV_U16 SLJIT_MOV_S16 SLJIT_MOV_U32 SLJIT_MOV_S32 SLJIT_MOV32 SLJIT_MOV_P SLJIT_MOV32_U8 SLJIT_MOV32_S8 SLJIT_MOV32_U16 SLJIT_MOV32_S16
SLJIT_CLZ SLJIT_CTZ SLJIT_CLZ32 SLJIT_CTZ32
SLJIT_ADD SLJIT_ADD32 SLJIT_SUB SLJIT_SUB32 SLJIT_MUL SLJIT_MUL32 SLJIT_AND SLJIT_AND32 SLJIT_OR SLJIT_OR32 SLJIT_XOR SLJIT_XOR32 SLJIT_SHL SLJIT_SHL32 SLJIT_MSHL SLJIT_MSHL32 SLJIT_LSHR SLJIT_LSHR32 SLJIT_MLSHR SLJIT_MLSHR32 SLJIT_ASHR SLJIT_ASHR32 SLJIT_MASHR SLJIT_MASHR32 SLJIT_ROTL SLJIT_ROTL32 SLJIT_ROTR SLJIT_ROTR32
SLJIT_DIVMOD_UW SLJIT_DIVMOD_U32 SLJIT_DIVMOD_SW SLJIT_DIVMOD_S32 SLJIT_DIV_UW SLJIT_DIV_U32 SLJIT_DIV_SW SLJIT_DIV_S32
SLJIT_MOV_F64 SLJIT_MOV_F32 SLJIT_CONV_F64_FROM_F32 SLJIT_CONV_F32_FROM_F64 SLJIT_CONV_SW_FROM_F64 SLJIT_CONV_SW_FROM_F32 SLJIT_CONV_S32_FROM_F64 SLJIT_CONV_S32_FROM_F32 SLJIT_CONV_F64_FROM_SW SLJIT_CONV_F32_FROM_SW SLJIT_CONV_F64_FROM_S32 SLJIT_CONV_F32_FROM_S32 SLJIT_CMP_F64 SLJIT_CMP_F32 SLJIT_NEG_F64 SLJIT_NEG_F32 SLJIT_ABS_F64 SLJIT_ABS_F32 SLJIT_ADD_F64 SLJIT_ADD_F32 SLJIT_SUB_F64 SLJIT_SUB_F32 SLJIT_MUL_F64 SLJIT_MUL_F32 SLJIT_DIV_F64 SLJIT_DIV_F32
SLJIT_EQUAL SLJIT_NOT_EQUAL SLJIT_LESS SLJIT_GREATER_EQUAL SLJIT_GREATER SLJIT_LESS_EQUAL SLJIT_SIG_LESS SLJIT_SIG_GREATER_EQUAL SLJIT_SIG_GREATER SLJIT_SIG_LESS_EQUAL SLJIT_OVERFLOW SLJIT_CARRY
SLJIT_F_EQUAL SLJIT_F_NOT_EQUAL SLJIT_F_LESS SLJIT_F_GREATER_EQUAL SLJIT_F_GREATER SLJIT_F_LESS_EQUAL SLJIT_UNORDERED SLJIT_ORDERED SLJIT_ORDERED_EQUAL SLJIT_UNORDERED_OR_NOT_EQUAL SLJIT_ORDERED_LESS SLJIT_UNORDERED_OR_GREATER_EQUAL SLJIT_ORDERED_GREATER SLJIT_UNORDERED_OR_LESS_EQUAL SLJIT_UNORDERED_OR_EQUAL SLJIT_ORDERED_NOT_EQUAL SLJIT_UNORDERED_OR_LESS SLJIT_ORDERED_GREATER_EQUAL SLJIT_UNORDERED_OR_GREATER SLJIT_ORDERED_LESS_EQUAL
SLJIT_JUMP SLJIT_FAST_CALL SLJIT_CALL SLJIT_CALL_REG_ARG SLJIT_CALL_RETURN SLJIT_REWRITABLE_JUMP SLJIT_SET_Z
SLJIT_SET_LESS SLJIT_SET_GREATER SLJIT_SET_LESS_EQUAL SLJIT_SET_GREATER_EQUAL SLJIT_SET_SIG_LESS SLJIT_SET_SIG_GREATER SLJIT_SET_SIG_LESS_EQUAL SLJIT_SET_SIG_GREATER_EQUAL
SVT_GENERAL SVT_CMP SVT_POINTER SVT_TWO_REG SVT_I64CONST SVT_DUMMY OPERAND_STACK_COUNT PWART_STACK_FLAGS_AUTO_ALIGN PWART_MISC_FLAGS_EXTEND_INDEX PWART_MISC_FLAGS_LOCALS_ZERO_INIT PAGE_SIZE WA_MAGIC WA_VERSION
PWART_KIND_FUNCTION PWART_KIND_TABLE PWART_KIND_MEMORY PWART_KIND_GLOBAL""".split()


def probe_source(repo, without=()):
    s = ['#include "%s/pwart/pwart.c"' % repo]
    for t, fs in OFFS.items():
        fs = [f for f in fs if not any(w in f.split('.') for w in without)]
        s.append('const unsigned long __pw_s_%s __attribute__((used))= sizeof(%s);' % (t.replace(' ', '_'), t))
        for f in fs:
            s.append('const unsigned long __pw_o_%s__%s __attribute__((used))= offsetof(%s,%s);' % (t.replace(' ', '_'), f.replace('.', '_'), t, f))
    for c in CONSTS:
        s.append('const long __pw_c_%s __attribute__((used))= (long)(%s);' % (c, c))
    return "\n".join(s) + "\n"


class Prog:
    """the translator's IR plus layout facts, from /repo's current source"""

    def __init__(self, repo=REPO, flags=(), link=()):
        self.repo = os.path.realpath(repo)
        d = tempfile.mkdtemp(prefix="pwsa")
        try:
            src = os.path.join(d, "probe.c")
            without = set()
            while 1:
                with open(src, "w") as f: f.write(probe_source(self.repo, without))
                try:
                    self.m = ir.compile_ir(src, self.repo, flags=flags, workdir=d, link=[x for f in link for x in f(self.repo, d)])
                    break
                except ir.IRError as e:
                    gone = set(re.findall(r"no member named '(\w+)'", str(e))) - without
                    if not gone: raise
                    without |= gone
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.o = {}
        self.sz = {}
        self.c = {}
        for n in list(self.m.globals):
            if n.startswith('__pw_'):
                v = self.m.globals[n]['init'][0][1][1]
                if n.startswith('__pw_o_'):
                    t, f = n[7:].split('__', 1)
                    self.o[t.replace('struct_', ''), f] = v
                elif n.startswith('__pw_s_'):
                    self.sz[n[7:].replace('struct_', '')] = v
                else:
                    self.c[n[7:]] = v - (1 << 64) if v >> 63 else v
                del self.m.globals[n]

    def off(self, t, f):
        return self.o[t, f.replace('.', '_')]


I32, I64, F32, F64, FUNC, REF = 0x7f, 0x7e, 0x7d, 0x7c, 0x70, 0x6f
TNAME = {I32: 'i32', I64: 'i64', F32: 'f32', F64: 'f64', FUNC: 'func', REF: 'ref'}


def tsize(t):
    return 4 if t in (I32, F32) else 8


def layout(types, align):
    """frame offsets of a parameter/result list; the ABI of include/pwart.h"""
    out = []
    o = 0
    for t in types:
        s = tsize(t)
        if align: o = (o + s - 1) // s * s
        out.append(o)
        o += s
    return out, o


class Env:
    """description of the module a code fragment lives in"""

    def __init__(self, params=(), results=(), locals=(), memories=('grow',), tables=1, globals=(I32, I64, F32, F64, REF),
                 types=(), funcs=(), align=0, misc=2):
        self.params = list(params); self.results = list(results); self.locals = list(locals)
        self.memories = list(memories); self.tables = tables; self.globals = list(globals)
        self.types = [(list(params), list(results))] + [(list(a), list(b)) for a, b in types]
        self.funcs = list(funcs)     # list of (typeidx, stub or None)
        self.align = align; self.misc = misc
        self.pvals = None            # classes of parameter values


LEBS = ('read_LEB', 'read_LEB_signed')


class Gen:
    def __init__(self, prog):
        self.p = prog
        self.I = Interp(prog.m)
        I = self.I
        I.hook_load[('CODE',)] = self.h_code
        I.hook_call['read_LEB'] = lambda I, st, fr, i, a: self.h_leb(st, i, a, 0)
        I.hook_call['read_LEB_signed'] = lambda I, st, fr, i, a: self.h_leb(st, i, a, 1)
        I.hook_call['read_LEB_'] = lambda I, st, fr, i, a: self.h_leb(st, i, a, a[3])
        self.lebnames = ['read_LEB', 'read_LEB_signed', 'read_LEB_'] + self.find_leb(prog.m)
        I.hook_call['pwart_get_builtin_symbols'] = self.h_builtin
        for n in prog.m.decls:
            if n.startswith('sljit_'):
                I.ext[n] = self.h_sljit
        self.base_state = None
        self.cfgcache, self.stubcells = {}, None
        c = prog.c
        self.scratch = c['SLJIT_NUMBER_OF_SCRATCH_REGISTERS']

    def find_leb(self, m):
        """LEB128 readers under other names, known by their signature"""
        if 'read_LEB' in m.funcs and 'read_LEB_signed' in m.funcs: return []
        core = [n for n, f in m.funcs.items() if list(f.argtys) == ['ptr', 'ptr', 'i32', 'i32'] and f.retty == 'i64' and f.internal]
        out = []
        for n in core:
            self.I.hook_call[n] = lambda I, st, fr, i, a: self.h_leb(st, i, a, a[3])
            out.append(n)
        for n, f in m.funcs.items():
            if list(f.argtys) != ["ptr", "ptr", "i32"] or f.retty != 'i64' or not f.internal or n in self.I.hook_call: continue
            sg = None
            for b in f.blocks:
                for i in (b.insts if hasattr(b, 'insts') else b):
                    if i.op == 'call' and i.callee and i.callee[0] == 'g' and (i.callee[1] in core or i.callee[1] == 'read_LEB_'):
                        x = i.ops[3]
                        sg = x if isinstance(x, int) else x[-1] if isinstance(x, tuple) else None
            if sg is None: continue
            self.I.hook_call[n] = lambda I, st, fr, i, a, sg=sg: self.h_leb(st, i, a, int(bool(sg)))
            out.append(n)
        return out

    def h_builtin(self, I, st, fr, i, a):
        if isinstance(a[0], tuple) and a[0][0] == 'p': st.put(a[0][1], a[0][2], 4, 0)
        return ('p', ('builtin-symbols',), 0)

    # ---- code bytes ----------------------------------------------------------
    def h_code(self, I, st, fr, i, off, size):
        code = st.user['code']
        off = st.res(off)
        if not isinstance(off, int):
            raise Broken("code position not constant")
        if size == 1:
            if off >= len(code):
                st.emit(('overread', off, i.file, i.line)); return ('s', 8, ('byte', off))
            s = code[off]
            if s[0] == 'op':
                if st.user.get('phase') == 'gen' and st.user.get('lastop') != off:
                    st.user['lastop'] = off
                    st.emit(('op', off, self.snapshot(st), i.file, i.line))
                elif st.user.get('phase') != 'gen' and st.user.get('lastscan') != off:
                    st.user['lastscan'] = off
                    st.emit(('scan-op', off, i.file, i.line))
                return s[1]
            if s[0] == 'b': return s[1]
            if s[0] == 'raw':
                st.emit(('raw', off, size, i.file, i.line))
                return ('trunc', 8, s[1]) if s[2] == 0 else ('rawb', 8, s[1], s[2])
            if s[0] == 'imm':
                st.emit(('rawleb', off, i.file, i.line))
                return ('s', 8, ('immbyte', off, s[1]))
            raise Broken("code slot %r" % (s,))
        if off < len(code) and code[off][0] == 'raw' and code[off][2] == 0 and code[off][3] == size:
            st.emit(('raw', off, size, i.file, i.line))
            return code[off][1]
        st.emit(('rawbad', off, size, i.file, i.line))
        return ('s', size * 8, ('codebytes', off, size))

    def h_leb(self, st, i, a, sign):
        code = st.user['code']
        base, off = aspair(a[1])
        pc = st.get(base, off, 4)
        pc = st.res(pc)
        if aspair(a[0])[0] != ('CODE',) or not isinstance(pc, int):
            raise Broken("LEB source")
        if isinstance(sign, tuple): sign = 2
        st.put(base, off, 4, pc + 1)
        if pc >= len(code):
            st.emit(('overread', pc, i.file, i.line))
            return ('s', 64, ('beyond', pc))
        s = code[pc]
        st.emit(('leb', pc, a[2], int(bool(sign)), i.file, i.line))
        if s[0] == 'imm': v = s[1]
        elif s[0] in ('op', 'b'):
            v = s[1] & 0x7f
            if sign and v & 0x40: v |= MASK[64] ^ 0x7f
            return v
        else:
            return ('s', 64, ('leb-raw', pc))
        if isinstance(v, int):
            return v & MASK[64]
        return v

    def snapshot(self, st):
        p = self.p
        mc = ('MC',)
        sp = st.get(mc, p.off('ModuleCompiler', 'sp'), 4)
        if not isinstance(sp, int): return ('?', ())
        sp = sgn(sp, 32)
        base = p.off('ModuleCompiler', 'stack')
        sz = p.sz['StackValue']
        out = []
        for k in range(min(sp + 1, 64)):
            o = base + k * sz
            jt = st.get(mc, o + p.off('StackValue', 'jit_type'), 1)
            wt = st.get(mc, o + p.off('StackValue', 'wasm_type'), 1)
            fo = st.get(mc, o + p.off('StackValue', 'frame_offset'), 2)
            if jt == p.c['SVT_CMP']:
                fl = st.get(mc, o + p.off('StackValue', 'val.cmp.flag'), 1)
                out.append((wt, jt, fo, fl, 0))
            else:
                op = st.get(mc, o + p.off('StackValue', 'val.op'), 4)
                ow = st.get(mc, o + p.off('StackValue', 'val.opw'), 8)
                out.append((wt, jt, fo, op, ow))
        return (sp, tuple(out))

    def local_locs(self, st, n):
        """location of wasm locals 0..n-1 after function entry"""
        p = self.p
        lb = aspair(st.get(('MC',), p.off('ModuleCompiler', 'locals'), 8))
        out = []
        for k in range(n):
            o = lb[1] + p.off('dynarr', 'data') + k * p.sz['StackValue']
            out.append((st.get(lb[0], o + p.off('StackValue', 'wasm_type'), 1),
                        st.get(lb[0], o + p.off('StackValue', 'jit_type'), 1),
                        st.get(lb[0], o + p.off('StackValue', 'val.op'), 4),
                        st.get(lb[0], o + p.off('StackValue', 'val.opw'), 8)))
        return tuple(out)

    # ---- sljit interface -----------------------------------------------------
    def h_sljit(self, I, st, fr, i, a):
        n = i.callee[1]
        if n == 'sljit_create_compiler':
            st.user['phase'] = 'gen'
            st.emit(('gen-begin', i.file, i.line))
            return ('p', ('SLJ', st.fresh()), 0)
        if n == 'sljit_get_register_index': return 1
        if n == 'sljit_generate_code':
            st.emit(('generate', tuple(a), i.file, i.line))
            return ('p', ('JIT', st.fresh()), 0)
        if n == 'sljit_free_compiler':
            st.emit(('free-compiler', a[0], i.file, i.line)); return None
        if not n.startswith('sljit_emit') and n != 'sljit_set_label':
            st.emit(('ext', n, tuple(a), i.file, i.line))
            return ('s', BITS.get(i.ty, 64), ('sljit', n, st.fresh())) if i.ty != 'void' else None
        r = None
        if n == 'sljit_emit_label': r = ('p', ('LBL', st.fresh()), 0)
        elif n in ('sljit_emit_jump', 'sljit_emit_cmp', 'sljit_emit_fcmp', 'sljit_emit_call'): r = ('p', ('JMP', st.fresh()), 0)
        elif i.ty != 'void': r = 0
        # call chain for reports: innermost non-utility site
        site = None
        for f in reversed(st.frames):
            bi = f.fn.blocks[f.blk].insts
            x = bi[f.idx - 1] if f is not st.frames[-1] or f.idx > 0 else bi[f.idx]
            site = (x.file, x.line, f.fn.name)
            break
        if n == 'sljit_emit_enter' and 'locals' not in st.user:
            st.user['locals'] = self.local_locs(st, st.user['nlocals'])
        av = tuple(st.res(x) for x in (a if n == 'sljit_set_label' else a[1:]))
        st.emit(('lir', n, av, r, i.file, i.line, tuple(f.fn.name for f in st.frames[1:])))
        return r

    # ---- abstract compiler object ----------------------------------------------
    def dynarr(self, st, name, elems, esize):
        p = self.p
        b = ('DA', name)
        st.obj(b, 'zero')
        st.put(b, p.off('dynarr', 'len'), 4, len(elems))
        st.put(b, p.off('dynarr', 'cap'), 4, len(elems) + 1)
        st.put(b, p.off('dynarr', 'elemSize'), 4, esize)
        d = p.off('dynarr', 'data')
        for k, cells in enumerate(elems):
            for o, s, v in cells:
                st.put(b, d + k * esize + o, s, v)
        return ('p', b, 0)

    def cstr(self, st, name, bs):
        b = ('STR', name)
        st.obj(b, 'zero')
        for k, v in enumerate(list(bs) + [0]): st.put(b, k, 1, v)
        return ('p', b, 0)

    def config(self, st, flags, misc):
        """the compile configuration, set the way an embedder sets it"""
        c = self.cfgcache.get((flags, misc))
        if c is None:
            t = State()
            self.I.init_globals(t)
            b = ('CONFIG',)
            t.obj(b, 'zero')
            t.put(b, self.p.off('pwart_global_compile_config', 'stack_flags'), 1, flags)
            t.put(b, self.p.off('pwart_global_compile_config', 'misc_flags'), 1, misc)
            self.I.call(t, 'pwart_set_global_compile_config', [('p', b, 0)])
            o = self.I.run(t)
            if len(o) != 1 or o[0].status != 'ret': raise Broken('pwart_set_global_compile_config')
            i = State()
            self.I.init_globals(i)
            c = self.cfgcache[flags, misc] = [(b, off, n, v) for b, d in o[0].mem.items() if isinstance(b, tuple) and b[0] == 'g' for off, (n, v) in d.items() if i.mem.get(b, {}).get(off) != (n, v)]
        for b, off, n, v in c: st.put(b, off, n, v)

    STUBS = ('get_self_runtime_context', 'ref_from_index', 'ref_from_i64', 'i64_from_ref')

    def stubs(self):
        """where the translator keeps the addresses of the functions it replaces by code"""
        if self.stubcells is None:
            t = State()
            self.I.init_globals(t)
            t.obj(('CNT',), 'zero')
            h = self.I.hook_call.pop('pwart_get_builtin_symbols', None)
            self.I.call(t, 'pwart_get_builtin_symbols', [('p', ('CNT',), 0)])
            try: o = self.I.run(t)
            finally:
                if h: self.I.hook_call['pwart_get_builtin_symbols'] = h
            self.stubcells = []
            if len(o) == 1 and o[0].status == 'ret':
                s = o[0]
                a = s.result
                sz = self.p.sz['pwart_named_symbol']
                fn = {}
                for k in range(s.get(('CNT',), 0, 4)):
                    n = s.get(a[1], a[2] + k * sz + self.p.o['pwart_named_symbol', 'name'], 8)
                    n = bytes(self.I.bytes_at(s, n)[0]).decode('latin1')
                    if n in self.STUBS: fn[s.get(a[1], a[2] + k * sz + self.p.o['pwart_named_symbol', 'val'], 8)] = n
                for b, d in s.mem.items():
                    if isinstance(b, tuple) and b[0] == 'g':
                        for off, (n, v) in d.items():
                            if n == 8 and v in fn: self.stubcells.append((b, off, fn[v]))
            if not self.stubcells: self.stubcells = [(('g', 'pwart_InlineFuncList'), 8 * k, s) for k, s in enumerate(self.STUBS)]
        return self.stubcells

    def setup(self, env, code):
        p = self.p
        st = State()
        self.I.init_globals(st)
        self.config(st, env.align, env.misc)
        for b, off, s in self.stubs(): st.put(b, off, 8, ('p', ('STUB', s), 0))
        mc = ('MC',)
        st.obj(mc, 'zero')
        rc = ('RC',)
        st.obj(rc, 'zero')
        M = lambda f, s, v: st.put(mc, p.off('ModuleCompiler', f), s, v)
        R = lambda f, s, v: st.put(rc, p.off('RuntimeContext', f), s, v)
        M('context', 8, ('p', rc, 0))
        st.obj(('CODE',), 'lazy')
        M('bytes', 8, ('p', ('CODE',), 0))
        M('byte_count', 4, len(code))
        M('target_ptr_size', 4, 64)
        tcells = []
        for k, (a, r) in enumerate(env.types):
            tcells.append([(p.off('Type', 'form'), 4, 0x60), (p.off('Type', 'params'), 8, self.cstr(st, ('tp', k), a)),
                           (p.off('Type', 'results'), 8, self.cstr(st, ('tr', k), r))])
        M('types', 8, self.dynarr(st, 'types', tcells, p.sz['Type']))
        SV = lambda f: p.off('StackValue', f)
        gl = []
        for k, t in enumerate(env.globals):
            gl.append([(SV('wasm_type'), 1, t), (SV('jit_type'), 1, p.c['SVT_GENERAL']), (SV('frame_offset'), 2, 0), (SV('val.op'), 4, p.c['SLJIT_MEM']),
                       (SV('val.opw'), 8, ('p', ('GLB', k), 0))])
            st.obj(('GLB', k), 'lazy')
        M('globals', 8, self.dynarr(st, 'globals', gl, p.sz['StackValue']))
        WF = lambda f: p.off('WasmFunction', f)
        fl = [[(WF('func_ptr'), 8, 0), (WF('tidx'), 4, 0), (WF('fidx'), 4, 0), (WF('locals_type'), 8, self.cstr(st, 'lt', env.locals))]]
        for k, (t, stub) in enumerate(env.funcs):
            fl.append([(WF('func_ptr'), 8, ('p', ('STUB', stub), 0) if stub else 0), (WF('tidx'), 4, t), (WF('fidx'), 4, k + 1), (WF('locals_type'), 8, 0)])
        M('functions', 8, self.dynarr(st, 'functions', fl, p.sz['WasmFunction']))
        R('funcentries', 8, ('p', ('FE',), 0))
        st.obj(('FE',), 'lazy')
        R('funcentries_count', 4, len(fl))
        ms = []
        MO = lambda f: p.off('Memory', f)
        for k, kind in enumerate(env.memories):
            b = ('MEM', k)
            st.obj(b, 'lazy')
            st.put(b, MO('bytes'), 8, 0 if kind == 'raw' else ('p', ('MB', k), 0))
            st.put(b, MO('fixed'), 1, 0 if kind == 'grow' else 1)
            ms.append([(0, 8, ('p', b, 0))])
        R('memories', 8, self.dynarr(st, 'memories', ms, 8))
        ts = []
        TO = lambda f: p.off('Table', f)
        for k in range(env.tables):
            b = ('TAB', k)
            st.obj(b, 'lazy')
            st.put(b, TO('entries'), 8, ('p', ('TE', k), 0))
            ts.append([(0, 8, ('p', b, 0))])
        R('tables', 8, self.dynarr(st, 'tables', ts, 8))
        st.user['code'] = code
        st.user['nlocals'] = len(env.params) + len(env.locals)
        st.user['env'] = env
        return st

    def emit(self, env, code):
        """abstract interpretation of the translation of one function body; -> final states"""
        st = self.setup(env, code)
        p = self.p
        f0 = ('p', ('DA', 'functions'), p.off('dynarr', 'data'))
        self.I.call(st, 'pwart_EmitFunction', [('p', ('MC',), 0), f0])
        return self.I.run(st)


def OP(b): return ('op', b)
def IMM(v): return ('imm', v)
def B(v): return ('b', v)
def RAW(v, n): return [('raw', v, k, n) for k in range(n)]
