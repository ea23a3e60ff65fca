"""Loads LLVM IR (via the LLVM-C API of libLLVM-18, through ctypes) into plain Python objects.

Nothing is executed: clang -O0 + mem2reg gives the SSA form of /repo's current source, and this
module only reads it.  Debug locations are kept so that every report names file:line.
"""
import ctypes as C, os, subprocess, sys, tempfile, shutil

CLANG = "/usr/lib/llvm-18/bin/clang"
OPT = "/usr/lib/llvm-18/bin/opt"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
for _p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"):
    if os.path.exists(_p):
        L = C.CDLL(_p)
        break
else:
    print("ANALYSIS-BROKEN: libLLVM-18 not found")
    sys.exit(3)

P = C.c_void_p
def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f

ContextCreate = _f("LLVMContextCreate", P)
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
GetLinkage = _f("LLVMGetLinkage", C.c_int, P)
GetValueName2 = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
CountBB = _f("LLVMCountBasicBlocks", C.c_uint, P)
GetFirstBB = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBB = _f("LLVMGetNextBasicBlock", P, P)
GetBBName = _f("LLVMGetBasicBlockName", C.c_char_p, P)
GetFirstInst = _f("LLVMGetFirstInstruction", P, P)
GetNextInst = _f("LLVMGetNextInstruction", P, P)
GetOpcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
GetNumOperands = _f("LLVMGetNumOperands", C.c_int, P)
GetOperand = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
GetTypeKind = _f("LLVMGetTypeKind", C.c_int, P)
GetIntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
GetICmp = _f("LLVMGetICmpPredicate", C.c_int, P)
GetFCmp = _f("LLVMGetFCmpPredicate", C.c_int, P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, P)
GetIncomingValue = _f("LLVMGetIncomingValue", P, P, C.c_uint)
GetIncomingBlock = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
GetNumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
GetSucc = _f("LLVMGetSuccessor", P, P, C.c_uint)
GetCalled = _f("LLVMGetCalledValue", P, P)
GetNumArgOps = _f("LLVMGetNumArgOperands", C.c_uint, P)
GetGEPSrcTy = _f("LLVMGetGEPSourceElementType", P, P)
GetAllocTy = _f("LLVMGetAllocatedType", P, P)
IsConstantInt = _f("LLVMIsAConstantInt", P, P)
IsInlineAsm = _f("LLVMIsAInlineAsm", P, P)
AsmString = _f("LLVMGetInlineAsmAsmString", C.c_void_p, P, C.POINTER(C.c_size_t))
GetNumIndices = _f("LLVMGetNumIndices", C.c_uint, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
IsConstantFP = _f("LLVMIsAConstantFP", P, P)
IsNull = _f("LLVMIsNull", C.c_int, P)
IsUndef = _f("LLVMIsUndef", C.c_int, P)
IsFunction = _f("LLVMIsAFunction", P, P)
IsGlobalVar = _f("LLVMIsAGlobalVariable", P, P)
IsConstExpr = _f("LLVMIsAConstantExpr", P, P)
IsArgument = _f("LLVMIsAArgument", P, P)
IsInstruction = _f("LLVMIsAInstruction", P, P)
IsBB = _f("LLVMValueIsBasicBlock", C.c_int, P)
IsCDS = _f("LLVMIsAConstantDataSequential", P, P)
IsCAggZ = _f("LLVMIsAConstantAggregateZero", P, P)
IsCArr = _f("LLVMIsAConstantArray", P, P)
IsCStruct = _f("LLVMIsAConstantStruct", P, P)
IsMDV = _f("LLVMIsAMDNode", P, P)
ConstSExt = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
ConstZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
GetConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GetAggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
GetAsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
IsCString = _f("LLVMIsConstantString", C.c_int, P)
GetDLL = _f("LLVMGetDebugLocLine", C.c_uint, P)
GetDLF = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(C.c_uint))
GetSubprogram = _f("LLVMGetSubprogram", P, P)
SubprogLine = _f("LLVMDISubprogramGetLine", C.c_uint, P)
ScopeFile = _f("LLVMDIScopeGetFile", P, P)
FileName = _f("LLVMDIFileGetFilename", P, P, C.POINTER(C.c_uint))
GetDL = _f("LLVMGetModuleDataLayout", P, P)
SizeOf = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
GetElemTy = _f("LLVMGetElementType", P, P)
GetArrLen = _f("LLVMGetArrayLength", C.c_uint, P)
CountStructElems = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
GetReturnType = _f("LLVMGetReturnType", P, P)
SwitchDefault = _f("LLVMGetSwitchDefaultDest", P, P)
IsCond = _f("LLVMIsConditional", C.c_int, P)
GetCond = _f("LLVMGetCondition", P, P)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
 8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
 20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
 42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',
 55:'fence',56:'cmpxchg',57:'atomicrmw',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = ['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']

class IRError(Exception):
    pass


class Inst:
    __slots__ = ('id','op','ty','w','ops','pred','gep','callee','cases','inc','file','line','blk','idx','fn','aty','n')
    def loc(self):
        return "%s:%d" % (self.file, self.line)
    def __repr__(self):
        return "<%s %%%d %s @%s>" % (self.op, self.id, self.ops, self.loc())

class Block:
    __slots__ = ('id','name','insts','succs','preds','fn')

class Func:
    __slots__ = ('name','nargs','argtys','retty','blocks','file','line','insts','internal','_loops')
    def __repr__(self):
        return "<fn %s>" % self.name

class Module:
    pass

def _s(ptr, n):
    return C.string_at(ptr, n).decode('utf8', 'replace') if ptr else ''

class Loader:
    def __init__(self, bc, repo):
        self.repo = os.path.realpath(repo)
        ctx = ContextCreate()
        buf = P(); err = C.c_char_p()
        if CreateMemBuf(bc.encode(), C.byref(buf), C.byref(err)):
            raise IRError("cannot read " + bc)
        mod = P()
        if ParseBC(ctx, buf, C.byref(mod)):
            raise IRError("cannot parse " + bc)
        self.mod = mod
        self.dl = GetDL(mod)
        self.fcache = {}
        self.tycache = {}
        m = self.m = Module()
        m.funcs = {}
        m.decls = {}
        m.globals = {}
        m.structs = {}
        f = GetFirstFunction(mod)
        while f:
            name = self.vname(f)
            if CountBB(f):
                m.funcs[name] = self.func(f, name)
            else:
                m.decls[name] = True
            f = GetNextFunction(f)
        g = GetFirstGlobal(mod)
        while g:
            name = self.vname(g)
            init = GetInitializer(g)
            ty = GlobalValueType(g)
            m.globals[name] = {'size': SizeOf(self.dl, ty), 'init': None, 'const': bool(IsGlobalConstant(g)),
                               'internal': GetLinkage(g) in (8, 9), 'elem': None}
            if GetTypeKind(ty) == 11:
                m.globals[name]['elem'] = SizeOf(self.dl, GetElemTy(ty))
            if init:
                out = {}
                self.cinit(init, ty, 0, out)
                m.globals[name]['init'] = out
            g = GetNextGlobal(g)

    def vname(self, v):
        n = C.c_size_t()
        s = GetValueName2(v, C.byref(n))
        return s[:n.value].decode() if s else ''

    def ty(self, t):
        r = self.tycache.get(t)
        if r is None:
            k = GetTypeKind(t)
            if k == 8: r = 'i%d' % GetIntWidth(t)
            elif k == 0: r = 'void'
            elif k == 2: r = 'float'
            elif k == 3: r = 'double'
            elif k == 12: r = 'ptr'
            elif k == 10:
                r = 'struct'
            elif k == 11: r = 'array'
            else: r = 'k%d' % k
            self.tycache[t] = r
        return r

    def width(self, t):
        s = self.ty(t)
        if s[0] == 'i': return (int(s[1:]) + 7) // 8
        if s == 'float': return 4
        if s in ('double', 'ptr'): return 8
        if s in ('void',): return 0
        try:
            return SizeOf(self.dl, t)
        except Exception:
            return 0

    def sname(self, t):
        """struct name; records layout of named structs on first sight"""
        n = StructName(t)
        n = n.decode() if n else 'anon'
        if n not in self.m.structs:
            lay = []
            self.m.structs[n] = (SizeOf(self.dl, t), lay)
            for i in range(CountStructElems(t)):
                e = StructElem(t, i)
                lay.append((OffsetOf(self.dl, t, i), self.ty(e), SizeOf(self.dl, e)))
        return n

    def cinit(self, v, ty, off, out):
        k = self.ty(ty)
        if IsUndef(v): return
        if k == 'struct':
            self.sname(ty)
            for i in range(CountStructElems(ty)):
                e = GetAggElem(v, i)
                if e: self.cinit(e, StructElem(ty, i), off + OffsetOf(self.dl, ty, i), out)
        elif k == 'array':
            et = GetElemTy(ty); sz = SizeOf(self.dl, et)
            if IsCDS(v) and IsCString(v):
                n = C.c_size_t()
                p = GetAsString(v, C.byref(n))
                for i, b in enumerate(C.string_at(p, n.value)):
                    out[off + i] = (1, ('c', b))
                return
            for i in range(GetArrLen(ty)):
                e = GetAggElem(v, i)
                if e: self.cinit(e, et, off + i * sz, out)
        else:
            out[off] = (self.width(ty), self.operand(v))

    def operand(self, v):
        if IsInstruction(v):
            return ('r', self.ids[v])
        if IsArgument(v):
            return ('a', self.argids[v])
        if IsConstantInt(v):
            t = TypeOf(v)
            if GetIntWidth(t) > 64: return ('undef',)
            return ('c', ConstZExt(v))
        if IsFunction(v):
            return ('g', self.vname(v), 0)
        if IsGlobalVar(v):
            return ('g', self.vname(v), 0)
        if IsConstantFP(v):
            lo = C.c_int()
            return ('f', ConstReal(v, C.byref(lo)))
        if IsConstExpr(v):
            op = OPC.get(GetConstOpcode(v))
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.operand(GetOperand(v, 0))
            if op == 'gep':
                b = self.operand(GetOperand(v, 0))
                off, var, _ = self.gepinfo(v)
                if b[0] == 'g' and not var:
                    return ('g', b[1], b[2] + off)
                if b[0] == 'c' and not var: return ('c', (b[1] + off) & (1 << 64) - 1)
            if op in ('add', 'sub', 'and', 'or', 'xor', 'mul'):
                a, b = self.operand(GetOperand(v, 0)), self.operand(GetOperand(v, 1))
                if a[0] == 'c' and b[0] == 'c' and GetIntWidth(TypeOf(v)) == 64:
                    x, y = a[1], b[1]
                    return ('c', {'add': x + y, 'sub': x - y, 'and': x & y, 'or': x | y, 'xor': x ^ y, 'mul': x * y}[op] & (1 << 64) - 1)
                if a[0] == 'g' and b[0] == 'c' and op in ('add', 'sub'):
                    k = b[1] - (1 << 64) if b[1] >> 63 else b[1]
                    return ('g', a[1], a[2] + (k if op == 'add' else -k))
            return ('undef',)
        if IsNull(v):
            return ('c', 0)
        if IsInlineAsm(v):
            n = C.c_size_t()
            s = AsmString(v, C.byref(n))
            return ('asm', C.string_at(s, n.value).decode('utf8', 'replace') if s else '')
        return ('undef',)

    def gepinfo(self, v):
        """constant byte offset, [(operand, scale)], array-field split marker:
        offset at which an array-typed struct field is selected (or None)"""
        ty = GetGEPSrcTy(v)
        off = 0
        var = []
        split = None
        n = GetNumOperands(v)
        for i in range(1, n):
            idx = GetOperand(v, i)
            if i == 1:
                sz = SizeOf(self.dl, ty)
                cur = ty
                if IsConstantInt(idx): off += ConstSExt(idx) * sz
                else: var.append((self.operand(idx), sz))
                continue
            k = GetTypeKind(cur)
            if k == 10:
                self.sname(cur)
                fi = ConstZExt(idx)
                off += OffsetOf(self.dl, cur, fi)
                cur = StructElem(cur, fi)
                if GetTypeKind(cur) == 11:
                    split = off
            elif k == 11:
                cur = GetElemTy(cur)
                sz = SizeOf(self.dl, cur)
                if IsConstantInt(idx): off += ConstSExt(idx) * sz
                else: var.append((self.operand(idx), sz))
        return off, var, split

    def relfile(self, p):
        p = self.fcache.get(p, p)
        return p

    def func(self, f, name):
        fn = Func()
        fn.name = name
        fn.nargs = CountParams(f)
        fn.argtys = [self.ty(TypeOf(GetParam(f, i))) for i in range(fn.nargs)]
        fty = GlobalValueType(f)
        fn.retty = self.ty(GetReturnType(fty))
        fn.internal = GetLinkage(f) in (8, 9)
        fn._loops = None
        sp = GetSubprogram(f)
        fn.line = SubprogLine(sp) if sp else 0
        fn.file = '?'
        if sp:
            fl = ScopeFile(sp)
            n = C.c_uint()
            fn.file = self.short(_s(FileName(fl, C.byref(n)), n.value)) if fl else '?'
        self.ids = {}
        self.argids = {GetParam(f, i): i for i in range(fn.nargs)}
        blks = []
        bb = GetFirstBB(f)
        bid = {}
        nid = 0
        raw = []
        while bb:
            b = Block(); b.id = len(blks); b.fn = fn
            b.name = GetBBName(bb).decode()
            b.insts = []; b.succs = []; b.preds = []
            bid[bb] = b.id
            blks.append(b)
            ins = []
            i = GetFirstInst(bb)
            while i:
                self.ids[i] = nid
                ins.append((i, nid)); nid += 1
                i = GetNextInst(i)
            raw.append(ins)
            bb = GetNextBB(bb)
        fn.blocks = blks
        fn.insts = {}
        for b, ins in zip(blks, raw):
            for v, iid in ins:
                op = OPC.get(GetOpcode(v), 'op%d' % GetOpcode(v))
                if op == 'call':
                    cv = GetCalled(v)
                    if IsFunction(cv) and self.vname(cv).startswith('llvm.dbg.'):
                        continue
                x = Inst()
                x.id = iid; x.op = op; x.blk = b.id; x.fn = fn
                t = TypeOf(v)
                x.ty = self.ty(t); x.w = self.width(t)
                x.pred = x.gep = x.callee = x.cases = x.inc = x.aty = None
                x.line = GetDLL(v)
                if x.line:
                    n = C.c_uint()
                    x.file = self.short(_s(GetDLF(v, C.byref(n)), n.value))
                else:
                    x.file = fn.file
                if op == 'phi':
                    x.inc = [(bid[GetIncomingBlock(v, k)], self.operand(GetIncomingValue(v, k))) for k in range(CountIncoming(v))]
                    x.ops = []
                elif op == 'br':
                    x.ops = [self.operand(GetCond(v))] if IsCond(v) else []
                    b.succs = [bid[GetSucc(v, k)] for k in range(GetNumSucc(v))]
                elif op == 'switch':
                    x.ops = [self.operand(GetOperand(v, 0))]
                    x.cases = []
                    n = GetNumOperands(v)
                    for k in range(2, n, 2):
                        x.cases.append((ConstZExt(GetOperand(v, k)), bid[C.cast(GetOperand(v, k + 1), P).value and self.asbb(GetOperand(v, k + 1))]))
                    x.aty = self.ty(TypeOf(GetOperand(v, 0)))
                    d = bid[SwitchDefault(v)]
                    x.inc = d
                    b.succs = [d] + [c[1] for c in x.cases]
                elif op == 'call':
                    cv = GetCalled(v)
                    na = GetNumArgOps(v)
                    x.ops = [self.operand(GetOperand(v, k)) for k in range(na)]
                    x.callee = self.operand(cv)
                    x.aty = [self.ty(TypeOf(GetOperand(v, k))) for k in range(na)]
                else:
                    n = GetNumOperands(v)
                    x.ops = [self.operand(GetOperand(v, k)) for k in range(n)]
                    if op == 'gep':
                        x.gep = self.gepinfo(v)
                    elif op == 'extractvalue':
                        ix = GetIndices(v)
                        x.inc = [ix[k] for k in range(GetNumIndices(v))]
                    elif op == 'icmp':
                        x.pred = ICMP[GetICmp(v)]
                        x.aty = self.ty(TypeOf(GetOperand(v, 0)))
                    elif op == 'fcmp':
                        x.pred = FCMP[GetFCmp(v)]
                        x.aty = self.ty(TypeOf(GetOperand(v, 0)))
                    elif op == 'alloca':
                        x.w = SizeOf(self.dl, GetAllocTy(v))
                        at = GetAllocTy(v)
                        x.aty = self.ty(at)
                    elif op == 'store':
                        st = TypeOf(GetOperand(v, 0))
                        x.w = self.width(st); x.aty = self.ty(st)
                    elif op in ('trunc','zext','sext','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','ptrtoint','inttoptr','bitcast'):
                        x.aty = self.ty(TypeOf(GetOperand(v, 0)))
                x.idx = len(b.insts)
                b.insts.append(x)
                fn.insts[iid] = x
        for b in blks:
            for s in b.succs:
                if b.id not in blks[s].preds: blks[s].preds.append(b.id)
        return fn

    _vab = None
    def asbb(self, v):
        if Loader._vab is None:
            Loader._vab = _f("LLVMValueAsBasicBlock", P, P)
        return Loader._vab(v)

    def short(self, p):
        r = self.fcache.get(p)
        if r is None:
            q = p if os.path.isabs(p) else os.path.join(self.repo, p)
            q = os.path.realpath(q)
            r = q[len(self.repo) + 1:] if q.startswith(self.repo + '/') else q
            self.fcache[p] = r
        return r

def compile_ir(src, repo, flags=(), passes="mem2reg", workdir=None, link=()):
    """link: further sources, each compiled alone and linked in: (source, flags)"""
    d = workdir or tempfile.mkdtemp(prefix="pwsa")
    try:
        a = os.path.join(d, "a.bc"); b = os.path.join(d, "b.bc")
        cmd = [CLANG, "-x", "c", "-std=gnu11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-builtin",
               "-I" + repo + "/include", "-I" + repo + "/sljit/sljit_src", *flags, "-emit-llvm", "-c", src, "-o", a]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise IRError("clang failed: " + r.stderr[-6000:])
        if link:
            parts = [a]
            for k, (s2, f2) in enumerate(link):
                c2 = os.path.join(d, "l%d.bc" % k)
                r = subprocess.run(cmd[:cmd.index("-I" + repo + "/include") + 2] + [*f2, "-emit-llvm", "-c", s2, "-o", c2], capture_output=True, text=True)
                if r.returncode:
                    raise IRError("clang failed: " + r.stderr[-6000:])
                parts.append(c2)
            r = subprocess.run([LINK, *parts, "-o", os.path.join(d, "all.bc")], capture_output=True, text=True)
            if r.returncode:
                raise IRError("llvm-link failed: " + r.stderr[-2000:])
            a = os.path.join(d, "all.bc")
        r = subprocess.run([OPT, "-passes=" + passes, a, "-o", b], capture_output=True, text=True)
        if r.returncode:
            raise IRError("opt failed: " + r.stderr[-2000:])
        return Loader(b, repo).m
    finally:
        if workdir is None:
            shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    import time
    t = time.time()
    m = compile_ir(sys.argv[1], "/repo", sys.argv[2:])
    print(len(m.funcs), sum(len(f.insts) for f in m.funcs.values()), time.time() - t)
    for s, (sz, lay) in sorted(m.structs.items()):
        print(s, sz, lay[:60])
