"""Reading LLVM bitcode into plain Python objects through the LLVM C API (ctypes).

Nothing is interpreted here: the module is parsed by LLVM itself, the listed LLVM passes are run
by LLVM itself, and the resulting instructions are copied into Python objects one by one."""
import re
import ctypes as C, subprocess

_L = None
def lib():
    global _L
    if _L is None:
        for n in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so", "libLLVM.so.18.1"):
            try:
                _L = C.CDLL(n); break
            except OSError:
                continue
        L = _L
        V = C.c_void_p
        def f(name, res, *args):
            fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args)
        f("LLVMContextCreate", V); f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
        f("LLVMParseIRInContext", C.c_int, V, V, C.POINTER(V), C.POINTER(C.c_char_p))
        for n in ("GetFirstFunction", "GetNextFunction", "GetFirstBasicBlock", "GetNextBasicBlock", "GetFirstInstruction",
                  "GetNextInstruction", "TypeOf", "GlobalGetValueType", "GetInitializer", "GetFirstGlobal", "GetNextGlobal",
                  "GetElementType", "GetReturnType", "GetAllocatedType", "GetGEPSourceElementType", "GetCalledFunctionType",
                  "GetNormalDest", "GetUnwindDest", "GetCondition", "GetModuleDataLayout", "GetBasicBlockParent",
                  "GetFirstParam", "GetNextParam", "BasicBlockAsValue", "ValueAsBasicBlock", "GetSwitchDefaultDest",
                  "GetCalledValue", "GetEntryBasicBlock", "GetBasicBlockTerminator", "InstructionGetDebugLoc",
                  "DILocationGetScope","GetSubprogram", "AliasGetAliasee", "GetFirstGlobalAlias", "GetNextGlobalAlias"):
            f("LLVM" + n, V, V)
        f("LLVMGetOperand", V, V, C.c_uint); f("LLVMGetNumOperands", C.c_int, V)
        f("LLVMGetInstructionOpcode", C.c_int, V); f("LLVMGetConstOpcode", C.c_int, V)
        f("LLVMGetValueKind", C.c_int, V)
        f("LLVMGetTypeKind", C.c_int, V); f("LLVMGetIntTypeWidth", C.c_uint, V)
        f("LLVMCountStructElementTypes", C.c_uint, V); f("LLVMStructGetTypeAtIndex", V, V, C.c_uint)
        f("LLVMGetArrayLength", C.c_uint, V); f("LLVMGetStructName", C.c_char_p, V)
        f("LLVMGetVectorSize", C.c_uint, V)
        f("LLVMGetValueName2", C.c_char_p, V, C.POINTER(C.c_size_t))
        f("LLVMConstIntGetZExtValue", C.c_ulonglong, V); f("LLVMConstRealGetDouble", C.c_double, V, C.POINTER(C.c_int))
        f("LLVMGetICmpPredicate", C.c_int, V); f("LLVMGetFCmpPredicate", C.c_int, V)
        f("LLVMCountIncoming", C.c_uint, V); f("LLVMGetIncomingValue", V, V, C.c_uint); f("LLVMGetIncomingBlock", V, V, C.c_uint)
        f("LLVMGetNumIndices", C.c_uint, V); f("LLVMGetIndices", C.POINTER(C.c_uint), V)
        f("LLVMGetNSW", C.c_int, V); f("LLVMGetNUW", C.c_int, V); f("LLVMGetExact", C.c_int, V)
        f("LLVMIsDeclaration", C.c_int, V); f("LLVMIsGlobalConstant", C.c_int, V); f("LLVMGetLinkage", C.c_int, V)
        f("LLVMIsConditional", C.c_int, V); f("LLVMGetNumSuccessors", C.c_uint, V); f("LLVMGetSuccessor", V, V, C.c_uint)
        f("LLVMGetNumArgOperands", C.c_uint, V); f("LLVMCountParams", C.c_uint, V)
        f("LLVMCountBasicBlocks", C.c_uint, V)
        f("LLVMABISizeOfType", C.c_ulonglong, V, V); f("LLVMOffsetOfElement", C.c_ulonglong, V, V, C.c_uint)
        f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
        f("LLVMCreateEnumAttribute", V, V, C.c_uint, C.c_uint64)
        f("LLVMAddAttributeAtIndex", None, V, C.c_uint, V)
        f("LLVMRemoveEnumAttributeAtIndex", None, V, C.c_uint, C.c_uint)
        f("LLVMCreatePassBuilderOptions", V); f("LLVMRunPasses", V, V, C.c_char_p, V, V)
        f("LLVMGetErrorMessage", V, V)
        f("LLVMPrintValueToString", C.c_char_p, V)
        f("LLVMPrintModuleToFile", C.c_int, V, C.c_char_p, C.POINTER(C.c_char_p))
        f("LLVMSetLinkage", None, V, C.c_int)
        f("LLVMGetDebugLocLine", C.c_uint, V)
        f("LLVMIsNull", C.c_int, V); f("LLVMGetNamedGlobal", V, V, C.c_char_p)
        f("LLVMGetAggregateElement", V, V, C.c_uint)
        f("LLVMIsConstantString", C.c_int, V); f("LLVMGetAsString", C.POINTER(C.c_char), V, C.POINTER(C.c_size_t))
        f("LLVMGetElementAsConstant", V, V, C.c_uint)
        f("LLVMGetNumOperands", C.c_int, V)
    return _L

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",66:"fneg",8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",
 14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",
 28:"store",29:"gep",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",
 40:"inttoptr",41:"bitcast",60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",47:"userop1",49:"vaarg",50:"extractelement",
 51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",68:"freeze",55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad"}
ICMP = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
FCMP = ["false","oeq","ogt","oge","olt","ole","one","ord","uno","ueq","ugt","uge","ult","ule","une","true"]

class Ty:
    __slots__ = ("k", "n", "el", "size", "offs", "name")
    def __repr__(s):
        if s.k == "int": return "i%d" % s.n
        if s.k == "array": return "[%d x %r]" % (s.n, s.el)
        if s.k == "struct": return "{%s}" % ",".join(map(repr, s.el))
        return s.k
def _mkty(k, n=0, el=None, size=0):
    t = Ty(); t.k = k; t.n = n; t.el = el; t.size = size; t.offs = None; t.name = None
    return t
I1 = _mkty("int", 1, size=1); I8 = _mkty("int", 8, size=1); I16=_mkty("int",16,size=2); I32 = _mkty("int", 32, size=4); I64 = _mkty("int", 64, size=8)
F32 = _mkty("float", size=4); F64 = _mkty("double", size=8); PTR = _mkty("ptr", size=8)
def tykey(t):
    if t.k == "int": return "i%d" % t.n
    return t.k

class Val:
    __slots__ = ("kind", "ty", "x", "y", "name")
    # kind: int, float, null, undef, zero, global, func, expr, inst, arg, block, agg, meta, asm
    def __repr__(s): return "<%s %s %s>" % (s.kind, s.name or "", s.x if s.kind in ("int", "float") else "")

class Inst:
    __slots__ = ("op", "ty", "ops", "block", "idx", "attr", "name", "line")
    def __repr__(s): return "%s=%s(%s)" % (s.name, s.op, s.ops)

class Block:
    def __init__(s, f, i, name): s.fn = f; s.i = i; s.name = name; s.insts = []; s.succs = []; s.preds = []
    def __repr__(s): return "bb%d" % s.i

class Func:
    pass

class Module:
    def __init__(self, path):
        L = lib(); self.L = L
        self.ctx = L.LLVMContextCreate()
        mb = C.c_void_p(); err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError(err.value)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, mb, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self._ty = {}; self._cv = {}
        self.scan()
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        a = L.LLVMGetFirstGlobalAlias(m) if False else None

    def scan(self):
        L = self.L
        self.fptr = {}; self.defined = []; self.declared = []
        f = L.LLVMGetFirstFunction(self.m)
        while f:
            n = self.vname(f)
            self.fptr[n] = f
            (self.declared if L.LLVMIsDeclaration(f) else self.defined).append(n)
            f = L.LLVMGetNextFunction(f)

    def vname(self, v):
        n = C.c_size_t(); s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s.decode() if s else ""

    def find(self, rx):
        """mangled name of the first defined function whose demangled name matches; None if there is none"""
        c = self.__dict__.setdefault("_find", {})
        if rx not in c:
            d = self.__dict__.get("_dnames")
            if d is None: d = self._dnames = demangle(sorted(self.defined))
            c[rx] = next((n for n in sorted(d) if re.search(rx, d[n])), None)
        return c[rx]
    def set_inline(self, keep, inline_ok):
        """keep(name): stays a call (noinline); inline_ok(name): always inlined."""
        L = self.L
        def kid(s): return L.LLVMGetEnumAttributeKindForName(s, len(s))
        ks = {s: kid(s) for s in (b"noinline", b"alwaysinline", b"optnone", b"inlinehint")}
        FI = 0xffffffff
        for n in self.defined:
            f = self.fptr[n]
            for s in ks: L.LLVMRemoveEnumAttributeAtIndex(f, FI, ks[s])
            if keep(n) or not inline_ok(n):
                L.LLVMAddAttributeAtIndex(f, FI, L.LLVMCreateEnumAttribute(self.ctx, ks[b"noinline"], 0))
            else:
                L.LLVMAddAttributeAtIndex(f, FI, L.LLVMCreateEnumAttribute(self.ctx, ks[b"alwaysinline"], 0))

    def run_passes(self, passes):
        L = self.L
        o = L.LLVMCreatePassBuilderOptions()
        e = L.LLVMRunPasses(self.m, passes.encode(), None, o)
        if e: raise RuntimeError(C.cast(L.LLVMGetErrorMessage(e), C.c_char_p).value)
        self.scan(); self._cv = {}; self.globals = {}; self.funcs = {}

    def dump(self, path):
        e = C.c_char_p(); self.L.LLVMPrintModuleToFile(self.m, path.encode(), C.byref(e))

    # types
    def ty(self, t):
        r = self._ty.get(t)
        if r is not None: return r
        L = self.L; k = L.LLVMGetTypeKind(t)
        if k == 0: r = _mkty("void")
        elif k == 2: r = F32
        elif k == 3: r = F64
        elif k == 4: r = _mkty("x86_fp80", size=16)
        elif k == 7: r = _mkty("label")
        elif k == 8:
            n = L.LLVMGetIntTypeWidth(t)
            r = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}.get(n) or _mkty("int", n, size=(n + 7) // 8)
        elif k == 9: r = _mkty("functy")
        elif k == 10:
            n = L.LLVMCountStructElementTypes(t)
            r = _mkty("struct"); self._ty[t] = r
            r.el = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            nm = L.LLVMGetStructName(t); r.name = nm.decode() if nm else None
            try:
                r.size = L.LLVMABISizeOfType(self.td, t) if n else 0
                r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
            except Exception: pass
        elif k == 11:
            el = self.ty(L.LLVMGetElementType(t)); n = L.LLVMGetArrayLength(t)
            r = _mkty("array", n, el, n * el.size)
        elif k == 12: r = PTR
        elif k == 13:
            el = self.ty(L.LLVMGetElementType(t)); n = L.LLVMGetVectorSize(t)
            r = _mkty("vector", n, el, n * el.size)
        else: r = _mkty("other%d" % k)
        self._ty[t] = r
        return r

    # constants and operands
    def val(self, v, imap):
        if v in imap: return imap[v]
        r = self._cv.get(v)
        if r is None:
            r = self._const(v); self._cv[v] = r
        return r

    def _const(self, v):
        L = self.L; k = L.LLVMGetValueKind(v)
        r = Val(); r.x = r.y = None; r.name = None
        if k in (17, ) : # MetadataAsValue? handled below
            pass
        names = {0:"arg",1:"block",5:"func",6:"alias",8:"global",10:"expr",11:"carray",12:"cstruct",13:"cvector",14:"undef",15:"zero",16:"carray",17:"cvector",18:"int",19:"float",20:"null",22:"meta",23:"asm",25:"poison"}
        # numbering follows LLVMValueKind of LLVM 18
        kinds = ["arg","block","muse","mdef","mphi","func","alias","ifunc","global","blockaddr","expr","carray","cstruct","cvector","undef","zero","cdarray","cdvector","int","float","null","tnone","meta","asm","inst","poison","ctarget"]
        kind = kinds[k]
        if kind == "meta":
            r.kind = "meta"; r.ty = None; return r
        r.ty = self.ty(L.LLVMTypeOf(v)); r.kind = kind
        if kind == "int": r.x = L.LLVMConstIntGetZExtValue(v) if r.ty.n <= 64 else None
        elif kind == "float":
            li = C.c_int(); r.x = L.LLVMConstRealGetDouble(v, C.byref(li))
        elif kind in ("func", "global"):
            r.name = self.vname(v); r.x = v
        elif kind == "alias":
            t = L.LLVMAliasGetAliasee(v); return self._const(t)
        elif kind == "expr":
            r.name = OPC.get(L.LLVMGetConstOpcode(v)); n = L.LLVMGetNumOperands(v)
            r.x = [self.val(L.LLVMGetOperand(v, i), {}) for i in range(n)]
            if r.name == "gep": r.y = self.ty(L.LLVMGetGEPSourceElementType(v))
        elif kind in ("carray", "cstruct", "cvector"):
            n = L.LLVMGetNumOperands(v); r.kind = "agg"
            r.x = [self.val(L.LLVMGetOperand(v, i), {}) for i in range(n)]
        elif kind in ("cdarray", "cdvector"):
            r.kind = "agg"
            r.x = [self.val(L.LLVMGetElementAsConstant(v, i), {}) for i in range(r.ty.n)]
        elif kind == "poison": r.kind = "undef"
        elif kind == "asm": r.name = "asm"
        elif kind in ("undef", "zero", "null"): pass
        else:
            r.kind = kind
        return r

    def global_info(self, name, v):
        g = self.globals.get(name)
        if g is None:
            L = self.L
            ini = L.LLVMGetInitializer(v) if not L.LLVMIsDeclaration(v) else None
            g = (self.ty(L.LLVMGlobalGetValueType(v)), bool(L.LLVMIsGlobalConstant(v)), self.val(ini, {}) if ini else None)
            self.globals[name] = g
        return g

    def named_global(self, name):
        v = self.L.LLVMGetNamedGlobal(self.m, name.encode())
        return self.global_info(name, v) if v else None

    def func(self, name):
        if name in self.funcs: return self.funcs[name]
        L = self.L; fp = self.fptr[name]
        F = Func(); F.name = name; F.blocks = []; F.mod = self
        imap = {}; F.args = []
        p = L.LLVMGetFirstParam(fp); i = 0
        while p:
            a = Val(); a.kind = "arg"; a.ty = self.ty(L.LLVMTypeOf(p)); a.x = i; a.y = None; a.name = "a%d" % i
            imap[p] = a; F.args.append(a); i += 1
            p = L.LLVMGetNextParam(p)
        bmap = {}; b = L.LLVMGetFirstBasicBlock(fp); raw = []
        while b:
            B = Block(F, len(F.blocks), ""); F.blocks.append(B); bmap[b] = B
            ins = L.LLVMGetFirstInstruction(b)
            while ins:
                raw.append((B, ins))
                v = Val(); v.kind = "inst"; v.x = None; v.y = None; v.name = "%%%d.%d" % (B.i, len(raw)); v.ty = self.ty(L.LLVMTypeOf(ins))
                imap[ins] = v
                ins = L.LLVMGetNextInstruction(ins)
            b = L.LLVMGetNextBasicBlock(b)
        for B, ins in raw:
            I = Inst(); I.op = OPC.get(L.LLVMGetInstructionOpcode(ins), "op?"); I.block = B; v = imap[ins]; v.x = I
            I.ty = v.ty; I.name = v.name; I.attr = {}; I.line = L.LLVMGetDebugLocLine(ins) if L.LLVMInstructionGetDebugLoc(ins) else 0
            n = L.LLVMGetNumOperands(ins)
            op = I.op
            if op == "phi":
                I.ops = [(self.val(L.LLVMGetIncomingValue(ins, j), imap), bmap[L.LLVMGetIncomingBlock(ins, j)]) for j in range(L.LLVMCountIncoming(ins))]
            elif op in ("br", "switch"):
                I.ops = []
                if op == "br":
                    if L.LLVMIsConditional(ins): I.ops = [self.val(L.LLVMGetCondition(ins), imap)]
                    I.attr["succ"] = [bmap[L.LLVMGetSuccessor(ins, j)] for j in range(L.LLVMGetNumSuccessors(ins))]
                else:
                    I.ops = [self.val(L.LLVMGetOperand(ins, 0), imap)]
                    I.attr["succ"] = [bmap[L.LLVMGetSuccessor(ins, j)] for j in range(L.LLVMGetNumSuccessors(ins))]
                    I.attr["cases"] = [self.val(L.LLVMGetOperand(ins, 2 + 2 * j), imap) for j in range((n - 2) // 2)]
                B.succs = list(I.attr["succ"])
            elif op in ("call", "invoke"):
                na = L.LLVMGetNumArgOperands(ins)
                cv = L.LLVMGetCalledValue(ins)
                I.attr["callee"] = self.val(cv, imap)
                if I.attr["callee"].kind == "func" and I.attr["callee"].name.startswith("llvm.dbg."):
                    continue
                I.ops = [self.val(L.LLVMGetOperand(ins, j), imap) for j in range(na)]
                if op == "invoke":
                    nd = bmap[L.LLVMGetNormalDest(ins)]; ud = bmap[L.LLVMGetUnwindDest(ins)]
                    I.attr["succ"] = [nd]; I.attr["unwind"] = ud; B.succs = [nd]
            elif op == "ret" or op == "unreachable" or op == "resume":
                I.ops = [self.val(L.LLVMGetOperand(ins, j), imap) for j in range(n)]
            else:
                I.ops = [self.val(L.LLVMGetOperand(ins, j), imap) for j in range(n)]
            if op == "icmp": I.attr["pred"] = ICMP[L.LLVMGetICmpPredicate(ins)]
            elif op == "fcmp": I.attr["pred"] = FCMP[L.LLVMGetFCmpPredicate(ins)]
            elif op == "alloca": I.attr["ty"] = self.ty(L.LLVMGetAllocatedType(ins))
            elif op == "gep": I.attr["ty"] = self.ty(L.LLVMGetGEPSourceElementType(ins))
            elif op in ("extractvalue", "insertvalue"):
                ni = L.LLVMGetNumIndices(ins); p = L.LLVMGetIndices(ins); I.attr["idx"] = [p[j] for j in range(ni)]
            elif op in ("add", "sub", "mul", "shl"):
                I.attr["nsw"] = bool(L.LLVMGetNSW(ins)); I.attr["nuw"] = bool(L.LLVMGetNUW(ins))
            elif op in ("udiv", "sdiv", "lshr", "ashr"):
                I.attr["exact"] = bool(L.LLVMGetExact(ins))
            B.insts.append((v, I))
        for B in F.blocks:
            for s in B.succs:
                if B not in s.preds: s.preds.append(B)
        self.funcs[name] = F
        return F

_dm = {}
def demangle(names):
    todo = [n for n in names if n not in _dm]
    if todo:
        out = subprocess.run(["c++filt"], input="\n".join(todo) + "\n", capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(todo, out): _dm[n] = d
    return {n: _dm[n] for n in names}
