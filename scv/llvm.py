"""Loads LLVM bitcode through the LLVM-C API (ctypes) into plain Python objects.

Nothing here interprets the program: it is a faithful transcription of the IR that clang
produced from /repo's sources into Python data."""
import ctypes, subprocess, os
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_size_t, c_ulonglong, c_longlong, POINTER, byref

_L = ctypes.CDLL("/usr/lib/llvm-18/lib/libLLVM.so")

def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

V = c_void_p
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(V), POINTER(c_char_p))
ContextCreate = _f("LLVMContextCreate", V)
ParseBitcode = _f("LLVMParseBitcodeInContext2", c_int, V, V, POINTER(V))
GetFirstFunction = _f("LLVMGetFirstFunction", V, V)
GetNextFunction = _f("LLVMGetNextFunction", V, V)
GetFirstGlobal = _f("LLVMGetFirstGlobal", V, V)
GetNextGlobal = _f("LLVMGetNextGlobal", V, V)
GetFirstAlias = _f("LLVMGetFirstGlobalAlias", V, V)
GetNextAlias = _f("LLVMGetNextGlobalAlias", V, V)
AliasGetAliasee = _f("LLVMAliasGetAliasee", V, V)
GetValueName2 = _f("LLVMGetValueName2", c_char_p, V, POINTER(c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", c_int, V)
CountBasicBlocks = _f("LLVMCountBasicBlocks", c_uint, V)
GetFirstBasicBlock = _f("LLVMGetFirstBasicBlock", V, V)
GetNextBasicBlock = _f("LLVMGetNextBasicBlock", V, V)
GetFirstInstruction = _f("LLVMGetFirstInstruction", V, V)
GetNextInstruction = _f("LLVMGetNextInstruction", V, V)
GetInstructionOpcode = _f("LLVMGetInstructionOpcode", c_uint, V)
GetNumOperands = _f("LLVMGetNumOperands", c_int, V)
GetOperand = _f("LLVMGetOperand", V, V, c_uint)
TypeOf = _f("LLVMTypeOf", V, V)
GetTypeKind = _f("LLVMGetTypeKind", c_uint, V)
GetIntTypeWidth = _f("LLVMGetIntTypeWidth", c_uint, V)
GetValueKind = _f("LLVMGetValueKind", c_uint, V)
ConstIntGetZExt = _f("LLVMConstIntGetZExtValue", c_ulonglong, V)
GetICmpPredicate = _f("LLVMGetICmpPredicate", c_uint, V)
GetFCmpPredicate = _f("LLVMGetFCmpPredicate", c_uint, V)
GetGEPSourceElementType = _f("LLVMGetGEPSourceElementType", V, V)
GetAllocatedType = _f("LLVMGetAllocatedType", V, V)
GetCalledValue = _f("LLVMGetCalledValue", V, V)
GetNumArgOperands = _f("LLVMGetNumArgOperands", c_uint, V)
GetNormalDest = _f("LLVMGetNormalDest", V, V)
GetUnwindDest = _f("LLVMGetUnwindDest", V, V)
GetNumClauses = _f("LLVMGetNumClauses", c_uint, V)
GetClause = _f("LLVMGetClause", V, V, c_uint)
IsCleanup = _f("LLVMIsCleanup", c_int, V)
CountIncoming = _f("LLVMCountIncoming", c_uint, V)
GetIncomingValue = _f("LLVMGetIncomingValue", V, V, c_uint)
GetIncomingBlock = _f("LLVMGetIncomingBlock", V, V, c_uint)
GetNumIndices = _f("LLVMGetNumIndices", c_uint, V)
GetIndices = _f("LLVMGetIndices", POINTER(c_uint), V)
GetNumSuccessors = _f("LLVMGetNumSuccessors", c_uint, V)
GetSuccessor = _f("LLVMGetSuccessor", V, V, c_uint)
GetConstOpcode = _f("LLVMGetConstOpcode", c_uint, V)
GetOrdering = _f("LLVMGetOrdering", c_uint, V)
GetDebugLocLine = _f("LLVMGetDebugLocLine", c_uint, V)
GetDebugLocFilename = _f("LLVMGetDebugLocFilename", c_char_p, V, POINTER(c_uint))
CountParams = _f("LLVMCountParams", c_uint, V)
GetParam = _f("LLVMGetParam", V, V, c_uint)
GetInitializer = _f("LLVMGetInitializer", V, V)
IsGlobalConstant = _f("LLVMIsGlobalConstant", c_int, V)
IsThreadLocal = _f("LLVMIsThreadLocal", c_int, V)
GlobalGetValueType = _f("LLVMGlobalGetValueType", V, V)
GetReturnType = _f("LLVMGetReturnType", V, V)
GetStructName = _f("LLVMGetStructName", c_char_p, V)
CountStructElements = _f("LLVMCountStructElementTypes", c_uint, V)
StructGetTypeAt = _f("LLVMStructGetTypeAtIndex", V, V, c_uint)
GetElementType = _f("LLVMGetElementType", V, V)
GetArrayLength2 = _f("LLVMGetArrayLength2", c_ulonglong, V)
GetModuleDataLayout = _f("LLVMGetModuleDataLayout", V, V)
ABISizeOfType = _f("LLVMABISizeOfType", c_ulonglong, V, V)
StoreSizeOfType = _f("LLVMStoreSizeOfType", c_ulonglong, V, V)
OffsetOfElement = _f("LLVMOffsetOfElement", c_ulonglong, V, V, c_uint)
GetAsString = _f("LLVMGetAsString", c_void_p, V, POINTER(c_size_t))
IsConstantString = _f("LLVMIsConstantString", c_int, V)
GetAggregateElement = _f("LLVMGetAggregateElement", V, V, c_uint)
BasicBlockAsValue = _f("LLVMBasicBlockAsValue", V, V)
GetBasicBlockName = _f("LLVMGetBasicBlockName", c_char_p, V)
PrintValue = _f("LLVMPrintValueToString", c_void_p, V)
PrintType = _f("LLVMPrintTypeToString", c_void_p, V)
DisposeMessage = _f("LLVMDisposeMessage", None, c_void_p)
GetMDString = _f("LLVMGetMDString", c_char_p, V, POINTER(c_uint))
GetNumAttrs = _f("LLVMGetAttributeCountAtIndex", c_uint, V, c_uint)
GetEnumAttr = _f("LLVMGetEnumAttributeAtIndex", V, V, c_uint, c_uint)
AttrKind = _f("LLVMGetEnumAttributeKindForName", c_uint, c_char_p, c_size_t)
GetCallSiteEnumAttr = _f("LLVMGetCallSiteEnumAttribute", V, V, c_uint, c_uint)
ConstRealGetDouble = _f("LLVMConstRealGetDouble", ctypes.c_double, V, POINTER(c_int))
GetNSW = _f("LLVMGetNSW", c_int, V)
HasUnnamed = None
GetFnEnumAttr = _f("LLVMGetEnumAttributeAtIndex", V, V, c_uint, c_uint)
GetTypeAttrValue = _f("LLVMGetTypeAttributeValue", V, V)
GetAtomicRMWBinOp = _f("LLVMGetAtomicRMWBinOp", c_uint, V)
GetCmpXchgSuccess = _f("LLVMGetCmpXchgSuccessOrdering", c_uint, V)
GetCmpXchgFail = _f("LLVMGetCmpXchgFailureOrdering", c_uint, V)

def GetCallSiteTypeAttr(i):
    return GetCallSiteEnumAttr(i, 1, SRET)


NOUNWIND = AttrKind(b"nounwind", 8)
SRET = AttrKind(b"sret", 4)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'vaarg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume',
       59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
ORD = {0: 'na', 1: 'unordered', 2: 'monotonic', 4: 'acquire', 5: 'release', 6: 'acq_rel', 7: 'seq_cst'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor'}


class Ty:
    """k: int/ptr/void/struct/array/float/label/metadata/other"""
    __slots__ = ("k", "bits", "size", "name", "elems", "offs", "elem", "n")

    def __init__(self, k):
        self.k = k
        self.bits = self.size = self.n = 0
        self.name = None
        self.elems = self.offs = None
        self.elem = None

    def __repr__(self):
        if self.k == 'int':
            return "i%d" % self.bits
        if self.k == 'struct':
            return self.name or "{%s}" % ",".join(map(repr, self.elems or []))
        if self.k == 'array':
            return "[%d x %r]" % (self.n, self.elem)
        return self.k


class Instr:
    __slots__ = ("op", "ty", "ops", "id", "name", "x", "line", "file", "nounwind")

    def __repr__(self):
        return "%%%s = %s %s %s @%d" % (self.name or self.id, self.op, self.ops, self.x, self.line)


class Block:
    __slots__ = ("name", "idx", "instrs", "succs", "fn")


class Func:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(IsDeclaration(ref))
        self._blocks = None
        self.args = None

    @property
    def demangled(self):
        return self.mod.demangle(self.name)

    @property
    def blocks(self):
        if self._blocks is None:
            self.mod.decode(self)
        return self._blocks

    @property
    def sret(self):
        """name of the class returned through memory"""
        a = GetFnEnumAttr(self.ref, 1, SRET)
        return self.mod.type(GetTypeAttrValue(a)).name if a else None

    def __repr__(self):
        return "<fn %s>" % self.demangled


class GlobalVar:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.ty = mod.type(GlobalGetValueType(ref))
        self.const = bool(IsGlobalConstant(ref))
        self.tls = bool(IsThreadLocal(ref))
        self.decl = bool(IsDeclaration(ref))

    def initializer(self):
        i = GetInitializer(self.ref)
        return self.mod.const(i) if i else None


_demangle_cache = {}


def demangle_many(names):
    todo = [n for n in names if n not in _demangle_cache]
    if todo:
        out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(todo), capture_output=True,
                             text=True).stdout.split("\n")
        for a, b in zip(todo, out):
            _demangle_cache[a] = b


def demangle(n):
    if n not in _demangle_cache:
        demangle_many([n])
    return _demangle_cache[n]


class Module:
    def __init__(self, path):
        self.path = path
        buf, msg = V(), c_char_p()
        if CreateMemBuf(path.encode(), byref(buf), byref(msg)):
            raise RuntimeError("cannot read %s: %s" % (path, msg.value))
        self.ctx = ContextCreate()
        m = V()
        if ParseBitcode(self.ctx, buf, byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.dl = GetModuleDataLayout(m)
        self.types = {}
        self.funcs, self.globals, self.aliases = {}, {}, {}
        f = GetFirstFunction(m)
        while f:
            n = self.vname(f)
            self.funcs[n] = Func(self, f, n)
            f = GetNextFunction(f)
        g = GetFirstGlobal(m)
        while g:
            n = self.vname(g)
            self.globals[n] = GlobalVar(self, g, n)
            g = GetNextGlobal(g)
        a = GetFirstAlias(m)
        while a:
            n = self.vname(a)
            self.aliases[n] = self.vname(AliasGetAliasee(a))
            a = GetNextAlias(a)
        demangle_many(list(self.funcs) + list(self.globals))

    def demangle(self, n):
        return demangle(n)

    def vname(self, v):
        sz = c_size_t()
        s = GetValueName2(v, byref(sz))
        return s.decode(errors="replace") if s else ""

    def type(self, t):
        if t in self.types:
            return self.types[t]
        k = GetTypeKind(t)
        if k == 0:
            ty = Ty('void')
        elif k in (2, 3):
            ty = Ty('float'); ty.bits = 32 if k == 2 else 64; ty.size = ty.bits // 8
        elif k in (4, 5, 6):
            ty = Ty('float'); ty.bits = 80; ty.size = 16
        elif k == 7:
            ty = Ty('label')
        elif k == 8:
            ty = Ty('int'); ty.bits = GetIntTypeWidth(t); ty.size = StoreSizeOfType(self.dl, t)
        elif k == 9:
            ty = Ty('func')
        elif k == 10:
            ty = Ty('struct')
            self.types[t] = ty
            n = GetStructName(t)
            ty.name = n.decode() if n else None
            cnt = CountStructElements(t)
            ty.elems = [self.type(StructGetTypeAt(t, i)) for i in range(cnt)]
            try:
                ty.size = ABISizeOfType(self.dl, t) if cnt else 1
                ty.offs = [OffsetOfElement(self.dl, t, i) for i in range(cnt)]
            except Exception:
                pass
        elif k == 11:
            ty = Ty('array'); ty.n = GetArrayLength2(t); ty.elem = self.type(GetElementType(t))
            ty.size = ABISizeOfType(self.dl, t)
        elif k == 12:
            ty = Ty('ptr'); ty.size = 8
        elif k == 14:
            ty = Ty('metadata')
        elif k == 16:
            ty = Ty('token')
        else:
            ty = Ty('other%d' % k)
        self.types[t] = ty
        return ty

    def const(self, v):
        """Constant -> tuple."""
        k = GetValueKind(v)
        ty = self.type(TypeOf(v))
        # value kinds: 0 Arg,1 BB,4 Function? use enum order of LLVM-C
        name = VK.get(k, k)
        if name == 'ConstantInt':
            return ('int', ConstIntGetZExt(v) if ty.bits <= 64 else None, ty)
        if name == 'ConstantPointerNull':
            return ('null',)
        if name in ('Undef', 'Poison'):
            return ('undef', ty)
        if name == 'ConstantAggregateZero':
            return ('zero', ty)
        if name == 'Function':
            return ('func', self.vname(v))
        if name == 'GlobalVariable':
            return ('global', self.vname(v))
        if name == 'GlobalAlias':
            return ('func', self.vname(v))
        if name == 'ConstantFP':
            b = c_int()
            return ('fp', ConstRealGetDouble(v, byref(b)), ty)
        if name == 'ConstantExpr':
            op = OPC.get(GetConstOpcode(v))
            ops = [self.const(GetOperand(v, i)) for i in range(GetNumOperands(v))]
            src = self.type(GetGEPSourceElementType(v)) if op == 'gep' else None
            return ('cexpr', op, ops, src, ty)
        if name in ('ConstantDataArray', 'ConstantArray', 'ConstantStruct', 'ConstantVector', 'ConstantDataVector'):
            if name == 'ConstantDataArray' and IsConstantString(v):
                sz = c_size_t()
                p = GetAsString(v, byref(sz))
                return ('bytes', ctypes.string_at(p, sz.value), ty)
            n = ty.n if ty.k == 'array' else len(ty.elems or [])
            return ('agg', [self.const(GetAggregateElement(v, i)) for i in range(n)], ty)
        if name == 'MetadataAsValue':
            ln = c_uint()
            s = GetMDString(v, byref(ln))
            return ('md', s.decode(errors="replace")[:ln.value] if s else None)
        if name == 'InlineAsm':
            return ('asm',)
        return ('unk', name, ty)

    def decode(self, f):
        ref = f.ref
        f.args = []
        vals = {}
        for i in range(CountParams(ref)):
            a = GetParam(ref, i)
            vals[a] = ('arg', i)
            f.args.append((self.vname(a), self.type(TypeOf(a))))
        blocks, bmap = [], {}
        b = GetFirstBasicBlock(ref)
        while b:
            bl = Block()
            bl.name = (GetBasicBlockName(b) or b"").decode()
            bl.idx = len(blocks)
            bl.instrs = []
            bl.succs = []
            bl.fn = f
            bmap[b] = bl
            blocks.append((b, bl))
            b = GetNextBasicBlock(b)
        # number instrs
        insts = []
        n = 0
        for b, bl in blocks:
            i = GetFirstInstruction(b)
            while i:
                vals[i] = ('inst', n)
                insts.append((i, bl, n))
                n += 1
                i = GetNextInstruction(i)

        def val(v):
            if v in vals:
                return vals[v]
            k = VK.get(GetValueKind(v), None)
            if k == 'BasicBlock':
                return ('bb', None)
            return self.const(v)

        for i, bl, num in insts:
            ins = Instr()
            op = OPC.get(GetInstructionOpcode(i), 'op%d' % GetInstructionOpcode(i))
            ins.op = op
            ins.ty = self.type(TypeOf(i))
            ins.id = num
            ins.name = self.vname(i) if ins.ty.k != 'void' else ''
            ins.line = GetDebugLocLine(i)
            ins.file = None
            ins.x = None
            ins.nounwind = False
            ins.ops = []
            if op in ('call', 'invoke'):
                cv = GetCalledValue(i)
                na = GetNumArgOperands(i)
                callee = val(cv)
                ins.ops = [val(GetOperand(i, j)) for j in range(na)]
                argtys = [self.type(TypeOf(GetOperand(i, j))) for j in range(na)]
                ins.x = dict(callee=callee, argtys=argtys, sret=na > 0 and bool(GetCallSiteTypeAttr(i)))
                ins.nounwind = bool(GetCallSiteEnumAttr(i, 0xffffffff, NOUNWIND))
                if op == 'invoke':
                    ins.x['normal'] = bmap[GetNormalDest(i)]
                    ins.x['unwind'] = bmap[GetUnwindDest(i)]
                    bl.succs = [ins.x['normal'], ins.x['unwind']]
            elif op in ('br', 'switch'):
                ns = GetNumSuccessors(i)
                ins.x = dict(succs=[bmap[GetSuccessor(i, j)] for j in range(ns)])
                bl.succs = ins.x['succs']
                if op == 'br' and ns == 2:
                    ins.ops = [val(GetOperand(i, 0))]
                elif op == 'switch':
                    # operands: cond, default, (val, bb)*
                    no = GetNumOperands(i)
                    ins.ops = [val(GetOperand(i, 0))]
                    ins.x['vals'] = [val(GetOperand(i, j)) for j in range(2, no, 2)]
            elif op == 'phi':
                ins.x = [(bmap_val(bmap, GetIncomingBlock(i, j)), val(GetIncomingValue(i, j))) for j in range(CountIncoming(i))]
            else:
                ins.ops = [val(GetOperand(i, j)) for j in range(GetNumOperands(i))]
                if op == 'alloca':
                    ins.x = self.type(GetAllocatedType(i))
                elif op == 'gep':
                    ins.x = self.type(GetGEPSourceElementType(i))
                elif op == 'icmp':
                    ins.x = (ICMP[GetICmpPredicate(i)], self.type(TypeOf(GetOperand(i, 0))))
                elif op == 'fcmp':
                    ins.x = (FCMP[GetFCmpPredicate(i)], self.type(TypeOf(GetOperand(i, 0))))
                elif op in ('load', 'store'):
                    ins.x = (ORD.get(GetOrdering(i), 'na'),
                             self.type(TypeOf(GetOperand(i, 0))) if op == 'store' else ins.ty)
                elif op == 'atomicrmw':
                    ins.x = (RMW.get(GetAtomicRMWBinOp(i), '?'), ORD.get(GetOrdering(i)), self.type(TypeOf(GetOperand(i, 1))))
                elif op == 'cmpxchg':
                    ins.x = (ORD.get(GetCmpXchgSuccess(i)), ORD.get(GetCmpXchgFail(i)), self.type(TypeOf(GetOperand(i, 1))))
                elif op == 'fence':
                    ins.x = ORD.get(GetOrdering(i))
                elif op in ('extractvalue', 'insertvalue'):
                    p = GetIndices(i)
                    ins.x = [p[j] for j in range(GetNumIndices(i))]
                elif op == 'landingpad':
                    ins.x = dict(cleanup=bool(IsCleanup(i)),
                                 clauses=[self.const(GetClause(i, j)) for j in range(GetNumClauses(i))])
                    ins.ops = []
                elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
                    ins.x = self.type(TypeOf(GetOperand(i, 0)))
                elif op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'lshr', 'ashr'):
                    ins.x = None
            bl.instrs.append(ins)
        f._blocks = [bl for _, bl in blocks]
        f.ninstr = n


def bmap_val(bmap, b):
    return bmap[b]


VK = {}
# LLVMValueKind enum order (llvm-c/Core.h, LLVM 18)
for _i, _n in enumerate(['Argument', 'BasicBlock', 'MemoryUse', 'MemoryDef', 'MemoryPhi', 'Function', 'GlobalAlias',
                         'GlobalIFunc', 'GlobalVariable', 'BlockAddress', 'ConstantExpr', 'ConstantArray',
                         'ConstantStruct', 'ConstantVector', 'Undef', 'ConstantAggregateZero', 'ConstantDataArray',
                         'ConstantDataVector', 'ConstantInt', 'ConstantFP', 'ConstantPointerNull', 'ConstantTokenNone',
                         'MetadataAsValue', 'InlineAsm', 'Instruction', 'Poison', 'ConstantTargetNone']):
    VK[_i] = _n
