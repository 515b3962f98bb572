"""Thin ctypes binding of the LLVM-C API (libLLVM 18): just what the IR translator needs."""
import ctypes as C

L = C.CDLL("libLLVM-18.so.1" if False else "/usr/lib/llvm-18/lib/libLLVM-18.so")
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = args
    return f


ContextCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
GetModuleDataLayout = _f("LLVMGetModuleDataLayout", P, P)
FirstFunction = _f("LLVMGetFirstFunction", P, P)
NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
_GetValueName2 = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
GetLinkage = _f("LLVMGetLinkage", C.c_int, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
NumOperands = _f("LLVMGetNumOperands", C.c_int, P)
GetOperand = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
ElemType = _f("LLVMGetElementType", P, P)
VecSize = _f("LLVMGetVectorSize", C.c_uint, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
NumStruct = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
SizeOf = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
SExt = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
RealDouble = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
AllocatedType = _f("LLVMGetAllocatedType", P, P)
GEPType = _f("LLVMGetGEPSourceElementType", P, P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
GetSucc = _f("LLVMGetSuccessor", P, P, C.c_uint)
IsConditional = _f("LLVMIsConditional", C.c_int, P)
GetCondition = _f("LLVMGetCondition", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
NumIndices = _f("LLVMGetNumIndices", C.c_uint, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
NumMask = _f("LLVMGetNumMaskElements", C.c_uint, P)
MaskValue = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
GetInit = _f("LLVMGetInitializer", P, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
AggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
IsConstString = _f("LLVMIsConstantString", C.c_int, P)
_GetAsString = _f("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
IsNull = _f("LLVMIsNull", C.c_int, P)
KindForName = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
AttrAt = _f("LLVMGetEnumAttributeAtIndex", P, P, C.c_uint, C.c_uint)
TypeAttrVal = _f("LLVMGetTypeAttributeValue", P, P)
CallAttrAt = _f("LLVMGetCallSiteEnumAttribute", P, P, C.c_uint, C.c_uint)
DebugLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
GetNSW = _f("LLVMGetNSW", C.c_int, P)
_PrintValue = _f("LLVMPrintValueToString", C.c_void_p, P)
_PrintType = _f("LLVMPrintTypeToString", C.c_void_p, P)
AliaseeOf = _f("LLVMAliasGetAliasee", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
GetOrdering = _f("LLVMGetOrdering", C.c_int, P)
IsVarArg = _f("LLVMIsFunctionVarArg", C.c_int, P)
IsVolatile = _f("LLVMGetVolatile", C.c_int, P)
BYVAL = KindForName(b"byval", 5)


def name(v):
    n = C.c_size_t()
    p = _GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode()


def as_string(v):
    n = C.c_size_t()
    p = _GetAsString(v, C.byref(n))
    return C.string_at(p, n.value)


def show(v):
    return C.string_at(_PrintValue(v)).decode()


def show_type(t):
    return C.string_at(_PrintType(t)).decode()


_ctx = ContextCreate()


def load(path):
    buf, err, mod = P(), C.c_char_p(), P()
    if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
        raise OSError(err.value)
    if ParseBC(_ctx, buf, C.byref(mod)):
        raise OSError("cannot parse " + path)
    return mod.value


# opcodes
OP = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
      11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
      20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
      29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
      37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
      45: "call", 46: "select", 47: "userop1", 48: "userop2", 49: "vaarg", 50: "extractelement", 51: "insertelement",
      52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
      60: "addrspacecast", 66: "fneg", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq", 10: "ugt",
        11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# type kinds (LLVM 18)
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 7: "label", 8: "int", 9: "function", 10: "struct",
      11: "array", 12: "ptr", 13: "vector", 14: "metadata"}
