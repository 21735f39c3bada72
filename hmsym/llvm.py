"""Minimal LLVM-C (libLLVM-18) bindings: load textual/bitcode IR into plain Python objects."""
import ctypes as ct
import re

L = None


def _lib():
    global L
    if L is not None:
        return L
    for n in ("libLLVM-18.so.1", "libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1"):
        try:
            L = ct.CDLL(n)
            break
        except OSError:
            continue
    if L is None:
        raise Exception("libLLVM-18 not found")
    P = ct.c_void_p
    U = ct.c_uint

    def f(name, res, *args):
        fn = getattr(L, name)
        fn.restype = res
        fn.argtypes = list(args)
    f("LLVMContextCreate", P)
    f("LLVMCreateMemoryBufferWithContentsOfFile", ct.c_int, ct.c_char_p, ct.POINTER(P), ct.POINTER(ct.c_char_p))
    f("LLVMParseIRInContext", ct.c_int, P, P, ct.POINTER(P), ct.POINTER(ct.c_char_p))
    f("LLVMGetDataLayoutStr", ct.c_char_p, P)
    f("LLVMCreateTargetData", P, ct.c_char_p)
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGetFirstBasicBlock",
              "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetInitializer",
              "LLVMGetCalledValue", "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType", "LLVMGetElementType",
              "LLVMGlobalGetValueType", "LLVMGetReturnType", "LLVMGetFirstAlias", "LLVMGetNextAlias", "LLVMGetFirstGlobalAlias",
              "LLVMGetNextGlobalAlias", "LLVMAliasGetAliasee", "LLVMIsAInlineAsm", "LLVMIsAFunction", "LLVMIsAGlobalVariable",
              "LLVMIsAGlobalAlias", "LLVMIsAConstantInt", "LLVMIsAConstantExpr", "LLVMIsAUndefValue", "LLVMIsAPoisonValue", "LLVMIsAConstantPointerNull",
              "LLVMIsAConstantAggregateZero", "LLVMIsAConstantDataSequential", "LLVMIsAConstantArray", "LLVMIsAConstantStruct", "LLVMIsAConstantVector",
              "LLVMIsAConstant", "LLVMIsAInstruction", "LLVMIsAArgument", "LLVMValueAsBasicBlock", "LLVMGetNormalDest", "LLVMGetUnwindDest",
              "LLVMGetInstructionParent", "LLVMGetCalledFunctionType", "LLVMGetBasicBlockParent", "LLVMIsConstant", "LLVMGetSwitchDefaultDest", "LLVMIsABasicBlock"):
        if hasattr(L, n):
            f(n, P, P)
    f("LLVMIsDeclaration", ct.c_int, P)
    f("LLVMIsGlobalConstant", ct.c_int, P)
    f("LLVMIsThreadLocal", ct.c_int, P)
    f("LLVMGetAlignment", U, P)
    f("LLVMGetValueName2", ct.c_char_p, P, ct.POINTER(ct.c_size_t))
    f("LLVMGetInstructionOpcode", ct.c_int, P)
    f("LLVMGetConstOpcode", ct.c_int, P)
    f("LLVMGetNumOperands", ct.c_int, P)
    f("LLVMGetOperand", P, P, U)
    f("LLVMGetTypeKind", ct.c_int, P)
    f("LLVMGetIntTypeWidth", U, P)
    f("LLVMGetArrayLength", U, P)
    f("LLVMGetVectorSize", U, P)
    f("LLVMCountStructElementTypes", U, P)
    f("LLVMStructGetTypeAtIndex", P, P, U)
    f("LLVMABISizeOfType", ct.c_ulonglong, P, P)
    f("LLVMABIAlignmentOfType", U, P, P)
    f("LLVMStoreSizeOfType", ct.c_ulonglong, P, P)
    f("LLVMOffsetOfElement", ct.c_ulonglong, P, P, U)
    f("LLVMGetICmpPredicate", ct.c_int, P)
    f("LLVMCountIncoming", U, P)
    f("LLVMGetIncomingValue", P, P, U)
    f("LLVMGetIncomingBlock", P, P, U)
    f("LLVMGetNumArgOperands", U, P)
    f("LLVMGetNumIndices", U, P)
    f("LLVMGetIndices", ct.POINTER(U), P)
    f("LLVMConstIntGetZExtValue", ct.c_ulonglong, P)
    f("LLVMPrintValueToString", ct.c_void_p, P)
    f("LLVMPrintTypeToString", ct.c_void_p, P)
    f("LLVMDisposeMessage", None, ct.c_void_p)
    f("LLVMGetElementAsConstant", P, P, U)
    f("LLVMGetAsString", ct.c_void_p, P, ct.POINTER(ct.c_size_t))
    f("LLVMIsConstantString", ct.c_int, P)
    f("LLVMGetAtomicRMWBinOp", ct.c_int, P)
    f("LLVMCountParams", U, P)
    f("LLVMGetParam", P, P, U)
    f("LLVMGetInlineAsmAsmString", ct.c_void_p, P, ct.POINTER(ct.c_size_t))
    f("LLVMGetInlineAsmConstraintString", ct.c_void_p, P, ct.POINTER(ct.c_size_t))
    f("LLVMGetNumSuccessors", U, P)
    f("LLVMGetOrdering", U, P)
    f("LLVMGetSuccessor", P, P, U)
    f("LLVMIsFunctionVarArg", ct.c_int, P)
    f("LLVMGetNumClauses", U, P)
    f("LLVMGetClause", P, P, U)
    f("LLVMIsCleanup", ct.c_int, P)
    f("LLVMGetSection", ct.c_char_p, P)
    f("LLVMBasicBlockAsValue", P, P)
    f("LLVMGetLinkage", ct.c_int, P)
    return L


def pstr(p):
    s = ct.string_at(p).decode("utf8", "replace")
    L.LLVMDisposeMessage(p)
    return s


def vname(v):
    n = ct.c_size_t()
    return ct.string_at(L.LLVMGetValueName2(v, ct.byref(n)), n.value).decode()


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 12: "mul",
       14: "udiv", 15: "sdiv", 17: "urem", 18: "srem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad", 60: "addrspacecast", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax", 10: "umin"}


class T:
    """type: kind in int ptr struct array void other"""
    __slots__ = ("kind", "w", "size", "align", "elems", "n", "offs", "s", "store")


class Module:
    def __init__(self, path):
        _lib()
        self.ctx = L.LLVMContextCreate()
        buf = ct.c_void_p()
        msg = ct.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), ct.byref(buf), ct.byref(msg)):
            raise Exception("read %s: %s" % (path, msg.value))
        m = ct.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, ct.byref(m), ct.byref(msg)):
            raise Exception("parse %s: %s" % (path, msg.value))
        self.m = m
        self.td = L.LLVMCreateTargetData(L.LLVMGetDataLayoutStr(m))
        self.types = {}

    def type(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = T()
        self.types[t] = r
        k = L.LLVMGetTypeKind(t)
        r.elems = None
        r.n = 0
        r.offs = None
        r.s = None
        r.w = 0
        r.size = r.align = r.store = 0
        if k == 0:
            r.kind = "void"
        elif k == 8:
            r.kind = "int"
            r.w = L.LLVMGetIntTypeWidth(t)
        elif k == 12:
            r.kind = "ptr"
            r.w = 64
        elif k == 10:
            r.kind = "struct"
            n = L.LLVMCountStructElementTypes(t)
            r.elems = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
            r.n = n
        elif k == 11:
            r.kind = "array"
            r.n = L.LLVMGetArrayLength(t)
            r.elems = [self.type(L.LLVMGetElementType(t))]
        elif k == 13:
            r.kind = "vector"
            r.n = L.LLVMGetVectorSize(t)
            r.elems = [self.type(L.LLVMGetElementType(t))]
            r.w = r.n * r.elems[0].w
        else:
            r.kind = "other%d" % k
            r.s = pstr(L.LLVMPrintTypeToString(t))
        if r.kind in ("int", "ptr", "struct", "array", "vector"):
            r.size = L.LLVMABISizeOfType(self.td, t)
            r.store = L.LLVMStoreSizeOfType(self.td, t)
            r.align = L.LLVMABIAlignmentOfType(self.td, t)
        return r

    def tyof(self, v):
        return self.type(L.LLVMTypeOf(v))

    def functions(self):
        f = L.LLVMGetFirstFunction(self.m)
        while f:
            yield f
            f = L.LLVMGetNextFunction(f)

    def globals(self):
        g = L.LLVMGetFirstGlobal(self.m)
        while g:
            yield g
            g = L.LLVMGetNextGlobal(g)

    def aliases(self):
        g = L.LLVMGetFirstGlobalAlias(self.m)
        while g:
            yield g
            g = L.LLVMGetNextGlobalAlias(g)

    def blocks(self, f):
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            yield b
            b = L.LLVMGetNextBasicBlock(b)

    def instrs(self, b):
        i = L.LLVMGetFirstInstruction(b)
        while i:
            yield i
            i = L.LLVMGetNextInstruction(i)

    def ops(self, v):
        return [L.LLVMGetOperand(v, i) for i in range(L.LLVMGetNumOperands(v))]

    def constint(self, v):
        t = self.tyof(v)
        if t.w <= 64:
            return L.LLVMConstIntGetZExtValue(v) & ((1 << t.w) - 1)
        s = pstr(L.LLVMPrintValueToString(v))
        return int(s.split()[-1]) & ((1 << t.w) - 1)
