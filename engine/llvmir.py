"""LLVM IR reader (LLVM-C API through ctypes): the verified text is the IR that
clang generates from /repo's current source."""
import ctypes as C

_lib = C.CDLL("libLLVM-18.so")
_VP = C.c_void_p


def _f(name, res, *args):
    f = getattr(_lib, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ctx_create = _f("LLVMContextCreate", _VP)
membuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(_VP), C.POINTER(C.c_char_p))
parse_ir = _f("LLVMParseIRInContext", C.c_int, _VP, _VP, C.POINTER(_VP), C.POINTER(C.c_char_p))
first_fn = _f("LLVMGetFirstFunction", _VP, _VP)
next_fn = _f("LLVMGetNextFunction", _VP, _VP)
first_gv = _f("LLVMGetFirstGlobal", _VP, _VP)
next_gv = _f("LLVMGetNextGlobal", _VP, _VP)
gv_init = _f("LLVMGetInitializer", _VP, _VP)
gv_const = _f("LLVMIsGlobalConstant", C.c_int, _VP)
gv_type = _f("LLVMGlobalGetValueType", _VP, _VP)
val_name = _f("LLVMGetValueName2", C.c_char_p, _VP, C.POINTER(C.c_size_t))
is_decl = _f("LLVMIsDeclaration", C.c_int, _VP)
first_bb = _f("LLVMGetFirstBasicBlock", _VP, _VP)
next_bb = _f("LLVMGetNextBasicBlock", _VP, _VP)
first_in = _f("LLVMGetFirstInstruction", _VP, _VP)
next_in = _f("LLVMGetNextInstruction", _VP, _VP)
opcode = _f("LLVMGetInstructionOpcode", C.c_int, _VP)
num_ops = _f("LLVMGetNumOperands", C.c_int, _VP)
get_op = _f("LLVMGetOperand", _VP, _VP, C.c_uint)
type_of = _f("LLVMTypeOf", _VP, _VP)
type_kind = _f("LLVMGetTypeKind", C.c_int, _VP)
int_width = _f("LLVMGetIntTypeWidth", C.c_uint, _VP)
icmp_pred = _f("LLVMGetICmpPredicate", C.c_int, _VP)
fcmp_pred = _f("LLVMGetFCmpPredicate", C.c_int, _VP)
count_params = _f("LLVMCountParams", C.c_uint, _VP)
get_param = _f("LLVMGetParam", _VP, _VP, C.c_uint)
n_incoming = _f("LLVMCountIncoming", C.c_uint, _VP)
inc_val = _f("LLVMGetIncomingValue", _VP, _VP, C.c_uint)
inc_bb = _f("LLVMGetIncomingBlock", _VP, _VP, C.c_uint)
n_succ = _f("LLVMGetNumSuccessors", C.c_uint, _VP)
get_succ = _f("LLVMGetSuccessor", _VP, _VP, C.c_uint)
val_kind = _f("LLVMGetValueKind", C.c_int, _VP)
const_sext = _f("LLVMConstIntGetSExtValue", C.c_longlong, _VP)
const_dbl = _f("LLVMConstRealGetDouble", C.c_double, _VP, C.POINTER(C.c_int))
gep_src = _f("LLVMGetGEPSourceElementType", _VP, _VP)
alloc_ty = _f("LLVMGetAllocatedType", _VP, _VP)
get_dl = _f("LLVMGetModuleDataLayout", _VP, _VP)
abi_size = _f("LLVMABISizeOfType", C.c_ulonglong, _VP, _VP)
store_size = _f("LLVMStoreSizeOfType", C.c_ulonglong, _VP, _VP)
off_elem = _f("LLVMOffsetOfElement", C.c_ulonglong, _VP, _VP, C.c_uint)
elem_type = _f("LLVMGetElementType", _VP, _VP)
n_struct = _f("LLVMCountStructElementTypes", C.c_uint, _VP)
struct_at = _f("LLVMStructGetTypeAtIndex", _VP, _VP, C.c_uint)
arr_len = _f("LLVMGetArrayLength2", C.c_ulonglong, _VP)
vec_len = _f("LLVMGetVectorSize", C.c_uint, _VP)
called = _f("LLVMGetCalledValue", _VP, _VP)
n_args = _f("LLVMGetNumArgOperands", C.c_uint, _VP)
const_op = _f("LLVMGetConstOpcode", C.c_int, _VP)
agg_elem = _f("LLVMGetAggregateElement", _VP, _VP, C.c_uint)
n_indices = _f("LLVMGetNumIndices", C.c_uint, _VP)
get_indices = _f("LLVMGetIndices", C.POINTER(C.c_uint), _VP)
get_nsw = _f("LLVMGetNSW", C.c_int, _VP)
get_nuw = _f("LLVMGetNUW", C.c_int, _VP)
rmw_op = _f("LLVMGetAtomicRMWBinOp", C.c_int, _VP)
print_val = _f("LLVMPrintValueToString", C.c_char_p, _VP)
print_ty = _f("LLVMPrintTypeToString", C.c_char_p, _VP)
bb_as_val = _f("LLVMBasicBlockAsValue", _VP, _VP)
val_as_bb = _f("LLVMValueAsBasicBlock", _VP, _VP)
is_null = _f("LLVMIsNull", C.c_int, _VP)
ret_type = _f("LLVMGetReturnType", _VP, _VP)
called_fty = _f("LLVMGetCalledFunctionType", _VP, _VP)
inst_debugloc_line = _f("LLVMGetDebugLocLine", C.c_uint, _VP)

OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 11: "fsub",
       12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl",
       21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep",
       30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc",
       38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 49: "vaarg", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue",
       54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 66: "fneg",
       68: "freeze", 60: "addrspacecast"}
# value kinds
ARG, BBV, FUNC, ALIAS = 0, 1, 5, 6
GVAR, BLOCKADDR, CEXPR, CARRAY, CSTRUCT, CVEC, UNDEF, CAZ, CDARR, CDVEC, CINT, CFP, CNULL = 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20
INST = 24
POISON = 25
TK = {0: "void", 2: "float", 3: "double", 8: "int", 9: "function", 10: "struct", 11: "array", 12: "ptr", 13: "vector"}


class Ty:
    __slots__ = ("h", "kind", "width", "elems", "n", "elem", "size", "offs")


class Const:
    """constants: kind in int/fp/null/undef/global/func/agg/zero/gep/expr"""
    __slots__ = ("kind", "v", "ty", "extra")

    def __init__(self, kind, v, ty, extra=None):
        self.kind, self.v, self.ty, self.extra = kind, v, ty, extra


class Inst:
    __slots__ = ("h", "op", "ty", "ops", "block", "idx", "x", "_line")

    def line(self):
        return inst_debugloc_line(self.h)

    def text(self):
        return print_val(self.h).decode(errors="replace").strip()


class Arg:
    __slots__ = ("i", "ty", "fn")


class Block:
    __slots__ = ("h", "insts", "succ", "preds", "i", "fn")


class Function:
    def __init__(self, mod, h):
        self.mod, self.h = mod, h
        n = C.c_size_t()
        self.name = val_name(h, C.byref(n)).decode()
        self.decl = bool(is_decl(h))
        self._built = False

    def build(self):
        if self._built:
            return self
        self._built = True
        m = self.mod
        self.args = []
        for i in range(count_params(self.h)):
            a = Arg()
            a.i, a.fn = i, self
            p = get_param(self.h, i)
            a.ty = m.ty(type_of(p))
            m.vals[p] = a
            self.args.append(a)
        self.blocks = []
        b = first_bb(self.h)
        bmap = {}
        raw = []
        while b:
            B = Block()
            B.h, B.insts, B.succ, B.preds, B.i, B.fn = b, [], [], [], len(self.blocks), self
            bmap[b] = B
            self.blocks.append(B)
            i = first_in(b)
            while i:
                I = Inst()
                I.h, I.block, I.idx = i, B, len(B.insts)
                I.op = OPC.get(opcode(i), "op%d" % opcode(i))
                I.ty = m.ty(type_of(i))
                I.x = None
                B.insts.append(I)
                m.vals[i] = I
                raw.append(I)
                i = next_in(i)
            b = next_bb(b)
        self.bmap = bmap
        for I in raw:
            h = I.h
            op = I.op
            if op == "phi":
                I.x = [(bmap[inc_bb(h, k)], m.val(inc_val(h, k))) for k in range(n_incoming(h))]
                I.ops = []
                continue
            if op in ("br", "switch", "invoke"):
                I.block.succ = [bmap[get_succ(h, k)] for k in range(n_succ(h))]
            if op == "br":
                I.ops = [m.val(get_op(h, 0))] if n_succ(h) == 2 else []
                continue
            if op == "switch":
                cases = []
                k = 2
                while k < num_ops(h):
                    cases.append((m.val(get_op(h, k)), bmap[val_as_bb(get_op(h, k + 1))]))
                    k += 2
                I.ops = [m.val(get_op(h, 0))]
                I.x = (bmap[val_as_bb(get_op(h, 1))], cases)
                continue
            if op in ("call", "invoke"):
                I.ops = [m.val(get_op(h, k)) for k in range(n_args(h))]
                I.x = m.val(called(h))
                continue
            I.ops = []
            for k in range(num_ops(h)):
                I.ops.append(m.val(get_op(h, k)))
            if op == "icmp":
                I.x = icmp_pred(h)
            elif op == "fcmp":
                I.x = fcmp_pred(h)
            elif op == "gep":
                I.x = m.ty(gep_src(h))
            elif op == "alloca":
                I.x = m.ty(alloc_ty(h))
            elif op in ("extractvalue", "insertvalue"):
                p = get_indices(h)
                I.x = [p[k] for k in range(n_indices(h))]
            elif op == "atomicrmw":
                I.x = rmw_op(h)
            elif op in ("add", "sub", "mul", "shl"):
                I.x = (bool(get_nsw(h)), bool(get_nuw(h)))
        for B in self.blocks:
            for s in B.succ:
                if B not in s.preds:
                    s.preds.append(B)
        return self


class Module:
    def __init__(self, path):
        self.ctx = ctx_create()
        buf = _VP()
        err = C.c_char_p()
        if membuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = _VP()
        if parse_ir(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        self.dl = get_dl(m)
        self.types, self.vals = {}, {}
        self.fns, self.globals = {}, {}
        f = first_fn(m)
        while f:
            F = Function(self, f)
            self.fns[F.name] = F
            self.vals[f] = Const("func", F, None)
            f = next_fn(f)
        g = first_gv(m)
        while g:
            n = C.c_size_t()
            name = val_name(g, C.byref(n)).decode()
            c = Const("global", name, None, g)
            self.globals[name] = c
            self.vals[g] = c
            g = next_gv(g)

    def ty(self, h):
        t = self.types.get(h)
        if t is not None:
            return t
        t = Ty()
        self.types[h] = t
        t.h = h
        t.kind = TK.get(type_kind(h), "k%d" % type_kind(h))
        t.width = t.elems = t.n = t.elem = t.offs = None
        t.size = 0
        if t.kind == "int":
            t.width = int_width(h)
            t.size = store_size(self.dl, h)
        elif t.kind in ("float", "double", "ptr"):
            t.size = abi_size(self.dl, h)
        elif t.kind == "struct":
            t.elems = [self.ty(struct_at(h, i)) for i in range(n_struct(h))]
            try:
                t.size = abi_size(self.dl, h)
                t.offs = [off_elem(self.dl, h, i) for i in range(len(t.elems))]
            except Exception:
                pass
        elif t.kind in ("array", "vector"):
            t.elem = self.ty(elem_type(h))
            t.n = arr_len(h) if t.kind == "array" else vec_len(h)
            t.size = abi_size(self.dl, h)
        return t

    def val(self, h):
        v = self.vals.get(h)
        if v is not None:
            return v
        k = val_kind(h)
        ty = self.ty(type_of(h))
        if k == CINT:
            if ty.width <= 64:
                c = Const("int", const_sext(h), ty)
            else:
                s = print_val(h).decode().split()[-1]
                c = Const("int", int(s), ty)
        elif k == CFP:
            li = C.c_int()
            c = Const("fp", const_dbl(h, C.byref(li)), ty)
        elif k == CNULL:
            c = Const("null", 0, ty)
        elif k in (UNDEF, POISON):
            c = Const("undef", None, ty)
        elif k == CAZ:
            c = Const("zero", 0, ty)
        elif k in (CARRAY, CSTRUCT, CVEC, CDARR, CDVEC):
            n = ty.n if ty.kind in ("array", "vector") else len(ty.elems)
            c = Const("agg", [self.val(agg_elem(h, i)) for i in range(n)], ty)
        elif k == CEXPR:
            op = OPC.get(const_op(h))
            ops = [self.val(get_op(h, i)) for i in range(num_ops(h))]
            c = Const("expr", op, ty, (ops, self.ty(gep_src(h)) if op == "gep" else icmp_pred(h) if op == "icmp" else None))
        elif k == BBV:
            c = Const("bb", h, ty)
        elif k == ALIAS:
            c = Const("alias", h, ty)
        else:
            c = Const("other%d" % k, h, ty)
        self.vals[h] = c
        return c


_dbgf = _f("LLVMGetDebugLocFilename", C.c_void_p, _VP, C.POINTER(C.c_uint))
first_use = _f("LLVMGetFirstUse", _VP, _VP)


def dbg_file(h):
    n = C.c_uint()
    p = _dbgf(h, C.byref(n))
    if not p:
        return ""
    return C.string_at(p, n.value).decode(errors="replace").replace("/repo/", "")


def num_uses(h):
    return 1 if first_use(h) else 0
