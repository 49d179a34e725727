"""Read LLVM bitcode into plain Python objects through the LLVM-C API (ctypes)."""
import ctypes as C, re, glob, os

def _lib():
    for p in ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so"] + \
             sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM-18.so*")):
        if os.path.exists(p):
            return C.CDLL(p)
    raise RuntimeError("libLLVM-18 not found")

L = _lib()
P = C.c_void_p
def fn(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f

CreateBuf = fn("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = fn("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
CtxCreate = fn("LLVMContextCreate", P)
FirstFn = fn("LLVMGetFirstFunction", P, P)
NextFn = fn("LLVMGetNextFunction", P, P)
FirstGlobal = fn("LLVMGetFirstGlobal", P, P)
NextGlobal = fn("LLVMGetNextGlobal", P, P)
ValName2 = fn("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
IsDecl = fn("LLVMIsDeclaration", C.c_int, P)
FirstBB = fn("LLVMGetFirstBasicBlock", P, P)
NextBB = fn("LLVMGetNextBasicBlock", P, P)
FirstInst = fn("LLVMGetFirstInstruction", P, P)
NextInst = fn("LLVMGetNextInstruction", P, P)
Opcode = fn("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = fn("LLVMGetNumOperands", C.c_int, P)
GetOp = fn("LLVMGetOperand", P, P, C.c_uint)
TypeOf = fn("LLVMTypeOf", P, P)
TypeKind = fn("LLVMGetTypeKind", C.c_int, P)
IntWidth = fn("LLVMGetIntTypeWidth", C.c_uint, P)
ICmpPred = fn("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = fn("LLVMGetFCmpPredicate", C.c_int, P)
IsConst = fn("LLVMIsConstant", C.c_int, P)
ValueKind = fn("LLVMGetValueKind", C.c_int, P)
SExtVal = fn("LLVMConstIntGetSExtValue", C.c_longlong, P)
ConstOpcode = fn("LLVMGetConstOpcode", C.c_int, P)
GEPSrcTy = fn("LLVMGetGEPSourceElementType", P, P)
AllocaTy = fn("LLVMGetAllocatedType", P, P)
GlobalValTy = fn("LLVMGlobalGetValueType", P, P)
DataLayout = fn("LLVMGetModuleDataLayout", P, P)
ABISize = fn("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = fn("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffsetOf = fn("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
StructElem = fn("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
StructCount = fn("LLVMCountStructElementTypes", C.c_uint, P)
ElemType = fn("LLVMGetElementType", P, P)
ArrayLen = fn("LLVMGetArrayLength2", C.c_ulonglong, P)
NumIncoming = fn("LLVMCountIncoming", C.c_uint, P)
IncVal = fn("LLVMGetIncomingValue", P, P, C.c_uint)
IncBB = fn("LLVMGetIncomingBlock", P, P, C.c_uint)
NumSucc = fn("LLVMGetNumSuccessors", C.c_uint, P)
GetSucc = fn("LLVMGetSuccessor", P, P, C.c_uint)
IsCond = fn("LLVMIsConditional", C.c_int, P)
CalledVal = fn("LLVMGetCalledValue", P, P)
NumArgs = fn("LLVMGetNumArgOperands", C.c_uint, P)
ArgOp = fn("LLVMGetArgOperand", P, P, C.c_uint)
NumParams = fn("LLVMCountParams", C.c_uint, P)
GetParam = fn("LLVMGetParam", P, P, C.c_uint)
BBAsVal = fn("LLVMBasicBlockAsValue", P, P)
ValAsBB = fn("LLVMValueAsBasicBlock", P, P)
Initializer = fn("LLVMGetInitializer", P, P)
IsGlobConst = fn("LLVMIsGlobalConstant", C.c_int, P)
GetNSW = fn("LLVMGetNSW", C.c_int, P)
GetNUW = fn("LLVMGetNUW", C.c_int, P)
AggElem = fn("LLVMGetAggregateElement", P, P, C.c_uint)
IsConstString = fn("LLVMIsConstantString", C.c_int, P)
AsString = fn("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
DbgLine = fn("LLVMGetDebugLocLine", C.c_uint, P)
DbgFile = fn("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(C.c_uint))
NumIndices = fn("LLVMGetNumIndices", C.c_uint, P)
GetIndices = fn("LLVMGetIndices", C.POINTER(C.c_uint), P)
IsVarArg = fn("LLVMIsFunctionVarArg", C.c_int, P)
IsNull = fn("LLVMIsNull", C.c_int, P)
ConstRealDouble = fn("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
GetSub = fn("LLVMGetSubprogram", P, P)
SubLine = fn("LLVMDISubprogramGetLine", C.c_uint, P)
ScopeFile = fn("LLVMDIScopeGetFile", P, P)
FileName = fn("LLVMDIFileGetFilename", C.c_void_p, P, C.POINTER(C.c_uint))

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',
       12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',
       23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',
       34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',
       43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',53:'extractvalue',54:'insertvalue',55:'fence',
       58:'resume',59:'landingpad',66:'fneg',68:'freeze'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
K_INT, K_PTR, K_STRUCT, K_ARRAY, K_VOID, K_FLOAT, K_DOUBLE = 8, 12, 10, 11, 0, 2, 3
# value kinds
VK_ARG, VK_BB = 0, 1
VK_FUNC, VK_GALIAS, VK_GIFUNC, VK_GVAR = 5, 6, 7, 8
VK_BLOCKADDR, VK_CEXPR, VK_CARRAY, VK_CSTRUCT, VK_CVEC = 9, 10, 11, 12, 13
VK_UNDEF, VK_CAGGZERO, VK_CDARRAY, VK_CDVEC, VK_CINT, VK_CFP, VK_CPNULL = 14, 15, 16, 17, 18, 19, 20
VK_INST = 24
VK_POISON = 25

class Ty:
    __slots__ = ("kind", "bits", "size", "raw")
    def __init__(self, kind, bits, size, raw):
        self.kind, self.bits, self.size, self.raw = kind, bits, size, raw
    def __repr__(self):
        return {"i": "i%d" % self.bits, "p": "ptr", "v": "void"}.get(self.kind, self.kind)

class GlobalRef:          # reference to a global variable
    __slots__ = ("g",)
    def __init__(self, g): self.g = g
class FuncRef:
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
class CExpr:              # (op, args...)
    __slots__ = ("op", "args", "ty")
    def __init__(self, op, args, ty): self.op, self.args, self.ty = op, args, ty
class Undef:
    __slots__ = ()
UNDEFC = Undef()
class Null: 
    __slots__ = ()
NULLC = Null()
class Zero:               # aggregate zero
    __slots__ = ("ty",)
    def __init__(self, ty): self.ty = ty
class Agg:
    __slots__ = ("ty", "elems")
    def __init__(self, ty, elems): self.ty, self.elems = ty, elems
class FloatC:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v

class Inst:
    __slots__ = ("op", "ty", "ops", "id", "x", "line", "file", "bb", "name", "fnc")
    def __repr__(self):
        return "<%%%s %s %s @%s>" % (self.id, self.op, self.x, self.line)

class Reg:
    __slots__ = ("id",)
    def __init__(self, i): self.id = i

class Block:
    __slots__ = ("name", "insts", "idx", "phis", "succ", "fnc")
    def __repr__(self): return "<bb %s>" % self.name

def demangle(n):
    m = re.match(r"_ZL?(\d+)", n)
    if m:
        k = int(m.group(1)); s = m.end()
        return n[s:s + k]
    m = re.match(r"_ZN12_GLOBAL__N_1L?(\d+)", n)
    if m:
        k = int(m.group(1)); s = m.end()
        return n[s:s + k]
    return n

class Function:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.base = demangle(name)
        self.decl = bool(IsDecl(ref))
        self._blocks = None
        n = NumParams(ref)
        self.params = [GetParam(ref, i) for i in range(n)]
        self.nparams = n
        self.ptypes = [mod.ty(TypeOf(p)) for p in self.params]
        self._line = None
    @property
    def file(self):
        s = GetSub(self.ref)
        if not s: return "?"
        f = ScopeFile(s)
        if not f: return "?"
        ln = C.c_uint()
        p = FileName(f, C.byref(ln))
        return os.path.basename(C.string_at(p, ln.value).decode())
    @property
    def line(self):
        s = GetSub(self.ref)
        return SubLine(s) if s else 0
    @property
    def blocks(self):
        if self._blocks is None:
            self._load()
        return self._blocks
    def _load(self):
        mod = self.mod
        vmap = {}
        bbmap = {}
        blocks = []
        b = FirstBB(self.ref)
        while b:
            bl = Block(); bl.idx = len(blocks); bl.insts = []; bl.fnc = self
            bl.name = mod.vname(BBAsVal(b))
            blocks.append(bl); bbmap[b] = bl
            b = NextBB(b)
        self.argids = []
        nid = 0
        for p in self.params:
            vmap[p] = Reg(nid); self.argids.append(nid); nid += 1
        raw = []
        b = FirstBB(self.ref)
        bi = 0
        while b:
            i = FirstInst(b)
            while i:
                vmap[i] = Reg(nid)
                raw.append((blocks[bi], i, nid)); nid += 1
                i = NextInst(i)
            b = NextBB(b); bi += 1
        def cv(v):
            r = vmap.get(v)
            if r is not None: return r
            return mod.const(v)
        for bl, i, n in raw:
            x = Inst(); x.id = n; x.op = OPC.get(Opcode(i), "op%d" % Opcode(i)); x.x = None; x.bb = bl; x.fnc = self
            t = TypeOf(i); x.ty = mod.ty(t)
            x.line = DbgLine(i)
            ln = C.c_uint()
            fp = DbgFile(i, C.byref(ln)) if x.line else None
            x.file = mod.fname(fp, ln.value) if fp else self.base
            o = x.op
            if o == 'br':
                if IsCond(i):
                    x.ops = [cv(GetOp(i, 0))]
                    x.x = (bbmap[GetSucc(i, 0)], bbmap[GetSucc(i, 1)])
                else:
                    x.ops = []; x.x = (bbmap[GetSucc(i, 0)],)
                bl.succ = list(x.x)
            elif o == 'switch':
                x.ops = [cv(GetOp(i, 0))]
                n2 = NumOps(i)
                cases = []
                for k in range(2, n2, 2):
                    cases.append((mod.const(GetOp(i, k)), bbmap[ValAsBB(GetOp(i, k + 1))]))
                x.x = (bbmap[ValAsBB(GetOp(i, 1))], cases)
                bl.succ = [x.x[0]] + [c[1] for c in cases]
            elif o == 'ret':
                x.ops = [cv(GetOp(i, 0))] if NumOps(i) else []
                bl.succ = []
            elif o == 'unreachable':
                x.ops = []; bl.succ = []
            elif o == 'phi':
                x.ops = []
                x.x = {}
                for k in range(NumIncoming(i)):
                    x.x[bbmap[IncBB(i, k)].idx] = cv(IncVal(i, k))
            elif o == 'call':
                x.ops = [cv(ArgOp(i, k)) for k in range(NumArgs(i))]
                x.x = cv(CalledVal(i))
            elif o == 'alloca':
                at = AllocaTy(i)
                x.ops = [cv(GetOp(i, 0))]
                x.x = ABISize(mod.dl, at)
            elif o == 'gep':
                x.ops, x.x = mod.gep(i, cv)
            elif o == 'icmp':
                x.ops = [cv(GetOp(i, 0)), cv(GetOp(i, 1))]
                ot = mod.ty(TypeOf(GetOp(i, 0)))
                x.x = (PRED[ICmpPred(i)], ot)
            elif o == 'fcmp':
                x.ops = [cv(GetOp(i, 0)), cv(GetOp(i, 1))]
                x.x = FCmpPred(i)
            elif o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'freeze', 'fneg'):
                x.ops = [cv(GetOp(i, 0))]
                x.x = mod.ty(TypeOf(GetOp(i, 0)))
            elif o in ('add', 'sub', 'mul', 'shl'):
                x.ops = [cv(GetOp(i, 0)), cv(GetOp(i, 1))]
                x.x = (bool(GetNSW(i)), bool(GetNUW(i)))
            elif o in ('extractvalue', 'insertvalue'):
                x.ops = [cv(GetOp(i, k)) for k in range(NumOps(i))]
                ni = NumIndices(i); ip = GetIndices(i)
                x.x = [ip[k] for k in range(ni)]
            elif o == 'store':
                x.ops = [cv(GetOp(i, 0)), cv(GetOp(i, 1))]
                x.x = mod.ty(TypeOf(GetOp(i, 0)))
            elif o == 'load':
                x.ops = [cv(GetOp(i, 0))]
                x.x = x.ty
            else:
                x.ops = [cv(GetOp(i, k)) for k in range(NumOps(i))]
            bl.insts.append(x)
        for bl in blocks:
            bl.phis = [x for x in bl.insts if x.op == 'phi']
        self._blocks = blocks
        self._loops()
    def _loops(self):
        """natural loops: headers and their bodies"""
        blocks = self._blocks
        n = len(blocks)
        preds = [[] for _ in range(n)]
        for b in blocks:
            for s in b.succ: preds[s.idx].append(b.idx)
        # dominators (iterative)
        order = []
        seen = set()
        stack = [(0, iter([s.idx for s in blocks[0].succ]))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); stack.append((v, iter([s.idx for s in blocks[v].succ]))); break
            else:
                order.append(u); stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]: a = idom[a]
                                while num[c] > num[a]: c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in blocks[b].succ:
                if dom(s.idx, b):
                    body = self.loops.setdefault(s.idx, set([s.idx]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(p for p in preds[x] if p in num)
        self.reach = set(order)
        self.rpo = num

class Global:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.base = demangle(name)
        self.decl = bool(IsDecl(ref))
        self.const = bool(IsGlobConst(ref))
        t = GlobalValTy(ref)
        self.size = ABISize(mod.dl, t) if mod.sized(t) else 0
        self._cells = None
    def cells(self):
        """flattened initializer: {offset: (size, constant)}; missing offsets are zero"""
        if self._cells is None:
            self._cells = {}
            if not self.decl:
                self.mod.flatten(Initializer(self.ref), 0, self._cells)
        return self._cells

class Module:
    def __init__(self, path):
        ctx = CtxCreate()
        buf = P(); msg = C.c_char_p()
        if CreateBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = P()
        if ParseBC(ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse bitcode")
        self.m = m
        self.dl = DataLayout(m)
        self._ty = {}
        self._const = {}
        self._files = {}
        self.functions = {}
        self.globals = {}
        self._fref = {}
        self._gref = {}
        f = FirstFn(m)
        while f:
            n = self.vname(f)
            fo = Function(self, f, n)
            self.functions[n] = fo; self._fref[f] = fo
            f = NextFn(f)
        g = FirstGlobal(m)
        while g:
            n = self.vname(g)
            go = Global(self, g, n)
            self.globals[n] = go; self._gref[g] = go
            g = NextGlobal(g)
        self.by_base = {}
        for fo in self.functions.values():
            self.by_base.setdefault(fo.base, []).append(fo)
        self.g_by_base = {}
        for go in self.globals.values():
            self.g_by_base.setdefault(go.base, []).append(go)
    def fname(self, p, n):
        s = C.string_at(p, n).decode()
        return os.path.basename(s)
    def vname(self, v):
        n = C.c_size_t()
        p = ValName2(v, C.byref(n))
        return C.string_at(p, n.value).decode("latin1")
    def sized(self, t):
        k = TypeKind(t)
        return k not in (0, 7, 9)   # void, label, function
    def ty(self, t):
        r = self._ty.get(t)
        if r is None:
            k = TypeKind(t)
            if k == K_INT:
                r = Ty("i", IntWidth(t), StoreSize(self.dl, t), t)
            elif k == K_PTR:
                r = Ty("p", 64, 8, t)
            elif k == K_VOID:
                r = Ty("v", 0, 0, t)
            elif k in (K_FLOAT, K_DOUBLE, 4, 1):
                r = Ty("f", 64, StoreSize(self.dl, t), t)
            elif k in (K_STRUCT, K_ARRAY, 13):
                r = Ty("s", 0, ABISize(self.dl, t), t)
            else:
                r = Ty("o", 0, 0, t)
            self._ty[t] = r
        return r
    def const(self, v):
        r = self._const.get(v)
        if r is not None: return r
        k = ValueKind(v)
        if k == VK_CINT:
            r = SExtVal(v)
            t = self.ty(TypeOf(v))
            if t.bits == 1: r = r & 1
            return r   # not cached (0 is falsy but not None, fine)
        if k == VK_CPNULL: r = NULLC
        elif k in (VK_UNDEF, VK_POISON): r = UNDEFC
        elif k == VK_FUNC: r = FuncRef(self._fref[v])
        elif k == VK_GVAR: r = GlobalRef(self._gref[v])
        elif k == VK_CFP:
            li = C.c_int(); r = FloatC(ConstRealDouble(v, C.byref(li)))
        elif k == VK_CEXPR:
            o = OPC.get(ConstOpcode(v), "?")
            t = self.ty(TypeOf(v))
            if o == 'gep':
                ops, x = self.gep(v, self.const)
                r = CExpr('gep', (ops, x), t)
            else:
                r = CExpr(o, tuple(self.const(GetOp(v, i)) for i in range(NumOps(v))), t)
        elif k == VK_CAGGZERO:
            r = Zero(self.ty(TypeOf(v)))
        elif k in (VK_CSTRUCT, VK_CARRAY, VK_CDARRAY):
            r = Agg(self.ty(TypeOf(v)), v)
        else:
            r = UNDEFC if k == VK_GALIAS else CExpr('kind%d' % k, (), self.ty(TypeOf(v)))
        self._const[v] = r
        return r
    def gep(self, i, cv):
        """-> ([base, idx...], (const_off, [scale...]))"""
        base = cv(GetOp(i, 0))
        t = GEPSrcTy(i)
        off = 0; idx = []; scales = []
        n = NumOps(i)
        for k in range(1, n):
            v = cv(GetOp(i, k))
            if k == 1:
                sc = ABISize(self.dl, t)
            else:
                kd = TypeKind(t)
                if kd == K_STRUCT:
                    off += OffsetOf(self.dl, t, v)
                    t = StructElem(t, v)
                    continue
                t = ElemType(t)
                sc = ABISize(self.dl, t)
            if isinstance(v, int):
                off += v * sc
            else:
                idx.append(v); scales.append(sc)
        return [base] + idx, (off, scales)
    def flatten(self, v, off, out):
        k = ValueKind(v)
        t = TypeOf(v)
        if k in (VK_CAGGZERO, VK_UNDEF, VK_POISON): return
        if k == VK_CDARRAY and IsConstString(v):
            n = C.c_size_t()
            p = AsString(v, C.byref(n))
            for j, b in enumerate(C.string_at(p, n.value)):
                if b: out[off + j] = (1, b if b < 128 else b - 256)
            return
        tk = TypeKind(t)
        if tk == K_STRUCT:
            for j in range(StructCount(t)):
                self.flatten(AggElem(v, j), off + OffsetOf(self.dl, t, j), out)
            return
        if tk == K_ARRAY:
            et = ElemType(t); es = ABISize(self.dl, et)
            for j in range(ArrayLen(t)):
                self.flatten(AggElem(v, j), off + j * es, out)
            return
        c = self.const(v)
        if isinstance(c, int) and c == 0: return
        if isinstance(c, Null): return
        out[off] = (self.ty(t).size, c)
    def fn(self, base):
        """function by source name (must be unique and defined)"""
        l = [f for f in self.by_base.get(base, []) if not f.decl]
        return l[0] if l else None
    def fns(self, base):
        return [f for f in self.by_base.get(base, []) if not f.decl]
    def gv(self, base):
        l = self.g_by_base.get(base, [])
        d = [g for g in l if not g.decl]
        return (d or l or [None])[0]
