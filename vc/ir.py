"""LLVM IR loader over the LLVM-C API (libLLVM-18, ctypes)."""
import ctypes as C, math
L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM.so")
V = C.c_void_p
def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
ctxCreate = _f("LLVMContextCreate", V)
mbuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
parse = _f("LLVMParseIRInContext", C.c_int, V, V, C.POINTER(V), C.POINTER(C.c_char_p))
firstF = _f("LLVMGetFirstFunction", V, V); nextF = _f("LLVMGetNextFunction", V, V)
firstG = _f("LLVMGetFirstGlobal", V, V); nextG = _f("LLVMGetNextGlobal", V, V)
isDecl = _f("LLVMIsDeclaration", C.c_int, V)
name2 = _f("LLVMGetValueName2", V, V, C.POINTER(C.c_size_t))
firstBB = _f("LLVMGetFirstBasicBlock", V, V); nextBB = _f("LLVMGetNextBasicBlock", V, V)
firstI = _f("LLVMGetFirstInstruction", V, V); nextI = _f("LLVMGetNextInstruction", V, V)
opc = _f("LLVMGetInstructionOpcode", C.c_int, V)
nops = _f("LLVMGetNumOperands", C.c_int, V); getop = _f("LLVMGetOperand", V, V, C.c_uint)
typeOf = _f("LLVMTypeOf", V, V); tkind = _f("LLVMGetTypeKind", C.c_int, V)
iwidth = _f("LLVMGetIntTypeWidth", C.c_uint, V)
icmpP = _f("LLVMGetICmpPredicate", C.c_int, V); fcmpP = _f("LLVMGetFCmpPredicate", C.c_int, V)
cntIn = _f("LLVMCountIncoming", C.c_uint, V); inV = _f("LLVMGetIncomingValue", V, V, C.c_uint); inB = _f("LLVMGetIncomingBlock", V, V, C.c_uint)
nsucc = _f("LLVMGetNumSuccessors", C.c_uint, V); succ = _f("LLVMGetSuccessor", V, V, C.c_uint)
gepT = _f("LLVMGetGEPSourceElementType", V, V); allocT = _f("LLVMGetAllocatedType", V, V)
called = _f("LLVMGetCalledValue", V, V); nargs = _f("LLVMGetNumArgOperands", C.c_uint, V)
nidx = _f("LLVMGetNumIndices", C.c_uint, V); idxs = _f("LLVMGetIndices", C.POINTER(C.c_uint), V)
nsw = _f("LLVMGetNSW", C.c_int, V); nuw = _f("LLVMGetNUW", C.c_int, V)
dlay = _f("LLVMGetModuleDataLayout", V, V)
absize = _f("LLVMABISizeOfType", C.c_ulonglong, V, V); offel = _f("LLVMOffsetOfElement", C.c_ulonglong, V, V, C.c_uint)
vkind = _f("LLVMGetValueKind", C.c_int, V)
cintS = _f("LLVMConstIntGetSExtValue", C.c_longlong, V)
crealD = _f("LLVMConstRealGetDouble", C.c_double, V, C.POINTER(C.c_int))
isNull = _f("LLVMIsNull", C.c_int, V); isUndef = _f("LLVMIsUndef", C.c_int, V); isPoison = _f("LLVMIsPoison", C.c_int, V)
aggEl = _f("LLVMGetAggregateElement", V, V, C.c_uint)
cOpc = _f("LLVMGetConstOpcode", C.c_int, V)
ginit = _f("LLVMGetInitializer", V, V); gconst = _f("LLVMIsGlobalConstant", C.c_int, V)
nparams = _f("LLVMCountParams", C.c_uint, V); gparam = _f("LLVMGetParam", V, V, C.c_uint)
elT = _f("LLVMGetElementType", V, V); arrLen = _f("LLVMGetArrayLength", C.c_uint, V); vecLen = _f("LLVMGetVectorSize", C.c_uint, V)
nstruct = _f("LLVMCountStructElementTypes", C.c_uint, V); structEl = _f("LLVMStructGetTypeAtIndex", V, V, C.c_uint)
gvt = _f("LLVMGlobalGetValueType", V, V)
akind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
cattr = _f("LLVMGetCallSiteEnumAttribute", V, V, C.c_uint, C.c_uint)
atype = _f("LLVMGetTypeAttributeValue", V, V)
retT = _f("LLVMGetReturnType", V, V)
BYVAL = akind(b"byval", 5)

OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub",
       12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}

class Ty:
    __slots__ = ("k", "w", "size", "el", "n", "fields", "offs")
    def __repr__(self): return {"i": "i%s" % self.w}.get(self.k, self.k)
class Ins:
    __slots__ = ("op", "ty", "ops", "x", "id", "bb", "nops_")
class Arg:
    __slots__ = ("id", "ty", "i")
class BB:
    __slots__ = ("id", "ins", "succ", "fn")
class Fn:
    __slots__ = ("name", "args", "blocks", "loops_", "decl", "retty")
class Glob:
    __slots__ = ("name", "ty", "const", "ref", "mod")
# operand tuples: ("v", key) local; ("i", n, w); ("f", float); ("null",); ("undef",); ("g", name); ("fn", name); ("ce", op, ty, ops, extra); ("agg", ty, [..])

class Module:
    def __init__(self, path):
        self.ctx = ctxCreate()
        b = V(); e = C.c_char_p()
        if mbuf(path.encode(), C.byref(b), C.byref(e)): raise IOError(e.value)
        m = V()
        if parse(self.ctx, b, C.byref(m), C.byref(e)): raise IOError(e.value)
        self.m = m; self.dl = dlay(m); self.tys = {}; self.fns = {}; self.globs = {}; self._f = {}
        f = firstF(m)
        while f:
            n = self.name(f); self._f[n] = f
            f = nextF(f)
        g = firstG(m)
        while g:
            G = Glob(); G.name = self.name(g); G.ty = self.ty(gvt(g)); G.const = bool(gconst(g)); G.ref = g; G.mod = self
            self.globs[G.name] = G
            g = nextG(g)
    def name(self, v):
        n = C.c_size_t(); p = name2(v, C.byref(n))
        return C.string_at(p, n.value).decode()
    def ty(self, t):
        if t in self.tys: return self.tys[t]
        k = tkind(t); r = Ty(); r.k = None; r.w = r.el = r.n = r.fields = r.offs = None; r.size = 0
        self.tys[t] = r
        if k == 0: r.k = "void"
        elif k == 8: r.k = "i"; r.w = iwidth(t); r.size = absize(self.dl, t)
        elif k in (1, 2, 3, 4): r.k = "f"; r.w = {1: 16, 2: 32, 3: 64, 4: 80}[k]; r.size = absize(self.dl, t)
        elif k == 12: r.k = "p"; r.size = 8
        elif k == 11: r.k = "a"; r.el = self.ty(elT(t)); r.n = arrLen(t); r.size = absize(self.dl, t)
        elif k == 10:
            r.k = "s"; n = nstruct(t)
            try:
                r.size = absize(self.dl, t) if n else 0
            except Exception: r.size = 0
            r.fields = [self.ty(structEl(t, i)) for i in range(n)]; r.offs = [offel(self.dl, t, i) for i in range(n)]
        elif k == 13: r.k = "v"; r.el = self.ty(elT(t)); r.n = vecLen(t); r.size = absize(self.dl, t)
        else: r.k = "other%d" % k
        return r
    def fn(self, name):
        if name in self.fns: return self.fns[name]
        f = self._f.get(name)
        if f is None: return None
        F = Fn(); F.name = name; F.loops_ = None; F.decl = bool(isDecl(f)); F.blocks = []; F.args = []; F.retty = self.ty(retT(gvt(f)))
        self.fns[name] = F
        for i in range(nparams(f)):
            p = gparam(f, i); a = Arg(); a.id = p; a.ty = self.ty(typeOf(p)); a.i = i; F.args.append(a)
        if F.decl: return F
        bbs = []; b = firstBB(f); bid = {}
        while b:
            B = BB(); B.id = b; B.ins = []; B.succ = []; B.fn = F; bbs.append(B); bid[b] = B
            b = nextBB(b)
        bav = _f("LLVMBasicBlockAsValue", V, V)
        for B in bbs:
            i = firstI(B.id)
            while i:
                B.ins.append(self.ins(i, B, bid)); i = nextI(i)
        F.blocks = bbs
        return F
    def ins(self, i, B, bid):
        I = Ins(); o = opc(i); I.op = OPC.get(o, "op%d" % o); I.ty = self.ty(typeOf(i)); I.id = i; I.bb = B; I.x = None
        if I.op == "phi":
            I.ops = [(self.val(inV(i, k)), bid[inB(i, k)]) for k in range(cntIn(i))]; return I
        if I.op in ("br", "switch"):
            n = nsucc(i); B.succ = [bid[succ(i, k)] for k in range(n)]
            if I.op == "br": I.ops = [self.val(getop(i, 0))] if n == 2 else []
            else:
                I.ops = [self.val(getop(i, 0))]
                I.x = [cintS(getop(i, 2 * k)) for k in range(1, n)]
            return I
        if I.op == "call":
            I.x = {"callee": self.val(called(i)), "byval": {}}
            n = nargs(i); I.ops = [self.val(getop(i, k)) for k in range(n)]
            I.x["tys"] = [self.ty(typeOf(getop(i, k))) for k in range(n)]
            for k in range(n):
                a = cattr(i, k + 1, BYVAL)
                if a: I.x["byval"][k] = self.ty(atype(a))
            return I
        I.ops = [self.val(getop(i, k)) for k in range(nops(i))]
        if I.op == "icmp": I.x = (ICMP[icmpP(i)], self.ty(typeOf(getop(i, 0))))
        elif I.op == "fcmp": I.x = FCMP[fcmpP(i)]
        elif I.op == "gep": I.x = self.ty(gepT(i))
        elif I.op == "alloca": I.x = self.ty(allocT(i))
        elif I.op in ("extractvalue", "insertvalue"):
            p = idxs(i); I.x = [p[k] for k in range(nidx(i))]
        elif I.op in ("add", "sub", "mul", "shl"): I.x = (bool(nsw(i)), bool(nuw(i)))
        elif I.op == "store": I.x = self.ty(typeOf(getop(i, 0)))
        elif I.op in ("trunc", "zext", "sext", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast", "ptrtoint", "fptrunc", "fpext"): I.x = self.ty(typeOf(getop(i, 0)))
        return I
    def val(self, v):
        k = vkind(v)
        # LLVMValueKind: 0 Arg,1 BB,4? (Function etc.)
        if k == 0 or k >= 24 and k not in (24,) : pass
        if k in (0,): return ("v", v)
        if not _isconst(v): return ("v", v)
        return self.cval(v)
    def cval(self, v):
        if _isfn(v): return ("fn", self.name(v))
        if _isglob(v): return ("g", self.name(v))
        t = self.ty(typeOf(v))
        if isPoison(v) or isUndef(v): return ("undef", t)
        if _isCI(v): return ("i", cintS(v), t.w)
        if _isCF(v):
            li = C.c_int(); return ("f", crealD(v, C.byref(li)))
        if _isCE(v):
            op = OPC.get(cOpc(v)); ops = [self.cval(getop(v, k)) for k in range(nops(v))]
            x = self.ty(gepT(v)) if op == "gep" else (ICMP[icmpP(v)], self.ty(typeOf(getop(v, 0)))) if op == "icmp" else None
            return ("ce", op, t, ops, x)
        if t.k == "p" and isNull(v): return ("null",)
        if t.k in ("a", "s", "v"):
            n = t.n if t.k != "s" else len(t.fields)
            return ("agg", t, [self.cval(aggEl(v, j)) for j in range(n)])
        if t.k == "i": return ("i", 0, t.w)
        return ("undef", t)
_isC = _f("LLVMIsConstant", C.c_int, V)
def _isconst(v): return bool(_isC(v))
_isFn_ = _f("LLVMIsAFunction", V, V); _isG_ = _f("LLVMIsAGlobalVariable", V, V); _isCI_ = _f("LLVMIsAConstantInt", V, V)
_isCF_ = _f("LLVMIsAConstantFP", V, V); _isCE_ = _f("LLVMIsAConstantExpr", V, V); _isGA_ = _f("LLVMIsAGlobalAlias", V, V)
def _isfn(v): return bool(_isFn_(v)) or bool(_isGA_(v))
def _isglob(v): return bool(_isG_(v))
def _isCI(v): return bool(_isCI_(v))
def _isCF(v): return bool(_isCF_(v))
def _isCE(v): return bool(_isCE_(v))

_live = {}
def live(F):
    """block -> values used by it or after it before being computed again (phi operands count at the end of their predecessor)"""
    if F in _live: return _live[F]
    use = {}; de = {}; ph = {}
    for B in F.blocks:
        u = set(); d = set()
        for I in B.ins:
            if I.op == "phi":
                for v, pb in I.ops:
                    if v[0] == "v": ph.setdefault(pb, set()).add(v[1])
            else:
                for v in list(I.ops) + ([I.x["callee"]] if I.op == "call" and isinstance(I.x, dict) else []):
                    if isinstance(v, tuple) and v and v[0] == "v" and v[1] not in d: u.add(v[1])
            d.add(I.id)
        use[B] = u; de[B] = d
    r = {B: set(use[B]) for B in F.blocks}; ch = True
    while ch:
        ch = False
        for B in reversed(F.blocks):
            o = set(ph.get(B, ()))
            for x in B.succ: o |= r[x] - {I.id for I in x.ins if I.op == "phi"}
            n = use[B] | (o - de[B])
            if n != r[B]: r[B] = n; ch = True
    _live[F] = r
    return r
class Loop:
    __slots__ = ("header", "blocks")
def loops(F):
    """natural loops of F: header -> Loop (merged per header)"""
    if F.loops_ is not None: return F.loops_
    entry = F.blocks[0]
    # reverse postorder
    order = []; seen = set()
    stack = [(entry, iter(entry.succ))]; seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen: seen.add(s); stack.append((s, iter(s.succ))); break
        else: order.append(b); stack.pop()
    order.reverse(); num = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in b.succ: preds[s].append(b)
    idom = {entry: entry}; ch = True
    while ch:
        ch = False
        for b in order[1:]:
            n = None
            for p in preds[b]:
                if p in idom:
                    if n is None: n = p
                    else:
                        x, y = p, n
                        while x is not y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        n = x
            if idom.get(b) is not n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a is b: return True
            if b is entry: return False
            b = idom[b]
    res = {}
    for b in order:
        for s in b.succ:
            if dom(s, b):
                l = res.get(s)
                if l is None: l = Loop(); l.header = s; l.blocks = {s}; res[s] = l
                st = [b]
                while st:
                    x = st.pop()
                    if x not in l.blocks:
                        l.blocks.add(x); st.extend(preds[x])
    F.loops_ = res
    return res
