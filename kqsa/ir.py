"""Load an LLVM bitcode module through the LLVM-C API (ctypes) into plain Python
structures that the abstract interpreter consumes."""
import ctypes as C, os

_lib = None
def lib():
    global _lib
    if _lib is None:
        for n in ('libLLVM-18.so', 'libLLVM-18.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so',
                  'libLLVM.so.18.1', 'libLLVM.so'):
            try:
                _lib = C.CDLL(n); break
            except OSError:
                continue
        else:
            raise RuntimeError('libLLVM-18 not found')
        P = C.c_void_p
        def sig(name, res, *args):
            f = getattr(_lib, name); f.restype = res; f.argtypes = list(args)
        S = C.c_char_p; U = C.c_uint; I = C.c_int
        for n, r, a in [
            ('LLVMContextCreate', P, []),
            ('LLVMCreateMemoryBufferWithContentsOfFile', I, [S, C.POINTER(P), C.POINTER(S)]),
            ('LLVMParseIRInContext', I, [P, P, C.POINTER(P), C.POINTER(S)]),
            ('LLVMGetModuleDataLayout', P, [P]),
            ('LLVMGetFirstFunction', P, [P]), ('LLVMGetNextFunction', P, [P]),
            ('LLVMGetFirstGlobal', P, [P]), ('LLVMGetNextGlobal', P, [P]),
            ('LLVMGetValueName2', S, [P, C.POINTER(C.c_size_t)]),
            ('LLVMIsDeclaration', I, [P]),
            ('LLVMCountParams', U, [P]), ('LLVMGetParam', P, [P, U]),
            ('LLVMGetFirstBasicBlock', P, [P]), ('LLVMGetNextBasicBlock', P, [P]),
            ('LLVMGetFirstInstruction', P, [P]), ('LLVMGetNextInstruction', P, [P]),
            ('LLVMGetInstructionOpcode', I, [P]), ('LLVMGetNumOperands', I, [P]), ('LLVMGetOperand', P, [P, U]),
            ('LLVMTypeOf', P, [P]), ('LLVMGetTypeKind', I, [P]), ('LLVMGetIntTypeWidth', U, [P]),
            ('LLVMGetICmpPredicate', I, [P]),
            ('LLVMCountIncoming', U, [P]), ('LLVMGetIncomingValue', P, [P, U]), ('LLVMGetIncomingBlock', P, [P, U]),
            ('LLVMValueAsBasicBlock', P, [P]), ('LLVMValueIsBasicBlock', I, [P]),
            ('LLVMIsConditional', I, [P]),
            ('LLVMGetNumSuccessors', U, [P]), ('LLVMGetSuccessor', P, [P, U]),
            ('LLVMGetCalledValue', P, [P]), ('LLVMGetNumArgOperands', U, [P]),
            ('LLVMGetGEPSourceElementType', P, [P]),
            ('LLVMABISizeOfType', C.c_ulonglong, [P, P]), ('LLVMStoreSizeOfType', C.c_ulonglong, [P, P]),
            ('LLVMOffsetOfElement', C.c_ulonglong, [P, P, U]),
            ('LLVMStructGetTypeAtIndex', P, [P, U]), ('LLVMCountStructElementTypes', U, [P]),
            ('LLVMGetElementType', P, [P]), ('LLVMGetArrayLength2', C.c_ulonglong, [P]),
            ('LLVMGetArrayLength', U, [P]),
            ('LLVMGetAllocatedType', P, [P]),
            ('LLVMGetAtomicRMWBinOp', I, [P]), ('LLVMGetOrdering', I, [P]),
            ('LLVMGetDebugLocLine', U, [P]), ('LLVMGetDebugLocFilename', P, [P, C.POINTER(U)]),
            ('LLVMIsAConstantInt', P, [P]), ('LLVMIsAConstantPointerNull', P, [P]), ('LLVMIsAUndefValue', P, [P]),
            ('LLVMIsAConstantExpr', P, [P]), ('LLVMIsAFunction', P, [P]), ('LLVMIsAGlobalVariable', P, [P]),
            ('LLVMIsAConstantAggregateZero', P, [P]), ('LLVMIsAConstantStruct', P, [P]), ('LLVMIsAConstantArray', P, [P]),
            ('LLVMIsAConstantDataArray', P, [P]), ('LLVMIsAArgument', P, [P]), ('LLVMIsAInstruction', P, [P]),
            ('LLVMIsAInlineAsm', P, [P]), ('LLVMIsAGlobalAlias', P, [P]), ('LLVMAliasGetAliasee', P, [P]),
            ('LLVMConstIntGetSExtValue', C.c_longlong, [P]),
            ('LLVMGetConstOpcode', I, [P]),
            ('LLVMGetInitializer', P, [P]), ('LLVMIsGlobalConstant', I, [P]), ('LLVMIsThreadLocal', I, [P]),
            ('LLVMGetElementAsConstant', P, [P, U]), ('LLVMGlobalGetValueType', P, [P]),
            ('LLVMGetNumIndices', U, [P]), ('LLVMGetIndices', C.POINTER(U), [P]),
            ('LLVMGetReturnType', P, [P]), ('LLVMGetCalledFunctionType', P, [P]),
            ('LLVMGetNSW', I, [P]), ('LLVMGetNUW', I, [P]),
            ('LLVMGetAggregateElement', P, [P, U]),
            ('LLVMGetLinkage', I, [P]), ('LLVMGetVisibility', I, [P]),
            ('LLVMPrintValueToString', C.c_void_p, [P]), ('LLVMDisposeMessage', None, [C.c_void_p]),
        ]:
            try:
                sig(n, r, *a)
            except AttributeError:
                pass
    return _lib

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',
 27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',
 39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'vaarg',50:'extractelement',
 53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',60:'addrspacecast',66:'fneg',67:'callbr',68:'freeze'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
RMW = {0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin'}

class Ins:
    __slots__ = ('op', 'dst', 'a', 'w', 'x', 'line', 'file', 'fn', 'bb', 'idx')
    # op opcode, dst register number or None, a operands, w result width/size info, x extra
    def loc(self):
        return '%s:%d' % (self.file or '?', self.line)
    def __repr__(self):
        return '%s %s %s %s @%s' % (self.dst, self.op, self.a, self.x, self.loc())

class Func:
    __slots__ = ('name', 'params', 'blocks', 'nregs', 'decl', 'file', 'line', 'external', 'retw', 'loopheads', 'preds', 'linkage', 'ipdom')

class Global:
    __slots__ = ('name', 'size', 'init', 'const', 'tls', 'decl')

class Module: pass

# operand encodings:
#   int                     constant (signed representation)
#   ('r', n)                register
#   ('g', name, off)        address of global + offset
#   ('f', name)             function
#   ('u','n') / ('u',)       undef / not representable
#   ('agg', ...)            aggregates (initialisers only)

def load(path):
    L = lib()
    ctx = L.LLVMContextCreate()
    buf = C.c_void_p(); msg = C.c_char_p(); mod = C.c_void_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError(msg.value)
    if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(msg)):
        raise RuntimeError(msg.value)
    dl = L.LLVMGetModuleDataLayout(mod)
    ln = C.c_size_t()
    def name(v):
        s = L.LLVMGetValueName2(v, C.byref(ln)); return s.decode() if s else ''
    def tkind(t): return L.LLVMGetTypeKind(t)
    # kinds: 0 void,1 half,2 float,3 double,8 int,9 func,10 struct,11 array,12 pointer,13 vector
    def width(t):
        k = tkind(t)
        if k == 8: return L.LLVMGetIntTypeWidth(t)
        if k == 12: return 64
        if k == 0: return 0
        try: return 8 * L.LLVMABISizeOfType(dl, t)
        except Exception: return 0
    def isptr(t): return tkind(t) == 12
    M = Module(); M.functions = {}; M.globals = {}

    def gep_offset(srcty, idxs):
        """yield (const offset, [(reg/const operand value, scale)])"""
        const = 0; var = []
        t = srcty; first = True
        for v in idxs:
            if first:
                sz = L.LLVMABISizeOfType(dl, t); first = False
                nt = t
            else:
                k = tkind(t)
                if k == 10:
                    i = L.LLVMConstIntGetSExtValue(v)
                    const += L.LLVMOffsetOfElement(dl, t, i)
                    t = L.LLVMStructGetTypeAtIndex(t, i)
                    continue
                nt = L.LLVMGetElementType(t)
                sz = L.LLVMABISizeOfType(dl, nt)
            if L.LLVMIsAConstantInt(v):
                const += L.LLVMConstIntGetSExtValue(v) * sz
            else:
                var.append((v, sz))
            t = nt
        return const, var

    def const(v):
        """constant -> operand encoding, or None if not a constant"""
        if L.LLVMIsAConstantInt(v): return L.LLVMConstIntGetSExtValue(v)
        if L.LLVMIsAConstantPointerNull(v): return 0
        if L.LLVMIsAUndefValue(v): return ('u', 'n')        # a local that was never assigned
        if L.LLVMIsAFunction(v): return ('f', name(v))
        if L.LLVMIsAGlobalVariable(v): return ('g', name(v), 0)
        if L.LLVMIsAGlobalAlias(v): return const(L.LLVMAliasGetAliasee(v))
        if L.LLVMIsAConstantExpr(v):
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == 'gep':
                n = L.LLVMGetNumOperands(v)
                base = const(L.LLVMGetOperand(v, 0))
                c, var = gep_offset(L.LLVMGetGEPSourceElementType(v), [L.LLVMGetOperand(v, i) for i in range(1, n)])
                if var or base is None: return ('u',)
                if isinstance(base, int): return base + c
                if base[0] == 'g': return ('g', base[1], base[2] + c)
                return base
            if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return const(L.LLVMGetOperand(v, 0))
            return ('u',)
        return None

    def init_cells(v, t, off, out):
        """flatten initialiser -> list of (off, size, operand)"""
        c = None
        if L.LLVMIsAConstantAggregateZero(v): return
        k = tkind(t)
        if k == 10:
            for i in range(L.LLVMCountStructElementTypes(t)):
                init_cells(L.LLVMGetAggregateElement(v, i) or L.LLVMGetOperand(v, i), L.LLVMStructGetTypeAtIndex(t, i), off + L.LLVMOffsetOfElement(dl, t, i), out)
            return
        if k == 11:
            et = L.LLVMGetElementType(t); es = L.LLVMABISizeOfType(dl, et)
            n = L.LLVMGetArrayLength2(t) if hasattr(L, 'LLVMGetArrayLength2') else L.LLVMGetArrayLength(t)
            if L.LLVMIsAConstantDataArray(v):
                for i in range(n):
                    e = L.LLVMGetElementAsConstant(v, i)
                    x = const(e)
                    if x is not None and x != 0: out.append((off + i * es, es, x))
            elif L.LLVMIsAUndefValue(v): pass
            else:
                for i in range(n):
                    init_cells(L.LLVMGetOperand(v, i), et, off + i * es, out)
            return
        x = const(v)
        if x is None or x == 0: return
        out.append((off, L.LLVMStoreSizeOfType(dl, t), x))

    g = L.LLVMGetFirstGlobal(mod)
    while g:
        G = Global(); G.name = name(g); t = L.LLVMGlobalGetValueType(g)
        G.decl = bool(L.LLVMIsDeclaration(g))
        try: G.size = L.LLVMABISizeOfType(dl, t)
        except Exception: G.size = 0
        G.const = bool(L.LLVMIsGlobalConstant(g)); G.tls = bool(L.LLVMIsThreadLocal(g)); G.init = []
        if not G.decl:
            init_cells(L.LLVMGetInitializer(g), t, 0, G.init)
        M.globals[G.name] = G
        g = L.LLVMGetNextGlobal(g)

    fnv = L.LLVMGetFirstFunction(mod)
    while fnv:
        F = Func(); F.name = name(fnv); F.decl = bool(L.LLVMIsDeclaration(fnv)); F.blocks = []; F.params = []
        F.file = None; F.line = 0; F.external = False; F.retw = 0
        F.linkage = (L.LLVMGetLinkage(fnv), L.LLVMGetVisibility(fnv))
        M.functions[F.name] = F
        if F.decl:
            fnv = L.LLVMGetNextFunction(fnv); continue
        regs = {}
        def reg(v):
            r = regs.get(v)
            if r is None:
                r = regs[v] = len(regs)
            return r
        for i in range(L.LLVMCountParams(fnv)):
            p = L.LLVMGetParam(fnv, i)
            F.params.append((reg(p), width(L.LLVMTypeOf(p)), isptr(L.LLVMTypeOf(p))))
        bbs = {}; order = []
        b = L.LLVMGetFirstBasicBlock(fnv)
        while b:
            bbs[b] = len(order); order.append(b); b = L.LLVMGetNextBasicBlock(b)
        def operand(v):
            c = const(v)
            if c is not None: return c
            if L.LLVMIsAArgument(v) or L.LLVMIsAInstruction(v): return ('r', reg(v))
            return ('u',)
        for b in order:
            blk = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                opn = L.LLVMGetInstructionOpcode(i)
                I = Ins(); I.op = OPC.get(opn, 'op%d' % opn); I.x = None; I.fn = F.name; I.bb = bbs[b]
                t = L.LLVMTypeOf(i); k = tkind(t)
                I.w = width(t)
                I.dst = reg(i) if k != 0 else None
                I.line = L.LLVMGetDebugLocLine(i)
                fl = C.c_uint()
                p = L.LLVMGetDebugLocFilename(i, C.byref(fl)) if I.line else None
                I.file = C.string_at(p, fl.value).decode() if p else None
                if I.file:
                    j = I.file.find('/src/')
                    I.file = I.file[j + 1:] if j >= 0 else os.path.basename(I.file)
                    if F.file is None: F.file, F.line = I.file, I.line
                o = I.op
                n = L.LLVMGetNumOperands(i)
                ops = lambda: tuple(operand(L.LLVMGetOperand(i, j)) for j in range(n))
                skip = False
                if o == 'br':
                    if L.LLVMIsConditional(i):
                        I.a = (operand(L.LLVMGetOperand(i, 0)),)
                        I.x = (bbs[L.LLVMGetSuccessor(i, 0)], bbs[L.LLVMGetSuccessor(i, 1)])
                    else:
                        I.a = (); I.x = (bbs[L.LLVMGetSuccessor(i, 0)],)
                elif o == 'switch':
                    v0 = L.LLVMGetOperand(i, 0)
                    I.a = (operand(v0),); I.w = width(L.LLVMTypeOf(v0))
                    cases = []
                    for j in range(2, n, 2):
                        cases.append((L.LLVMConstIntGetSExtValue(L.LLVMGetOperand(i, j)), bbs[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, j + 1))]))
                    I.x = (bbs[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, 1))], tuple(cases))
                elif o == 'phi':
                    I.a = (); I.x = {}
                    for j in range(L.LLVMCountIncoming(i)):
                        I.x[bbs[L.LLVMGetIncomingBlock(i, j)]] = operand(L.LLVMGetIncomingValue(i, j))
                elif o == 'icmp':
                    I.a = ops(); I.x = PRED[L.LLVMGetICmpPredicate(i)]
                    I.w = width(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
                    I.a = ops(); I.x = width(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif o == 'load':
                    I.a = ops(); I.x = (L.LLVMStoreSizeOfType(dl, t), isptr(t), L.LLVMGetOrdering(i) != 0)
                elif o == 'store':
                    vt = L.LLVMTypeOf(L.LLVMGetOperand(i, 0))
                    I.a = ops(); I.x = (L.LLVMStoreSizeOfType(dl, vt), isptr(vt), L.LLVMGetOrdering(i) != 0)
                elif o == 'gep':
                    c, var = gep_offset(L.LLVMGetGEPSourceElementType(i), [L.LLVMGetOperand(i, j) for j in range(1, n)])
                    I.a = (operand(L.LLVMGetOperand(i, 0)),)
                    I.x = (c, tuple((operand(v), s, width(L.LLVMTypeOf(v))) for v, s in var))
                elif o == 'alloca':
                    I.a = ops(); I.x = L.LLVMABISizeOfType(dl, L.LLVMGetAllocatedType(i))
                elif o == 'call':
                    na = L.LLVMGetNumArgOperands(i)
                    cv = L.LLVMGetCalledValue(i)
                    if L.LLVMIsAInlineAsm(cv):
                        I.a = (); I.x = ('asm',)
                    else:
                        callee = operand(cv)
                        if isinstance(callee, tuple) and callee[0] == 'f' and callee[1].startswith('llvm.dbg.'):
                            skip = True
                        if isinstance(callee, tuple) and callee[0] == 'f' and callee[1].startswith('llvm.lifetime'):
                            skip = True
                        if not skip:
                            args = []; aw = []
                            for j in range(na):
                                av = L.LLVMGetOperand(i, j); args.append(operand(av)); aw.append(width(L.LLVMTypeOf(av)))
                            I.a = tuple(args); I.x = (callee, tuple(aw), isptr(t))
                elif o == 'atomicrmw':
                    I.a = ops(); I.x = (RMW.get(L.LLVMGetAtomicRMWBinOp(i)), L.LLVMStoreSizeOfType(dl, t))
                elif o == 'cmpxchg':
                    vt = L.LLVMTypeOf(L.LLVMGetOperand(i, 1))
                    I.a = ops(); I.x = L.LLVMStoreSizeOfType(dl, vt)
                elif o in ('extractvalue', 'insertvalue'):
                    I.a = ops(); ni = L.LLVMGetNumIndices(i); ix = L.LLVMGetIndices(i); I.x = tuple(ix[j] for j in range(ni))
                elif o in ('add', 'sub', 'mul', 'shl'):
                    I.a = ops(); I.x = (bool(L.LLVMGetNSW(i)), bool(L.LLVMGetNUW(i)))
                elif o == 'ret':
                    I.a = ops()
                    if n: F.retw = width(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif o == 'select':
                    I.a = ops()
                else:
                    I.a = ops()
                if not skip:
                    I.idx = len(blk); blk.append(I)
                i = L.LLVMGetNextInstruction(i)
            F.blocks.append(blk)
        F.nregs = len(regs)
        analyse_cfg(F)
        fnv = L.LLVMGetNextFunction(fnv)
    return M

def succs(blk):
    t = blk[-1]
    if t.op == 'br': return list(t.x)
    if t.op == 'switch': return [t.x[0]] + [b for _, b in t.x[1]]
    return []

def analyse_cfg(F):
    n = len(F.blocks)
    S = [succs(b) for b in F.blocks]
    F.preds = [[] for _ in range(n)]
    for i, s in enumerate(S):
        for j in set(s): F.preds[j].append(i)
    # loop heads: targets of DFS back edges
    F.loopheads = set()
    color = [0] * n; st = [(0, iter(S[0]))]; color[0] = 1
    while st:
        u, it = st[-1]
        for v in it:
            if color[v] == 1: F.loopheads.add(v)
            elif color[v] == 0:
                color[v] = 1; st.append((v, iter(S[v]))); break
        else:
            color[u] = 2; st.pop()
