"""Load LLVM IR (bitcode or text) through the libLLVM-18 C API into plain Python objects."""
import ctypes, ctypes.util, os
from ctypes import c_void_p as P, c_char_p, c_uint, c_int, c_ulonglong, c_size_t, byref, POINTER, c_longlong

_lib = None
def lib():
    global _lib
    if _lib: return _lib
    for n in ('/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', 'libLLVM-18.so.1', 'libLLVM.so.18.1'):
        try:
            _lib = ctypes.CDLL(n); break
        except OSError:
            pass
    if _lib is None: raise RuntimeError('libLLVM-18 not found')
    def d(name, res, *args):
        f = getattr(_lib, name); f.restype = res; f.argtypes = list(args)
    d('LLVMContextCreate', P)
    d('LLVMCreateMemoryBufferWithContentsOfFile', c_int, c_char_p, POINTER(P), POINTER(c_char_p))
    d('LLVMParseIRInContext', c_int, P, P, POINTER(P), POINTER(c_char_p))
    d('LLVMGetModuleDataLayout', P, P)
    for n in ('LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
              'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMTypeOf', 'LLVMGetFirstParam', 'LLVMGetNextParam',
              'LLVMGetFirstGlobal', 'LLVMGetNextGlobal', 'LLVMGetInitializer', 'LLVMGlobalGetValueType', 'LLVMGetAllocatedType',
              'LLVMGetCalledValue', 'LLVMGetCalledFunctionType', 'LLVMGetGEPSourceElementType', 'LLVMGetElementType', 'LLVMBasicBlockAsValue',
              'LLVMGetReturnType', 'LLVMValueAsBasicBlock', 'LLVMGetSwitchDefaultDest', 'LLVMGetCondition', 'LLVMIsAGlobalAlias', 'LLVMAliasGetAliasee'):
        d(n, P, P)
    for n in ('LLVMIsDeclaration', 'LLVMCountParams', 'LLVMGetInstructionOpcode', 'LLVMGetICmpPredicate', 'LLVMGetNumOperands',
              'LLVMGetTypeKind', 'LLVMGetIntTypeWidth', 'LLVMGetValueKind', 'LLVMIsConditional', 'LLVMCountStructElementTypes',
              'LLVMGetNumSuccessors', 'LLVMGetNumArgOperands', 'LLVMCountIncoming', 'LLVMGetConstOpcode', 'LLVMGetAlignment',
              'LLVMIsGlobalConstant', 'LLVMGetNumIndices', 'LLVMGetArrayLength', 'LLVMGetVectorSize', 'LLVMGetDebugLocLine',
              'LLVMIsConstantString', 'LLVMIsFunctionVarArg', 'LLVMIsPackedStruct'):
        d(n, c_uint, P)
    d('LLVMGetOperand', P, P, c_uint)
    d('LLVMGetParam', P, P, c_uint)
    d('LLVMGetSuccessor', P, P, c_uint)
    d('LLVMGetIncomingValue', P, P, c_uint)
    d('LLVMGetIncomingBlock', P, P, c_uint)
    d('LLVMStructGetTypeAtIndex', P, P, c_uint)
    d('LLVMGetAggregateElement', P, P, c_uint)
    d('LLVMConstIntGetZExtValue', c_ulonglong, P)
    d('LLVMOffsetOfElement', c_ulonglong, P, P, c_uint)
    d('LLVMABISizeOfType', c_ulonglong, P, P)
    d('LLVMStoreSizeOfType', c_ulonglong, P, P)
    d('LLVMABIAlignmentOfType', c_uint, P, P)
    d('LLVMGetValueName2', c_char_p, P, POINTER(c_size_t))
    d('LLVMPrintValueToString', c_char_p, P)
    d('LLVMGetIndices', POINTER(c_uint), P)
    d('LLVMGetAsString', P, P, POINTER(c_size_t))
    d('LLVMGetDebugLocFilename', P, P, POINTER(c_uint))
    d('LLVMGetArrayLength2', c_ulonglong, P)
    d('LLVMGetUndefMaskElem', c_int)
    d('LLVMGetNumMaskElements', c_uint, P)
    d('LLVMGetMaskValue', c_int, P, c_uint)
    return _lib

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 8: 'add', 10: 'sub', 12: 'mul', 14: 'udiv', 15: 'sdiv', 17: 'urem',
       18: 'srem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 44: 'phi', 45: 'call', 46: 'select',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 60: 'bitcast', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}

# type kinds
TK_VOID, TK_INT, TK_FUNC, TK_STRUCT, TK_ARRAY, TK_PTR, TK_VEC, TK_META = 0, 8, 9, 10, 11, 12, 13, 14
TK_LABEL = 7

class Ty:
    """kind: 'int','ptr','struct','array','void','vec','float','other'"""
    __slots__ = ('kind', 'w', 'size', 'align', 'elems', 'offs', 'n', 'store')
    def __repr__(self): return 'Ty(%s,%s)' % (self.kind, self.w or self.size)

class Instr:
    __slots__ = ('op', 'dst', 'ops', 'ty', 'x', 'loc', 'fn')
    def __repr__(self): return '%s r%s %r %r @%s' % (self.op, self.dst, self.ops, self.x, self.loc)

class Block:
    __slots__ = ('name', 'idx', 'phis', 'ins', 'succs')

class Func:
    __slots__ = ('name', 'params', 'blocks', 'nregs', 'rty', 'decl', 'loops', 'addr', 'vararg', 'noret')

class Glob:
    __slots__ = ('name', 'ty', 'init', 'const', 'align', 'addr')

# operand encodings: ('r', idx) | ('k', ConstTree)
# constants: ('int', v, w) ('null',) ('undef', Ty) ('glob', name) ('func', name) ('add', c, off) ('agg', [..], Ty) ('zero', Ty) ('bytes', b, Ty) ('expr',op,args,Ty)

class Module:
    def __init__(self, path):
        L = lib()
        ctx = L.LLVMContextCreate()
        buf = P(); err = c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(err)):
            raise RuntimeError('cannot read %s' % path)
        m = P()
        if L.LLVMParseIRInContext(ctx, buf, byref(m), byref(err)):
            raise RuntimeError('parse: %s' % err.value)
        self.L = L; self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self._ty = {}
        self._name = {}
        self.funcs = {}; self.globs = {}
        self._raw = {}
        g = L.LLVMGetFirstGlobal(m)
        while g:
            G = Glob(); G.name = self.name(g)
            G.ty = self.ty(L.LLVMGlobalGetValueType(g)); G.const = bool(L.LLVMIsGlobalConstant(g))
            G.align = max(L.LLVMGetAlignment(g), 1); G.addr = None
            G.init = ('raw', g) if not L.LLVMIsDeclaration(g) else None
            self.globs[G.name] = G
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(m)
        while f:
            F = Func(); F.name = self.name(f)
            F.decl = bool(L.LLVMIsDeclaration(f)); F.blocks = None; F.loops = None; F.addr = None
            F.params = None
            self.funcs[F.name] = F; self._raw[F.name] = f
            f = L.LLVMGetNextFunction(f)

    def name(self, v):
        n = c_size_t()
        s = self.L.LLVMGetValueName2(v, byref(n))
        return s[:n.value].decode() if s else ''

    def ginit(self, G):
        if isinstance(G.init, tuple) and G.init[0] == 'raw':
            G.init = self.const(self.L.LLVMGetInitializer(G.init[1]))
        return G.init

    def ty(self, t):
        r = self._ty.get(t)
        if r: return r
        L = self.L
        k = L.LLVMGetTypeKind(t)
        r = Ty(); r.w = None; r.elems = None; r.offs = None; r.n = 0; r.size = 0; r.align = 1; r.store = 0
        self._ty[t] = r
        if k == TK_INT:
            r.kind = 'int'; r.w = L.LLVMGetIntTypeWidth(t)
        elif k == TK_PTR:
            r.kind = 'ptr'; r.w = 64
        elif k == TK_VOID:
            r.kind = 'void'; return r
        elif k == TK_STRUCT:
            r.kind = 'struct'
            n = L.LLVMCountStructElementTypes(t)
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.offs = [0] * n
        elif k == TK_ARRAY:
            r.kind = 'array'; r.n = L.LLVMGetArrayLength2(t)
            e = self.ty(L.LLVMGetElementType(t)); r.elems = e
        elif k == TK_VEC:
            r.kind = 'vec'; r.n = L.LLVMGetVectorSize(t); r.elems = self.ty(L.LLVMGetElementType(t))
        elif k in (2, 3):
            r.kind = 'float'; r.w = 32 if k == 2 else 64
        else:
            r.kind = 'other'
            return r
        r.size = L.LLVMABISizeOfType(self.dl, t); r.align = L.LLVMABIAlignmentOfType(self.dl, t)
        r.store = L.LLVMStoreSizeOfType(self.dl, t)
        return r

    # -- constants
    def const(self, v):
        L = self.L
        k = L.LLVMGetValueKind(v)
        # LLVMValueKind enum (18): Argument0 BB1 MemUse2 MemDef3 MemPhi4 Function5 GAlias6 GIFunc7 GVar8 BlockAddr9 CExpr10 CArray11 CStruct12 CVector13
        # Undef14 AggZero15 DataArray16 DataVector17 CInt18 CFP19 CNull20 TokenNone21 MDasV22 InlineAsm23 Inst24 Poison25
        if k == 18:
            w = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(v))
            if w <= 64: return ('int', L.LLVMConstIntGetZExtValue(v), w)
            s = L.LLVMPrintValueToString(v).decode().split()[-1]
            return ('int', int(s) & ((1 << w) - 1), w)
        if k == 20: return ('int', 0, 64)
        if k in (14, 25): return ('undef', self.ty(L.LLVMTypeOf(v)))
        if k == 8: return ('glob', self.name(v))
        if k == 5: return ('func', self.name(v))
        if k == 6: return self.const(L.LLVMAliasGetAliasee(v))
        ty = self.ty(L.LLVMTypeOf(v))
        if k == 15: return ('zero', ty)
        if k in (11, 12, 13):
            n = L.LLVMGetNumOperands(v)
            return ('agg', [self.const(L.LLVMGetOperand(v, i)) for i in range(n)], ty)
        if k in (16, 17):
            if L.LLVMIsConstantString(v):
                n = c_size_t(); p = L.LLVMGetAsString(v, byref(n))
                return ('bytes', ctypes.string_at(p, n.value), ty)
            return ('agg', [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(ty.n)], ty)
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            if op == 'gep':
                src = self.ty(L.LLVMGetGEPSourceElementType(v))
                n = L.LLVMGetNumOperands(v)
                base = self.const(L.LLVMGetOperand(v, 0))
                off, dyn = self.gep(src, [self.const(L.LLVMGetOperand(v, i)) for i in range(1, n)])
                assert not dyn
                return ('expr', 'add', [base, ('int', off & (2**64 - 1), 64)], ty)
            n = L.LLVMGetNumOperands(v)
            x = None
            if op == 'icmp': x = ICMP[L.LLVMGetICmpPredicate(v)]
            return ('expr', op if x is None else 'icmp.' + x, [self.const(L.LLVMGetOperand(v, i)) for i in range(n)], ty)
        if k == 19: return ('undef', ty)
        if k == 23: return ('asm',)
        return ('other', k)

    def gep(self, src, idx):
        """idx: list of ('int',..) constants or ('r',i). Returns (const offset, [(operand, scale, width)])."""
        off = 0; dyn = []
        cur = None
        for i, o in enumerate(idx):
            if i == 0:
                sz = src.size; nxt = src
            else:
                if cur.kind == 'struct':
                    off += cur.offs[o[1]]; cur = cur.elems[o[1]]; continue
                nxt = cur.elems; sz = nxt.size
            if o[0] == 'int':
                v = o[1]; w = o[2]
                if v >> (w - 1): v -= 1 << w
                off += v * sz
            else:
                dyn.append((o, sz))
            cur = nxt
        return off, dyn

    # -- functions
    def func(self, name):
        F = self.funcs.get(name)
        if F is None or F.decl or F.blocks is not None: return F
        L = self.L; f = self._raw[name]
        regs = {}
        F.params = []
        for i in range(L.LLVMCountParams(f)):
            p = L.LLVMGetParam(f, i)
            regs[p] = len(regs)
            F.params.append(self.ty(L.LLVMTypeOf(p)))
        blocks = []; bidx = {}
        b = L.LLVMGetFirstBasicBlock(f)
        insts = []
        while b:
            B = Block(); B.idx = len(blocks); B.phis = []; B.ins = []; B.succs = []
            bidx[L.LLVMBasicBlockAsValue(b)] = B.idx
            bidx[b] = B.idx
            B.name = self.name(L.LLVMBasicBlockAsValue(b))
            il = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                regs[i] = len(regs); il.append(i)
                i = L.LLVMGetNextInstruction(i)
            insts.append(il); blocks.append(B)
            b = L.LLVMGetNextBasicBlock(b)
        def opnd(v):
            r = regs.get(v)
            if r is not None: return ('r', r)
            return self.const(v)
        locc = {}
        for B, il in zip(blocks, insts):
            for i in il:
                I = Instr(); I.fn = F.name
                I.op = OPC.get(L.LLVMGetInstructionOpcode(i), None)
                if I.op is None:
                    I.op = 'unsupported'; I.x = L.LLVMPrintValueToString(i).decode(errors='replace')[:200]
                    I.ops = []; I.ty = None; I.dst = regs[i]; I.loc = None
                    B.ins.append(I); continue
                I.dst = regs[i]; I.ty = self.ty(L.LLVMTypeOf(i)); I.x = None
                ln = L.LLVMGetDebugLocLine(i)
                if ln:
                    n = c_uint(); p = L.LLVMGetDebugLocFilename(i, byref(n))
                    fn = ctypes.string_at(p, n.value).decode() if p else '?'
                    I.loc = (fn, ln)
                else: I.loc = None
                op = I.op
                if op == 'phi':
                    n = L.LLVMCountIncoming(i)
                    I.x = {}
                    for j in range(n):
                        I.x[bidx[L.LLVMGetIncomingBlock(i, j)]] = opnd(L.LLVMGetIncomingValue(i, j))
                    I.ops = []
                    B.phis.append(I); continue
                if op == 'br':
                    if L.LLVMIsConditional(i):
                        I.ops = [opnd(L.LLVMGetCondition(i))]
                        I.x = (bidx[L.LLVMGetSuccessor(i, 0)], bidx[L.LLVMGetSuccessor(i, 1)])
                    else:
                        I.ops = []; I.x = (bidx[L.LLVMGetSuccessor(i, 0)],)
                    B.succs = list(I.x)
                elif op == 'switch':
                    n = L.LLVMGetNumSuccessors(i)
                    I.ops = [opnd(L.LLVMGetOperand(i, 0))]
                    # operands: cond, default, val, dest, ...
                    cs = []
                    for j in range(1, n):
                        c = self.const(L.LLVMGetOperand(i, 2 * j))
                        cs.append((c[1], bidx[L.LLVMGetSuccessor(i, j)]))
                    I.x = (bidx[L.LLVMGetSwitchDefaultDest(i)], cs)
                    B.succs = [I.x[0]] + [c[1] for c in cs]
                elif op in ('call', 'invoke'):
                    n = L.LLVMGetNumArgOperands(i)
                    cv = L.LLVMGetCalledValue(i)
                    I.ops = []
                    for j in range(n):
                        a = L.LLVMGetOperand(i, j)
                        if L.LLVMGetTypeKind(L.LLVMTypeOf(a)) == TK_META: I.ops.append(None)
                        else: I.ops.append(opnd(a))
                    I.x = opnd(cv)
                    if op == 'invoke': I.op = 'unsupported'; I.x = 'invoke'
                elif op == 'alloca':
                    t = self.ty(L.LLVMGetAllocatedType(i))
                    I.x = (t, max(L.LLVMGetAlignment(i), 1)); I.ops = [opnd(L.LLVMGetOperand(i, 0))]
                elif op == 'gep':
                    n = L.LLVMGetNumOperands(i)
                    src = self.ty(L.LLVMGetGEPSourceElementType(i))
                    off, dyn = self.gep(src, [opnd(L.LLVMGetOperand(i, j)) for j in range(1, n)])
                    I.ops = [opnd(L.LLVMGetOperand(i, 0))]
                    I.x = (off, dyn)
                elif op in ('load', 'store'):
                    I.ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i))]
                    al = L.LLVMGetAlignment(i)
                    if op == 'store':
                        I.ty = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    I.x = al
                elif op == 'icmp':
                    I.x = ICMP[L.LLVMGetICmpPredicate(i)]
                    I.ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(2)]
                    I.ty = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif op in ('extractvalue', 'insertvalue'):
                    n = L.LLVMGetNumIndices(i); ix = L.LLVMGetIndices(i)
                    I.x = [ix[j] for j in range(n)]
                    I.ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i))]
                    if op == 'extractvalue': pass
                elif op == 'shufflevector':
                    I.ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(2)]
                    I.x = [L.LLVMGetMaskValue(i, j) for j in range(L.LLVMGetNumMaskElements(i))]
                else:
                    I.ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i))]
                B.ins.append(I)
        F.blocks = blocks; F.nregs = len(regs)
        F.loops = find_loops(blocks)
        return F

def find_loops(blocks):
    """Natural loops: header idx -> set(body idx). Merges loops sharing a header."""
    n = len(blocks)
    preds = [[] for _ in range(n)]
    for b in blocks:
        for s in b.succs: preds[s].append(b.idx)
    # RPO
    order = []; seen = set()
    st = [(0, iter(blocks[0].succs))]; seen.add(0)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v); st.append((v, iter(blocks[v].succs))); break
        else:
            order.append(u); st.pop()
    order.reverse()
    pos = {b: i for i, b in enumerate(order)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            nd = None
            for p in preds[b]:
                if p in idom:
                    if nd is None: nd = p
                    else:
                        x, y = p, nd
                        while x != y:
                            while pos[x] > pos[y]: x = idom[x]
                            while pos[y] > pos[x]: y = idom[y]
                        nd = x
            if nd is not None and idom.get(b) != nd:
                idom[b] = nd; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    loops = {}
    for u in order:
        for v in blocks[u].succs:
            if v in pos and dom(v, u):
                body = loops.setdefault(v, {v})
                st = [u]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(p for p in preds[x] if p in pos)
            elif v in pos and pos[v] <= pos[u]:
                loops.setdefault(('irr', v), set())
    return loops
