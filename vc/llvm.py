"""Loads LLVM IR (bitcode or text) through the LLVM-C API into plain Python objects, lazily per function."""
import ctypes as C, sys, os, glob

def _find_lib():
    for p in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so',
              '/usr/lib/llvm-18/lib/libLLVM.so.1'):
        if os.path.exists(p): return p
    g = glob.glob('/usr/lib/**/libLLVM-18*.so*', recursive=True)
    if g: return g[0]
    raise RuntimeError('libLLVM-18 not found')

L = C.CDLL(_find_lib())
P = C.c_void_p
def _d(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f

_d('LLVMContextCreate', P)
_d('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
_d('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
_d('LLVMGetModuleDataLayout', P, P)
for n in ('LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstGlobal', 'LLVMGetNextGlobal',
          'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock', 'LLVMGetFirstInstruction', 'LLVMGetNextInstruction',
          'LLVMTypeOf', 'LLVMGlobalGetValueType', 'LLVMGetInitializer', 'LLVMGetElementType', 'LLVMGetReturnType',
          'LLVMGetCalledValue', 'LLVMGetCalledFunctionType', 'LLVMGetNormalDest', 'LLVMGetUnwindDest',
          'LLVMGetAllocatedType', 'LLVMGetGEPSourceElementType', 'LLVMBasicBlockAsValue', 'LLVMValueAsBasicBlock',
          'LLVMGetFirstGlobalAlias', 'LLVMGetNextGlobalAlias', 'LLVMAliasGetAliasee', 'LLVMGetEntryBasicBlock'):
    _d(n, P, P)
for n in ('LLVMGetTypeKind', 'LLVMGetNumOperands', 'LLVMGetInstructionOpcode', 'LLVMGetConstOpcode',
          'LLVMGetICmpPredicate', 'LLVMGetFCmpPredicate', 'LLVMIsDeclaration', 'LLVMGetNSW', 'LLVMGetNUW', 'LLVMGetExact',
          'LLVMCountParams', 'LLVMCountParamTypes', 'LLVMCountStructElementTypes', 'LLVMGetIntTypeWidth',
          'LLVMGetValueKind', 'LLVMIsGlobalConstant', 'LLVMGetNumIndices', 'LLVMIsCleanup', 'LLVMGetNumClauses',
          'LLVMCountIncoming', 'LLVMGetArrayLength', 'LLVMGetVectorSize', 'LLVMIsVarArg', 'LLVMIsFunctionVarArg',
          'LLVMGetInstructionCallConv','LLVMGetNumArgOperands','LLVMIsConditional','LLVMIsPackedStruct','LLVMGetNumSuccessors',
          'LLVMIsConstant'):
    try: _d(n, C.c_uint, P)
    except AttributeError: pass
_d('LLVMGetNumMaskElements', C.c_uint, P); _d('LLVMGetMaskValue', C.c_int, P, C.c_uint)
_d('LLVMGetIndices', C.POINTER(C.c_uint), P)
_d('LLVMGetOperand', P, P, C.c_uint)
_d('LLVMGetParam', P, P, C.c_uint)
_d('LLVMGetClause', P, P, C.c_uint)
_d('LLVMGetIncomingValue', P, P, C.c_uint)
_d('LLVMGetIncomingBlock', P, P, C.c_uint)
_d('LLVMGetSuccessor', P, P, C.c_uint)
_d('LLVMGetValueName2', C.c_void_p, P, C.POINTER(C.c_size_t))
_d('LLVMGetStructName', C.c_char_p, P)
_d('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
_d('LLVMGetParamTypes', None, P, C.POINTER(P))
_d('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
_d('LLVMABISizeOfType', C.c_ulonglong, P, P)
_d('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
_d('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
_d('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
_d('LLVMIsConstantString', C.c_int, P)
_d('LLVMGetAsString', C.c_void_p, P, C.POINTER(C.c_size_t))
_d('LLVMGetElementAsConstant', P, P, C.c_uint)
_d('LLVMPrintValueToString', C.c_void_p, P)
_d('LLVMPrintTypeToString', C.c_void_p, P)
_d('LLVMDisposeMessage', None, C.c_void_p)
_d('LLVMGetDebugLocLine', C.c_uint, P)
_d('LLVMGetDebugLocFilename', C.c_void_p, P, C.POINTER(C.c_uint))
_d('LLVMGetDebugLocDirectory', C.c_void_p, P, C.POINTER(C.c_uint))
_d('LLVMGetInlineAsm' if False else 'LLVMGetOrdering', C.c_uint, P)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
 8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
 20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',
 39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',
 55:'fence',56:'atomiccmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = ['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']
# value kinds
VK_ARG, VK_BB = 0, 1
VK = {0:'arg',1:'bb',5:'func',6:'alias',7:'ifunc',8:'global',9:'blockaddress',10:'constexpr',11:'constarray',12:'conststruct',13:'constvector',
      14:'undef',15:'zero',16:'dataarray',17:'datavector',18:'int',19:'fp',20:'null',21:'tokennone',22:'metadata',23:'asm',24:'inst',25:'poison'}

def _s(p, n=None):
    if not p: return ""
    return (C.string_at(p) if n is None else C.string_at(p, n)).decode('utf8', 'replace')

class Type:
    __slots__ = ('kind', 'n', 'elts', 'offs', 'size', 'store', 'name')
    def __repr__(self): return self.name

class Inst:
    __slots__ = ('op', 'ty', 'ops', 'id', 'name', 'x', 'line', 'file', 'block', 'ptr', 'coff')
    def __repr__(self): return '<%s %s>' % (self.op, self.id)

class Block:
    __slots__ = ('id', 'name', 'insts', 'fn')

class Function:
    __slots__ = ('name', 'ref', 'mod', 'decl', 'params', 'ret', 'vararg', '_blocks', 'entry', '_info', 'ptypes')
    def blocks(self):
        if self._blocks is None: self.mod._decode(self)
        return self._blocks

class Global:
    __slots__ = ('name', 'ref', 'ty', 'const', 'init_ref', 'obj')

class Module:
    def __init__(self, path):
        self.ctx = L.LLVMContextCreate()
        buf = P(); err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError('cannot read %s: %s' % (path, err.value))
        m = P()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError('cannot parse %s: %s' % (path, err.value))
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.funcs = {}
        self.byref = {}
        self.globals = {}
        self.vals = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Function(); fn.ref = f; fn.mod = self; fn.name = self._name(f); fn.decl = bool(L.LLVMIsDeclaration(f))
            fn._blocks = None; fn._info = None
            ft = L.LLVMGlobalGetValueType(f)
            fn.ret = self.type(L.LLVMGetReturnType(ft)); fn.vararg = bool(L.LLVMIsFunctionVarArg(ft))
            n = L.LLVMCountParams(f)
            fn.params = [L.LLVMGetParam(f, i) for i in range(n)]
            fn.ptypes = [self.type(L.LLVMTypeOf(p)) for p in fn.params]
            self.funcs[fn.name] = fn; self.byref[f] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            gv = Global(); gv.ref = g; gv.name = self._name(g); gv.ty = self.type(L.LLVMGlobalGetValueType(g))
            gv.const = bool(L.LLVMIsGlobalConstant(g)); gv.init_ref = None if L.LLVMIsDeclaration(g) else L.LLVMGetInitializer(g)
            gv.obj = None
            self.globals[gv.name] = gv; self.byref[g] = gv
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.byref[a] = ('alias', L.LLVMAliasGetAliasee(a)); 
            nm = self._name(a)
            a2 = L.LLVMAliasGetAliasee(a)
            if a2 in self.byref and isinstance(self.byref[a2], Function): self.funcs.setdefault(nm, self.byref[a2])
            a = L.LLVMGetNextGlobalAlias(a)

    def _name(self, v):
        n = C.c_size_t(); p = L.LLVMGetValueName2(v, C.byref(n)); return _s(p, n.value)

    def type(self, t):
        r = self.types.get(t)
        if r is not None: return r
        k = L.LLVMGetTypeKind(t)
        r = Type(); self.types[t] = r
        r.n = 0; r.elts = None; r.offs = None; r.size = r.store = 0
        sp = L.LLVMPrintTypeToString(t); r.name = _s(sp); L.LLVMDisposeMessage(sp)
        kinds = {0:'void',1:'half',2:'float',3:'double',4:'x86_fp80',5:'fp128',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata',16:'token'}
        r.kind = kinds.get(k, 'other%d' % k)
        if r.kind == 'int': r.n = L.LLVMGetIntTypeWidth(t)
        elif r.kind == 'struct':
            n = L.LLVMCountStructElementTypes(t)
            if ' type opaque' in r.name or (n == 0 and 'opaque' in r.name): r.elts = []; r.offs = []; return r
            r.elts = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try: r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
            except Exception: r.offs = []
        elif r.kind == 'array':
            r.n = L.LLVMGetArrayLength(t); r.elts = [self.type(L.LLVMGetElementType(t))]
        elif r.kind == 'vector':
            r.n = L.LLVMGetVectorSize(t); r.elts = [self.type(L.LLVMGetElementType(t))]
        if r.kind in ('half','float','double','x86_fp80','fp128','int','struct','array','ptr','vector'):
            r.size = L.LLVMABISizeOfType(self.td, t); r.store = L.LLVMStoreSizeOfType(self.td, t)
        return r

    # operand decoding: returns tuples
    def val(self, v):
        r = self.vals.get(v)
        if r is not None: return r
        k = VK.get(L.LLVMGetValueKind(v), '?')
        if k in ('inst', 'arg'): r = ('reg', v)
        elif k == 'int':
            ty = self.type(L.LLVMTypeOf(v))
            if ty.n <= 64: x = L.LLVMConstIntGetZExtValue(v) & ((1 << ty.n) - 1)
            else:
                sp = L.LLVMPrintValueToString(v); s = _s(sp); L.LLVMDisposeMessage(sp)
                x = int(s.split()[-1]) & ((1 << ty.n) - 1)
            r = ('int', x, ty)
        elif k == 'fp':
            ty = self.type(L.LLVMTypeOf(v))
            lossy = C.c_int(); d = L.LLVMConstRealGetDouble(v, C.byref(lossy)); r = ('fp', d, ty)
        elif k == 'null': r = ('null',)
        elif k in ('undef', 'poison'): r = ('undef', self.type(L.LLVMTypeOf(v)))
        elif k == 'zero': r = ('zero', self.type(L.LLVMTypeOf(v)))
        elif k == 'func': r = ('func', self.byref[v].name)
        elif k == 'global': r = ('global', self.byref[v].name)
        elif k == 'alias': r = self.val(L.LLVMAliasGetAliasee(v))
        elif k in ('constarray', 'conststruct', 'constvector'):
            ty = self.type(L.LLVMTypeOf(v))
            r = ('agg', [self.val(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))], ty)
        elif k in ('dataarray', 'datavector'):
            ty = self.type(L.LLVMTypeOf(v))
            if L.LLVMIsConstantString(v):
                n = C.c_size_t(); p = L.LLVMGetAsString(v, C.byref(n)); r = ('bytes', C.string_at(p, n.value), ty)
            else: r = ('agg', [self.val(L.LLVMGetElementAsConstant(v, i)) for i in range(ty.n)], ty)
        elif k == 'constexpr':
            op = OPC[L.LLVMGetConstOpcode(v)]; ty = self.type(L.LLVMTypeOf(v))
            x = None
            if op == 'getelementptr': x = self.type(L.LLVMGetGEPSourceElementType(v))
            elif op == 'icmp': x = ICMP[L.LLVMGetICmpPredicate(v)]
            ops = [L.LLVMGetOperand(v, i) for i in range(L.LLVMGetNumOperands(v))]
            r = ('cexpr', op, [self.val(o) for o in ops], ty, x, [self.type(L.LLVMTypeOf(o)) for o in ops])
        elif k == 'metadata': r = ('metadata',)
        elif k == 'tokennone': r = ('undef', None)
        elif k == 'asm': r = ('asm',)
        else: raise RuntimeError('value kind %s' % L.LLVMGetValueKind(v))
        self.vals[v] = r
        return r

    def _coff(self, ins):
        """constant offset of an address computation, None if it depends on a register"""
        ty = ins.x[0]; off = 0
        for k, o in enumerate(ins.ops[1:]):
            if o[0] != 'int': return None
            ix = o[1]; w = ins.x[1][k + 1].n
            if k > 0:
                if ty.kind == 'struct': off += ty.offs[ix]; ty = ty.elts[ix]; continue
                if ty.kind != 'array': return None
                ty = ty.elts[0]
            off += (ix - (1 << w) if ix >> (w - 1) else ix) * ty.size
        return off

    def _decode(self, fn):
        blocks = {}; order = []
        b = L.LLVMGetFirstBasicBlock(fn.ref)
        n = 0
        fn.entry = L.LLVMGetEntryBasicBlock(fn.ref)
        lf = None
        while b:
            blk = Block(); blk.id = b; blk.fn = fn; blk.name = self._name(L.LLVMBasicBlockAsValue(b)) or ('bb%d' % n); blk.insts = []
            blocks[b] = blk; order.append(blk); n += 1
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ins = Inst(); ins.ptr = i; ins.id = i; ins.op = OPC.get(L.LLVMGetInstructionOpcode(i), '?%d' % L.LLVMGetInstructionOpcode(i))
                ins.ty = self.type(L.LLVMTypeOf(i)); ins.name = None; ins.block = blk; ins.x = None
                ins.line = L.LLVMGetDebugLocLine(i) if True else 0
                if ins.line:
                    ln = C.c_uint(); p = L.LLVMGetDebugLocFilename(i, C.byref(ln)); ins.file = _s(p, ln.value)
                    if ins.file == lf: ins.file = lf
                    lf = ins.file
                else: ins.file = ''
                op = ins.op
                no = L.LLVMGetNumOperands(i)
                raw = [L.LLVMGetOperand(i, k) for k in range(no)]
                if op == 'br':
                    if no == 1: ins.ops = []; ins.x = [L.LLVMValueAsBasicBlock(raw[0])]
                    else: ins.ops = [self.val(raw[0])]; ins.x = [L.LLVMGetSuccessor(i, 0), L.LLVMGetSuccessor(i, 1)]
                elif op == 'switch':
                    ins.ops = [self.val(raw[0])]
                    cases = []
                    for k in range(2, no, 2): cases.append((self.val(raw[k]), L.LLVMValueAsBasicBlock(raw[k + 1])))
                    ins.x = (L.LLVMValueAsBasicBlock(raw[1]), cases, self.type(L.LLVMTypeOf(raw[0])))
                elif op in ('call', 'invoke'):
                    cv = L.LLVMGetCalledValue(i)
                    na = L.LLVMGetNumArgOperands(i)
                    try: ins.ops = [self.val(r) for r in raw[:na]]
                    except RuntimeError: ins.ops = [('metadata',)] * na
                    cval = self.val(cv)
                    if cval[0] == 'func' and op == 'call' and cval[1].startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch')):
                        i = L.LLVMGetNextInstruction(i); continue
                    ats = [self.type(L.LLVMTypeOf(r)) for r in raw[:na]]
                    if op == 'invoke': ins.x = (cval, ats, L.LLVMGetNormalDest(i), L.LLVMGetUnwindDest(i))
                    else: ins.x = (cval, ats, None, None)
                elif op == 'phi':
                    ins.ops = []
                    ins.x = [(L.LLVMGetIncomingBlock(i, k), self.val(L.LLVMGetIncomingValue(i, k))) for k in range(L.LLVMCountIncoming(i))]
                elif op == 'landingpad':
                    ins.ops = []
                    ins.x = (bool(L.LLVMIsCleanup(i)), [(self.val(L.LLVMGetClause(i, k)), self.type(L.LLVMTypeOf(L.LLVMGetClause(i, k)))) for k in range(L.LLVMGetNumClauses(i))])
                else:
                    ins.ops = [self.val(r) for r in raw]
                    if op == 'alloca': ins.x = self.type(L.LLVMGetAllocatedType(i)); ins.name = self._name(i)
                    elif op == 'getelementptr': 
                        ins.x = (self.type(L.LLVMGetGEPSourceElementType(i)), [self.type(L.LLVMTypeOf(r)) for r in raw]); ins.coff = self._coff(ins)
                    elif op == 'icmp': ins.x = (ICMP[L.LLVMGetICmpPredicate(i)], self.type(L.LLVMTypeOf(raw[0])))
                    elif op == 'fcmp': ins.x = (FCMP[L.LLVMGetFCmpPredicate(i)], self.type(L.LLVMTypeOf(raw[0])))
                    elif op in ('extractvalue', 'insertvalue'):
                        k = L.LLVMGetNumIndices(i); idx = L.LLVMGetIndices(i); ins.x = [idx[j] for j in range(k)]
                    elif op == 'shufflevector':
                        ins.x = [L.LLVMGetMaskValue(i, k) for k in range(L.LLVMGetNumMaskElements(i))]
                    elif op in ('add', 'sub', 'mul', 'shl'): ins.x = (bool(L.LLVMGetNSW(i)), bool(L.LLVMGetNUW(i)))
                    elif op in ('store', 'trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'bitcast', 'extractelement','insertelement', 'atomicrmw','atomiccmpxchg','freeze'):
                        ins.x = [self.type(L.LLVMTypeOf(r)) for r in raw]
                        if op == 'atomicrmw':
                            sp = L.LLVMPrintValueToString(i); ins.name = _s(sp).split('atomicrmw', 1)[1].replace('volatile','').split()[0]; L.LLVMDisposeMessage(sp)
                blk.insts.append(ins)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        fn._blocks = blocks
        fn._info = order
