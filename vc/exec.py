"""Verification-condition generation by symbolic execution of LLVM IR compiled from the real sources."""
import z3, time, math, sys, os, pickle
from fractions import Fraction
from vals import *
from solve import Solver
import llvm

class Fork(Exception):
    def __init__(self, cond): self.cond = cond
class PathEnd(Exception): pass
class Restart(Exception): pass

class ArrVal:
    """functional array contents: base / store / copy / fill / lam"""
    __slots__ = ('k', 'a', 'prev', 'depth')
    def __init__(self, k, prev, *a):
        self.k = k; self.prev = prev; self.a = a; self.depth = (prev.depth + 1) if prev is not None else 0

class Region:
    """part of an object (or all of it: hi is None) held as functional arrays of equally sized elements"""
    __slots__ = ('lo', 'hi', 'stride', 'fields')
    def __init__(self, lo, hi, stride, fields): self.lo = lo; self.hi = hi; self.stride = stride; self.fields = fields

class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'arr', 'fill', 'owner', 'ro', 'name', 'maxn', 'tag')
    def __init__(self, oid, size, kind, fill='uninit', name='', owner=None):
        self.id = oid; self.size = size; self.kind = kind; self.cells = {}; self.arr = None; self.fill = fill
        self.owner = owner; self.ro = False; self.name = name; self.maxn = 1; self.tag = None
    def copy(self, owner):
        o = Obj(self.id, self.size, self.kind, self.fill, self.name, owner)
        o.cells = dict(self.cells); o.ro = self.ro; o.maxn = self.maxn; o.tag = self.tag
        if self.arr is not None: o.arr = [Region(r.lo, r.hi, r.stride, dict(r.fields)) for r in self.arr]
        return o

class Frame:
    __slots__ = ('fn', 'regs', 'block', 'ip', 'prev', 'call', 'allocas', 'loops', 'insts')
    def __init__(self, fn, block, call):
        self.fn = fn; self.regs = {}; self.block = block; self.ip = 0; self.prev = None; self.call = call; self.allocas = []
        self.loops = None; self.insts = block.insts
    def copy(self):
        f = Frame(self.fn, self.block, self.call); f.regs = dict(self.regs); f.ip = self.ip; f.prev = self.prev
        f.allocas = list(self.allocas); f.loops = dict(self.loops) if self.loops else None; f.insts = self.insts
        return f

class State:
    __slots__ = ('frames', 'mem', 'pc', 'known', 'model', 'token', 'caught', 'excinfo', 'inputs', 'steps', 'freed', 'snap', 'stubs', 'opts', 'marks', 'alive', 'depthlimit', 'log', 'visits')
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.pc = list(self.pc); s.known = dict(self.known)
        s.model = self.model; s.caught = list(self.caught); s.excinfo = dict(self.excinfo)
        s.inputs = list(self.inputs); s.steps = self.steps; s.freed = set(self.freed); s.snap = self.snap
        s.stubs = dict(self.stubs); s.opts = dict(self.opts); s.marks = dict(self.marks); s.log = list(self.log)
        s.visits = self.visits
        s.token = object(); self.token = object()
        return s

STD_BASES = {  # external typeinfo hierarchy of libstdc++
 '_ZTISt9exception': None, '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
 '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
 '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
 '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt10bad_typeid':'_ZTISt9exception','_ZTISt12domain_error':'_ZTISt11logic_error',
 '_ZTISt11range_error':'_ZTISt13runtime_error', '_ZTISt14overflow_error':'_ZTISt13runtime_error',
}

class Executor:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(timeout=10000, hard=60000, max_paths=20000, max_steps=20000000, unwind=0, wall=600, divzero='oblige',
                      overflow=True, safety=True)
        if opts: self.o.update(opts)
        self.divs = {}; self.ub = {}; self.divkeep = []
        self.S = Solver(self.o['timeout'], self.o['hard'])
        self.nobj = 1
        self.static = {}        # global/function name -> obj id
        self.objname = {}
        self.statics = {}       # obj id -> ('g', Global) | ('f', Function)
        self.fresh_n = 0
        self.oblig = {}         # name -> dict
        self.failures = []
        self.undecided = []
        self.covers = {}
        self.executed = {}      # function name -> count of entries
        self.npaths = 0; self.nended = 0
        self.uninit = {}
        self.trig = {}; self.rels = []
        self.demangled = {}
        self.dis = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}
        import builtins_vc
        self.builtins = builtins_vc.table(self)
        self.case = 0
        self.loopspecs = {}
        self.notes = {}
        self.lines = set()
        self._big = {}

    # ---------------------------------------------------------------- symbols
    def fresh(self, base, sort):
        self.fresh_n += 1
        nm = '%s!%d' % (base, self.fresh_n)
        if sort == 'real': return z3.Real(nm)
        if sort == 'bool': return z3.Bool(nm)
        return z3.BitVec(nm, sort)

    def fresh_of(self, ty, base='any'):
        if ty.kind == 'int': return self.fresh(base, 'bool' if ty.n == 1 else ty.n)
        if ty.kind in ('float', 'double', 'x86_fp80'): return self.fresh(base, 'real')
        if ty.kind == 'ptr': return Ptr(-1, 0)   # wild pointer
        if ty.kind in ('struct',): return [self.fresh_of(t, base) for t in ty.elts]
        if ty.kind in ('array', 'vector'): return [self.fresh_of(ty.elts[0], base) for _ in range(ty.n)]
        raise VCError('fresh value of ' + ty.kind)

    # ---------------------------------------------------------------- objects
    def new_obj(self, st, size, kind, fill='uninit', name=''):
        self.nobj += 1
        o = Obj(self.nobj, size, kind, fill, name, st.token)
        st.mem[self.nobj] = o
        return o

    def gobj(self, name):
        i = self.static.get(name)
        if i is None:
            self.nobj += 1; i = self.static[name] = self.nobj
            f = self.mod.funcs.get(name)
            self.statics[i] = ('f', f) if f is not None else ('g', self.mod.globals[name])
            self.objname[i] = name
        return i

    def obj(self, st, oid, what='access'):
        o = st.mem.get(oid)
        if o is not None: return o
        s = self.statics.get(oid)
        if s is not None:
            if s[0] == 'f':
                self.fail(st, 'safety: %s of a function as data' % what)
            g = s[1]
            o = Obj(oid, g.ty.size, 'global', 'uninit', g.name, None)
            if g.init_ref is not None:
                self.init_cells(o, 0, self.mod.val(g.init_ref), g.ty)
                o.ro = g.const
            else:
                self.ext_global(o, g)
            st.mem[oid] = o
            return o
        if oid == 0: self.fail(st, 'safety: null pointer %s' % what)
        if oid == -1: self.fail(st, 'safety: uninitialised pointer %s' % what)
        if oid in st.freed: self.fail(st, 'safety: %s after free or end of lifetime' % what)
        self.fail(st, 'safety: invalid pointer %s' % what)

    def ext_global(self, o, g):
        n = g.name
        if n.startswith('_ZTVN10__cxxabiv1') or n.startswith('_ZTISt') or n.startswith('_ZTVSt') or n.startswith('_ZTI'):
            o.size = 64; o.ro = True; o.fill = 'zero'; return
        o.fill = 'uninit'
        if o.size == 0: o.size = 4096

    def init_cells(self, o, off, v, ty):
        k = v[0]
        if k == 'bytes':
            for i, b in enumerate(v[1]): o.cells[off + i] = (b, 1)
            return
        if k == 'zero':
            if ty.size > 4096:
                o.fill = 'zero'; return
            self.zero_cells(o, off, ty); return
        if k == 'undef': return
        if k == 'agg':
            if ty.kind == 'struct':
                for i, x in enumerate(v[1]): self.init_cells(o, off + ty.offs[i], x, ty.elts[i])
            else:
                es = ty.elts[0].size
                for i, x in enumerate(v[1]): self.init_cells(o, off + i * es, x, ty.elts[0])
            return
        self.put(o, off, self.const(v), ty.store)

    def zero_cells(self, o, off, ty):
        if ty.kind == 'struct':
            for t, d in zip(ty.elts, ty.offs): self.zero_cells(o, off + d, t)
        elif ty.kind in ('array', 'vector'):
            for i in range(ty.n): self.zero_cells(o, off + i * ty.elts[0].size, ty.elts[0])
        else: self.put(o, off, self.zero(ty), ty.store)

    def put(self, o, off, val, n):
        o.cells[off] = (val, n)
        if n > o.maxn: o.maxn = n

    def zero(self, ty):
        if ty.kind == 'int': return 0
        if ty.kind in ('float', 'double', 'x86_fp80'): return Fraction(0)
        if ty.kind == 'ptr': return NULL
        if ty.kind == 'struct': return [self.zero(t) for t in ty.elts]
        if ty.kind in ('array', 'vector'): return [self.zero(ty.elts[0]) for _ in range(ty.n)]
        raise VCError('zero of ' + ty.kind)

    def wobj(self, st, oid, what='write'):
        o = self.obj(st, oid, what)
        if o.owner is not st.token:
            o = o.copy(st.token); st.mem[oid] = o
        return o

    # ---------------------------------------------------------------- constants
    def const(self, v):
        k = v[0]
        if k == 'int': return v[1]
        if k == 'fp': return fl(v[1])
        if k == 'null': return NULL
        if k == 'func' or k == 'global': return Ptr(self.gobj(v[1]), 0)
        if k == 'zero': return self.zero(v[1])
        if k == 'undef':
            return self.fresh_of(v[1], 'undef') if v[1] is not None and v[1].kind not in ('struct', 'array') else ([self.const(('undef', t)) for t in v[1].elts] if v[1] and v[1].kind == 'struct' else None)
        if k == 'agg': return [self.const(x) for x in v[1]]
        if k == 'bytes': return list(v[1])
        if k == 'cexpr':
            op, ops, ty, x, otys = v[1:]
            if op == 'getelementptr':
                p = self.const(ops[0]); off = self.gep_off(x, [self.const(o) for o in ops[1:]], [t.n for t in otys[1:]])
                return Ptr(p.obj, off_add(p.off, off))
            if op == 'ptrtoint': p = self.const(ops[0]); return PInt(p.obj, p.off) if p.obj else p.off
            if op == 'inttoptr': p = self.const(ops[0]); return Ptr(p.obj, p.off) if type(p) is PInt else Ptr(0, p)
            if op in ('bitcast', 'addrspacecast'): return self.const(ops[0])
            if op in ('add', 'sub', 'trunc', 'xor'):
                a = [self.const(o) for o in ops]
                if op == 'trunc': return self.trunc(a[0], ty.n)
                return self.ibin(None, op, a[0], a[1], ty.n, (False, False))
            if op == 'icmp': return self.icmp(None, x, self.const(ops[0]), self.const(ops[1]), otys[0])
            raise VCError('constant expression ' + op)
        if k == 'metadata' or k == 'asm': return None
        raise VCError('constant ' + k)

    def ev(self, fr, o):
        if o[0] == 'reg': return fr.regs[o[1]]
        k = o[0]
        if k == 'int': return o[1]
        return self.const(o)

    # ---------------------------------------------------------------- decisions
    def assume(self, st, c):
        if type(c) is int:
            if not c: raise PathEnd()
            return
        st.pc.append(c); st.known[c.get_id()] = True
        self.S.keep.append(c)

    def sat(self, st, c):
        """can c hold on this path?  c: z3 Bool"""
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)): return True
            except z3.Z3Exception: pass
        r = self.S.check(st.pc, [c])
        if r[0] == 'unknown': r = self.S.check(st.pc, [c], hard=True)
        if r[0] == 'unknown':
            self.notes['feasibility unknown (path kept)'] = self.notes.get('feasibility unknown (path kept)', 0) + 1
            return True
        return r[0] == 'sat'

    def bycoeffs(self, st, c):
        """truth of a nonlinear comparison of reals that the signs of its coefficients decide, or None"""
        d = c.arg(0) if z3.is_not(c) else c
        if not z3.is_app(d) or d.num_args() != 2 or not z3.is_real(d.arg(0)): return None
        import ratsimp
        return ratsimp.decided(c, st.pc)

    def decide(self, st, c):
        """truth of c on this path; forks the path when both are possible"""
        if type(c) is int: return bool(c)
        if not isinstance(c, z3.BoolRef): c = boolv(c)
        c = simp(c)
        if type(c) is int: return bool(c)
        neg = False
        if z3.is_not(c): neg = True; c = c.arg(0)
        k = st.known.get(c.get_id())
        if k is not None: return k != neg
        self.S.keep.append(c)
        if c.decl().kind() == z3.Z3_OP_EQ and self.ub:
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_bv_value(b) and self.ubound(a) < b.as_long(): st.known[c.get_id()] = False; return neg
        v = self.bycoeffs(st, c)
        if v is not None: st.known[c.get_id()] = v; return v != neg
        t = self.sat(st, c)
        if not t:
            st.known[c.get_id()] = False; return neg
        f = self.sat(st, z3.Not(c))
        if not f:
            st.known[c.get_id()] = True; return not neg
        raise Fork(c)

    def must(self, st, c, name, kind='ensures'):
        """obligation: c holds here on every input reaching this point; assumed afterwards"""
        if type(c) is not int:
            if not isinstance(c, z3.BoolRef): c = boolv(c)
            c = simp(c)
        if kind == 'safety' and type(c) is int and c == 1: return
        ob = self.oblig.get(name)
        if ob is None: ob = self.oblig[name] = {'kind': kind, 'n': 0, 'ok': 0, 'fail': 0, 'unknown': 0, 'time': 0.0, 'backends': {}}
        ob['n'] += 1
        if type(c) is int:
            if c: ob['ok'] += 1; ob['backends']['simplifier'] = ob['backends'].get('simplifier', 0) + 1; return
            ob['fail'] += 1
            self.record_failure(st, name, kind, None)
            raise PathEnd()
        if st.known.get(c.get_id()): ob['ok'] += 1; return
        if self.bycoeffs(st, c):
            ob['ok'] += 1; ob['backends']['sympy'] = ob['backends'].get('sympy', 0) + 1; st.known[c.get_id()] = True; self.S.keep.append(c); return
        t = time.time()
        nc = z3.Not(c)
        r = self.S.check(st.pc, [nc])
        if r[0] == 'unknown': r = self.S.check(st.pc, [nc], hard=True)
        ob['time'] += time.time() - t
        ob['backends'][r[2]] = ob['backends'].get(r[2], 0) + 1
        if r[0] == 'unsat':
            ob['ok'] += 1; st.known[c.get_id()] = True; self.S.keep.append(c); return
        if r[0] == 'sat':
            ob['fail'] += 1
            self.record_failure(st, name, kind, nc)
            if not self.sat(st, c): raise PathEnd()
            self.assume(st, c); return
        ob['unknown'] += 1
        self.undecided.append('%s at %s: solvers gave no answer' % (name, self.where(st)))
        self.assume(st, c)

    def where(self, st):
        for fr in reversed(st.frames):
            ip = fr.ip - 1
            while ip >= 0:
                i = fr.insts[ip]
                if i.line: return '%s:%d in %s' % (i.file, i.line, self.dem(fr.fn.name))
                ip -= 1
        return '?'

    def stack(self, st):
        out = []
        for fr in st.frames:
            i = fr.insts[max(0, fr.ip - 1)]
            out.append('%s:%d %s' % (i.file, i.line, self.dem(fr.fn.name)))
        return out

    def dem(self, n): return self.demangled.get(n, n)

    def record_failure(self, st, name, kind, nc):
        extra = [nc] if nc is not None else []
        r = self.S.check(st.pc, extra, full=True)
        if r[0] != 'sat': r = self.S.check(st.pc, extra, full=True, hard=True)
        f = {'name': name, 'kind': kind, 'where': self.where(st), 'stack': self.stack(st), 'inputs': None, 'case': self.case}
        if r[0] == 'unsat': return     # the path itself was infeasible
        if r[1] is not None: f['inputs'] = [self.model_input(r[1], x) for x in st.inputs]
        if len(self.failures) < 200: self.failures.append(f)

    def model_input(self, m, x):
        kind, name, bits, v = x
        if kind == 'array':
            n, kd, es, arr, lo = v
            cnt = n if type(n) is int else m.eval(n, model_completion=True).as_long()
            vals = []
            for i in range(min(cnt, 4096)):
                e = self.aread(arr, off_add(lo, i))
                vals.append(self.mval(m, e, kd))
            return ['array', name, kd, es, cnt, vals]
        return [kind, name, bits, self.mval(m, v, kind)]

    def mval(self, m, e, kind):
        if not issym(e): 
            if type(e) is Fraction: return [e.numerator, e.denominator]
            return e
        r = m.eval(e, model_completion=True)
        if kind == 'f':
            if z3.is_algebraic_value(r): r = r.approx(30)
            if z3.is_rational_value(r): return [r.numerator_as_long(), r.denominator_as_long()]
            return [0, 1]
        if z3.is_bv_value(r): return r.as_long()
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return 0

    def fail(self, st, name):
        self.must(st, 0, name, 'safety')
        raise PathEnd()

    # ---------------------------------------------------------------- arrays
    def aread(self, a, i):
        """value at element index i (python int or bv64)"""
        acc = []      # (cond, value) in order of priority
        while True:
            k = a.k
            if k == 'store':
                e = self.ieq(i, a.a[0])
                if type(e) is int:
                    if e: base = a.a[1]; break
                else: acc.append((e, a.a[1]))
                a = a.prev
            elif k == 'copy':
                lo, cnt, src, slo = a.a
                e = self.inrange(i, lo, cnt)
                if type(e) is int and e == 0: a = a.prev; continue
                v = self.aread(src, off_add(off_add(i, self.neg(lo)), slo))
                if type(e) is int: base = v; break
                acc.append((e, v)); a = a.prev
            elif k == 'fill':
                lo, cnt, v = a.a
                e = self.inrange(i, lo, cnt)
                if type(e) is int and e == 0: a = a.prev; continue
                if type(e) is int: base = v; break
                acc.append((e, v)); a = a.prev
            elif k == 'base':
                base = a.a[0](bv(i & M64 if type(i) is int else i, 64)); break
            elif k == 'const':
                base = a.a[0]; break
            else: raise VCError('array ' + k)
        for c, v in reversed(acc): base = self.ite(c, v, base)
        return base

    def neg(self, x): return -x if type(x) is int else _neg(x)
    def ieq(self, i, j):
        if type(i) is int and type(j) is int: return 1 if i == j else 0
        return simp(bv(i & M64 if type(i) is int else i, 64) == bv(j & M64 if type(j) is int else j, 64))
    def inrange(self, i, lo, cnt):
        d = off_add(i, self.neg(lo))
        if type(d) is int and type(cnt) is int: return 1 if 0 <= d < cnt else 0
        if type(cnt) is int and cnt == 0: return 0
        return simp(z3.ULT(bv(d & M64 if type(d) is int else d, 64), bv(cnt, 64)))

    def ite(self, c, a, b):
        if type(c) is int: return a if c else b
        if a is b: return a
        ta, tb = type(a), type(b)
        if ta is Ptr or tb is Ptr:
            if ta is Ptr and tb is Ptr and a.obj == b.obj:
                if type(a.off) is int and type(b.off) is int and a.off == b.off: return a
                return Ptr(a.obj, z3.If(c, bv(a.off & M64 if type(a.off) is int else a.off, 64), bv(b.off & M64 if type(b.off) is int else b.off, 64)))
            raise Fork(c)
        if ta is PInt or tb is PInt: raise Fork(c)
        if ta is list:
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if ta is float or tb is float:
            if ta is tb and (a == b): return a
            raise Fork(c)
        if ta is Fraction and tb is Fraction and a == b: return a
        if ta is int and tb is int:
            if a == b: return a
            raise VCError('ite width')
        if ta is Fraction or tb is Fraction or isinstance(a, z3.ArithRef): return z3.If(c, real(a), real(b))
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef): return z3.If(c, boolv(a), boolv(b))
        w = a.size() if issym(a) else b.size()
        return z3.If(c, bv(a, w), bv(b, w))

    def ite_w(self, c, a, b, w):
        """ite of integers of width w (both may be python ints)"""
        if type(c) is int: return a if c else b
        if type(a) is int and type(b) is int:
            if a == b: return a
            if w == 1: return c if a else z3.Not(c)
            return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        return self.ite(c, a, b)

    def base_arr(self, name, kind, bits):
        self.fresh_n += 1
        sort = z3.RealSort() if kind == 'f' else z3.BitVecSort(bits)
        return ArrVal('base', None, z3.Function('%s@%d' % (name, self.fresh_n), z3.BitVecSort(64), sort))

    def to_arr(self, o, stride, n, kind):
        """switch an object to array mode"""
        fields = {}
        for off in sorted(o.cells):
            v, cn = o.cells[off]
            fo = off % stride
            kd = self.vkind(v)
            f = fields.get(fo)
            if f is None: f = fields[fo] = [cn, kd, self.fill_arr(o, kd, cn)]
            if f[0] != cn or f[1] != kd: raise VCError('mixed cells in array object %s' % o.name)
            if kd == 'p': raise VCError('pointers in a symbolically indexed object')
            f[2] = ArrVal('store', f[2], off // stride, v)
        r = Region(0, None, stride, {k: tuple(v) for k, v in fields.items()})
        o.arr = [r]
        o.cells = {}
        return r

    def region(self, st, o, off, n):
        """the array region an access of n bytes at off falls into (None: plain cells)"""
        if o.arr is None: return None
        if o.arr[0].hi is None: return o.arr[0]
        if type(off) is int:
            for r in o.arr:
                if r.lo <= off < r.hi:
                    if type(n) is int and off + n > r.hi: raise VCError('access straddles an array member of %s' % o.name)
                    return r
            return None
        c, t = lin(off)
        bo = bv(off, 64)
        for r in o.arr:
            if r.lo <= c < r.hi or (c == r.lo and r.lo == r.hi):
                self.must(st, z3.And(z3.UGE(bo, r.lo), z3.ULE(bv(n, 64), r.hi - r.lo), z3.ULE(bo - r.lo, z3.BitVecVal(r.hi - r.lo, 64) - bv(n, 64))), 'safety: access out of bounds of an array member', 'safety')
                return r
        for r in o.arr:
            if self.decide(st, z3.And(z3.UGE(bo, r.lo), z3.ULT(bo, r.hi))): return r
        return None

    def wregion(self, st, o, r):
        """writable version: (object, region)"""
        k = o.arr.index(r)
        o = self.wobj(st, o.id)
        return o, o.arr[k]

    def fill_arr(self, o, kd, n):
        if o.fill == 'zero': return ArrVal('const', None, Fraction(0) if kd == 'f' else 0)
        return self.base_arr(o.name or 'mem', kd, n * 8)

    def vkind(self, v):
        if type(v) is int or isinstance(v, z3.BitVecRef) or isinstance(v, z3.BoolRef): return 'i'
        if isinstance(v, (Fraction, float, z3.ArithRef)): return 'f'
        return 'p'

    def arr_field(self, st, o, r, fo, n, kind):
        f = r.fields.get(fo)
        if f is None:
            f = (n, kind, self.fill_arr(o, kind, n)); r.fields[fo] = f
        if f[0] != n or f[1] != kind: raise VCError('array object %s accessed with a different element type' % o.name)
        return f

    def split_off(self, off, stride):
        """offset -> (element index, field offset)"""
        if type(off) is int: return off // stride, off % stride
        c, t = lin(off)
        for x, k in t.values():
            if k % stride: return None
        idx = unlin(c // stride, [(x, k // stride) for x, k in t.values()])
        return idx, c % stride

    # ---------------------------------------------------------------- memory access
    def bounds(self, st, o, off, n, what):
        sz = o.size
        if type(off) is int and type(sz) is int and type(n) is int:
            if 0 <= off and off + n <= sz: return
            self.fail(st, 'safety: %s out of bounds' % what)
        b_off = bv(off & M64 if type(off) is int else off, 64); b_sz = bv(sz, 64); b_n = bv(n, 64)
        c = z3.And(z3.ULE(b_n, b_sz), z3.ULE(b_off, b_sz - b_n))
        self.must(st, c, 'safety: %s out of bounds' % what, 'safety')

    def load(self, st, p, ty):
        if type(p) is not Ptr: p = self.toptr(p)
        if ty.kind == 'struct':
            return [self.load(st, Ptr(p.obj, off_add(p.off, d)), t) for t, d in zip(ty.elts, ty.offs)]
        if ty.kind in ('array', 'vector'):
            return [self.load(st, Ptr(p.obj, off_add(p.off, i * ty.elts[0].size)), ty.elts[0]) for i in range(ty.n)]
        o = st.mem.get(p.obj)
        if o is None: o = self.obj(st, p.obj, 'read')
        off = p.off; n = ty.store
        if type(off) is int and o.arr is None:
            c = o.cells.get(off)
            if c is not None and c[1] == n and (type(o.size) is not int or off + n <= o.size):
                if type(o.size) is int: return self.coerce(c[0], ty, n)
            if not (type(o.size) is int and 0 <= off and off + n <= o.size): self.bounds(st, o, off, n, 'read')
            return self.load_conc(st, o, off, ty, n)
        if type(off) is not int:
            s = simp(off)
            if type(s) is int: return self.load(st, Ptr(p.obj, sgn(s, 64)), ty)
        self.bounds(st, o, off, n, 'read')
        kind = 'i' if ty.kind == 'int' else 'f' if ty.kind in ('float', 'double') else 'p'
        o = st.mem[p.obj]
        r = self.region(st, o, off, n)
        if r is None:
            if type(off) is int: return self.load_conc(st, o, off, ty, n)
            cand = self.candidates(o, off, n)
            if cand is not None:
                return self.load_cand(st, o, off, cand, ty, n, kind)
            if o.arr is not None: raise VCError('symbolic access outside the array members of %s' % o.name)
            o = self.wobj(st, p.obj)
            r = self.to_arr(o, self.pick_stride(off, n), n, kind)
        sp = self.split_off(off_add(off, -r.lo), r.stride)
        if sp is None: raise VCError('unaligned symbolic access to %s' % o.name)
        if kind == 'p': raise VCError('pointer read from a symbolically indexed object')
        f = r.fields.get(sp[1])
        if f is None and (sp[1] + n > r.stride or any(x < sp[1] + n and x + r.fields[x][0] > sp[1] for x in r.fields)):
            return self.arr_mixed_load(st, o, r, sp, ty, n, kind)
        if f is None:
            o, r = self.wregion(st, o, r); f = self.arr_field(st, o, r, sp[1], n, kind)
        if f[0] != n or f[1] != kind:
            return self.arr_mixed_load(st, o, r, sp, ty, n, kind)
        v = self.aread(f[2], sp[0])
        if ty.kind == 'int' and ty.n == 1 and isinstance(v, z3.BitVecRef): v = simp(z3.Extract(0, 0, v) == 1)
        if kind == 'i' and n == 1 and isinstance(v, z3.BoolRef): v = bv(v, 8)
        return v

    def arr_mixed_load(self, st, o, r, sp, ty, n, kind):
        if kind == 'i' and r.stride == 1 and r.fields.get(0) and r.fields[0][0] == 1:
            bs = [bv(self.aread(r.fields[0][2], off_add(sp[0], k)), 8) for k in range(n)]
            return simp(z3.Concat(*reversed(bs)))
        raise VCError('array object %s read with a different element type' % o.name)

    def pick_stride(self, off, n):
        c, t = lin(off)
        g = 0
        for x, k in t.values(): g = math.gcd(g, abs(k))
        if g == 0: return n
        if g % n == 0 and c % n == 0: return n
        return g

    def candidates(self, o, off, n, limit=72):
        if type(o.size) is not int: return None
        c, t = lin(off)
        g = 0
        for x, k in t.values(): g = math.gcd(g, abs(k))
        if g == 0: return [c]
        g2 = math.gcd(g, 1 << 63) if g & (g - 1) else g
        # offsets are c modulo g as long as the linear form does not wrap; in-bounds offsets of a small object cannot wrap
        first = c % g
        cand = list(range(first, o.size - n + 1, g))
        if len(cand) > limit: return None
        return cand

    def load_cand(self, st, o, off, cand, ty, n, kind):
        if not cand: raise PathEnd()
        if kind == 'p' or any(self.vkind(o.cells[x][0]) == 'p' for x in cand if x in o.cells):
            for x in cand[:-1]:
                if self.decide(st, off == z3.BitVecVal(x & M64, 64)): return self.load_conc(st, o, x, ty, n)
            return self.load_conc(st, o, cand[-1], ty, n)
        r = self.load_conc(st, o, cand[-1], ty, n)
        for x in reversed(cand[:-1]):
            v = self.load_conc(st, st.mem[o.id], x, ty, n)
            r = self.ite_w(off == z3.BitVecVal(x & M64, 64), v, r, ty.n) if kind == 'i' else self.ite(off == z3.BitVecVal(x & M64, 64), v, r)
        return r

    def coerce(self, v, ty, n):
        k = ty.kind
        if k == 'int':
            if type(v) is int or isinstance(v, z3.BitVecRef):
                if ty.n == 1 and isinstance(v, z3.BitVecRef): return simp(z3.Extract(0, 0, v) == 1)
                return v
            if isinstance(v, z3.BoolRef): return v if ty.n == 1 else bv(v, ty.n)
            if type(v) is Ptr: return PInt(v.obj, v.off) if v.obj > 0 else (v.off if v.obj == 0 and type(v.off) is int else PInt(v.obj, v.off))
            if type(v) is PInt: return v
            if type(v) in (Fraction, float): return float_to_bits(v, n)
            raise VCError('symbolic real read as integer')
        if k in ('float', 'double', 'x86_fp80'):
            if type(v) in (Fraction, float) or isinstance(v, z3.ArithRef): return v
            if type(v) is int: return bits_to_float(v, n)
            if isinstance(v, z3.BitVecRef):
                raise VCError('symbolic integer read as real')
            raise VCError('pointer read as real')
        if k == 'ptr':
            if type(v) is Ptr: return v
            return self.toptr(v)
        return v

    def toptr(self, v):
        if type(v) is Ptr: return v
        if type(v) is PInt: return Ptr(v.obj, v.off)
        if type(v) is int:
            if v >> 32 and (v >> 32) <= self.nobj: return Ptr(v >> 32, v & 0xffffffff)
            return Ptr(0, v)
        if isinstance(v, z3.BitVecRef):
            return Ptr(-1, 0)
        raise VCError('to pointer')

    def load_conc(self, st, o, off, ty, n):
        c = o.cells.get(off)
        if c is not None and c[1] == n: return self.coerce(c[0], ty, n)
        # gather
        lo = off - o.maxn + 1
        parts = []
        for b in range(max(lo, -8), off + n):
            c = o.cells.get(b)
            if c is not None and b + c[1] > off: parts.append((b, c))
        if not parts:
            if o.fill == 'zero': return self.zero(ty)
            o = self.wobj(st, o.id)
            v = self.fresh_of(ty, 'uninit')
            if ty.kind == 'int' and ty.n == 1:
                b = self.fresh('uninit', 8); self.put(o, off, b, 1); return simp(z3.Extract(0, 0, b) == 1)
            self.put(o, off, v, n); return v
        # all bytes
        bs = []
        for k in range(n):
            b = off + k
            cov = None
            for s, c in parts:
                if s <= b < s + c[1]: cov = (s, c); break
            if cov is None:
                if o.fill == 'zero': bs.append(0)
                else:
                    o = self.wobj(st, o.id); f = self.fresh('uninit', 8); self.put(o, b, f, 1); bs.append(f)
                continue
            s, (v, cn) = cov
            if type(v) in (Fraction, float): v = float_to_bits(v, cn)
            if type(v) in (Ptr, PInt): v = addr_of(v)
            if isinstance(v, z3.ArithRef): raise VCError('partial read of a symbolic real')
            if isinstance(v, z3.BoolRef): v = bv(v, 8)
            d = b - s
            if type(v) is int: bs.append((v >> (8 * d)) & 0xff)
            else: bs.append(z3.Extract(8 * d + 7, 8 * d, v) if cn > 1 else v)
        if all(type(x) is int for x in bs):
            v = 0
            for k, x in enumerate(bs): v |= x << (8 * k)
        else:
            v = simp(z3.Concat(*[bv(x, 8) for x in reversed(bs)])) if n > 1 else bs[0]
        return self.coerce(v, ty, n)

    def store(self, st, p, v, ty):
        if type(p) is not Ptr: p = self.toptr(p)
        if ty.kind == 'struct':
            for t, d, x in zip(ty.elts, ty.offs, v):
                if x is not None: self.store(st, Ptr(p.obj, off_add(p.off, d)), x, t)
            return
        if ty.kind in ('array', 'vector'):
            for i, x in enumerate(v): self.store(st, Ptr(p.obj, off_add(p.off, i * ty.elts[0].size)), x, ty.elts[0])
            return
        o = st.mem.get(p.obj)
        if o is None: o = self.obj(st, p.obj, 'write')
        if o.ro: self.fail(st, 'safety: write to constant object')
        if o.owner is not st.token:
            o = o.copy(st.token); st.mem[p.obj] = o
        off = p.off; n = ty.store
        if ty.kind == 'int' and ty.n % 8:
            if ty.n == 1: v = v if type(v) is int else bv(v, 8)
            else: v = v if type(v) is int else z3.ZeroExt(n * 8 - ty.n, v)
        if type(off) is int and o.arr is None:
            if not (type(o.size) is int and 0 <= off and off + n <= o.size): self.bounds(st, o, off, n, 'write')
            self.store_conc(o, off, v, n); return
        if type(off) is not int:
            s = simp(off)
            if type(s) is int: return self.store(st, Ptr(p.obj, sgn(s, 64)), v, ty)
        self.bounds(st, o, off, n, 'write')
        kind = 'i' if ty.kind == 'int' else 'f' if ty.kind in ('float', 'double') else 'p'
        r = self.region(st, o, off, n)
        o = st.mem[p.obj]
        if r is None:
            if type(off) is int: self.store_conc(o, off, v, n); return
            cand = self.candidates(o, off, n)
            if cand is not None:
                ok = kind != 'p'
                if ok:
                    olds = {}
                    for x in cand:
                        c = o.cells.get(x)
                        if c is not None and self.vkind(c[0]) == 'p': ok = False; break
                if ok:
                    for x in cand:
                        old = self.load_conc(st, o, x, ty if not (ty.kind == 'int' and ty.n == 1) else self.i8(), n)
                        nv = self.ite_w(off == z3.BitVecVal(x & M64, 64), v, old, 8 * n) if kind == 'i' else self.ite(off == z3.BitVecVal(x & M64, 64), v, old)
                        self.store_conc(o, x, nv, n)
                    return
                for x in cand[:-1]:
                    if self.decide(st, off == z3.BitVecVal(x & M64, 64)): self.store_conc(o, x, v, n); return
                self.store_conc(o, cand[-1], v, n); return
            if o.arr is not None: raise VCError('symbolic access outside the array members of %s' % o.name)
            r = self.to_arr(o, self.pick_stride(off, n), n, kind)
        if kind == 'p': raise VCError('pointer written to a symbolically indexed object')
        sp = self.split_off(off_add(off, -r.lo), r.stride)
        if sp is None: raise VCError('unaligned symbolic access to %s' % o.name)
        f = r.fields.get(sp[1])
        if f is None and sp[1] + n <= r.stride: f = self.arr_field(st, o, r, sp[1], n, kind)
        if f is None or f[0] != n or f[1] != kind:
            if kind == 'i' and r.stride == 1 and r.fields.get(0) and r.fields[0][0] == 1:
                a = r.fields[0][2]
                for k in range(n):
                    b = (v >> (8 * k)) & 0xff if type(v) is int else simp(z3.Extract(8 * k + 7, 8 * k, bv(v, 8 * n)))
                    a = ArrVal('store', a, off_add(sp[0], k), b)
                r.fields[0] = (1, 'i', a); return
            raise VCError('array object %s written with a different element type' % o.name)
        r.fields[sp[1]] = (n, kind, ArrVal('store', f[2], sp[0], v))

    def i8(self):
        if not hasattr(self, '_i8'):
            t = llvm.Type(); t.kind = 'int'; t.n = 8; t.elts = None; t.offs = None; t.size = t.store = 1; t.name = 'i8'; self._i8 = t
        return self._i8

    def store_conc(self, o, off, v, n):
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            o.cells[off] = (v, n); return
        # remove or split overlapped cells
        for b in range(off - o.maxn + 1, off + n):
            c = o.cells.get(b)
            if c is None or b + c[1] <= off: continue
            if b >= off and b + c[1] <= off + n: del o.cells[b]; continue
            # partial overlap: split into bytes
            cv, cn = c
            del o.cells[b]
            if type(cv) in (Fraction, float): cv = float_to_bits(cv, cn)
            if type(cv) in (Ptr, PInt): cv = addr_of(cv)
            if isinstance(cv, z3.ArithRef): raise VCError('partial overwrite of a symbolic real')
            for k in range(cn):
                if off <= b + k < off + n: continue
                o.cells[b + k] = ((cv >> (8 * k)) & 0xff, 1) if type(cv) is int else (simp(z3.Extract(8 * k + 7, 8 * k, cv)), 1)
        o.cells[off] = (v, n)
        if n > o.maxn: o.maxn = n

    # memcpy / memmove / memset on objects
    def copy_mem(self, st, dst, src, n, what):
        dst = self.toptr(dst); src = self.toptr(src)
        if type(n) is not int:
            n = simp(n)
        if n == 0: return
        so = self.obj(st, src.obj, 'read'); do = self.wobj(st, dst.obj)
        if do.ro: self.fail(st, 'safety: write to constant object')
        self.bounds(st, so, src.off, n, 'read'); self.bounds(st, do, dst.off, n, 'write')
        so = st.mem[src.obj]; do = self.wobj(st, dst.obj)
        if type(n) is int and type(src.off) is int and type(dst.off) is int:
            segs = self.segments(so, src.off, n, do, dst.off)
            if segs is not None:
                if so.id == do.id and abs(src.off - dst.off) < n: raise VCError('overlapping copy of structures with array members')
                for k, m in segs:
                    so = st.mem[src.obj]; do = st.mem[dst.obj]
                    sr = self.region(st, so, src.off + k, m) if so.arr else None
                    dr = self.region(st, do, dst.off + k, m) if do.arr else None
                    if sr is not None and dr is None and do.id != so.id and sr.hi is not None and sr.hi - sr.lo == m:
                        self.ensure_region(st, do.id, dst.off + k, dst.off + k + m, sr.stride, next(iter(sr.fields.values()))[1] if sr.fields else 'i')
                    elif dr is not None and sr is None and do.id != so.id and dr.hi is not None and dr.hi - dr.lo == m:
                        self.ensure_region(st, so.id, src.off + k, src.off + k + m, dr.stride, next(iter(dr.fields.values()))[1] if dr.fields else 'i')
                    self.copy_mem(st, Ptr(dst.obj, dst.off + k), Ptr(src.obj, src.off + k), m, what)
                return
        sr = self.region(st, so, src.off, n); dr = self.region(st, do, dst.off, n)
        if type(n) is int and type(src.off) is int and type(dst.off) is int and sr is None and dr is None:
            if type(so.size) is int or n <= 4096:
                self.copy_conc(st, do, dst.off, so, src.off, n); return
        if type(n) is not int and (sr is None or dr is None):
            a = self.bound_of(so, src.off, sr); b = self.bound_of(do, dst.off, dr)
            lim = min(a, b)
            if lim <= 72:
                for k in range(lim + 1):
                    if self.decide(st, n == z3.BitVecVal(k, 64)):
                        if k: self.copy_mem(st, dst, src, k, what)
                        return
                raise PathEnd()
        self.copy_arr(st, do, dst.off, dr, so, src.off, sr, n)

    def segments(self, so, soff, n, do, doff):
        """split a copy at the ends of array members; None when it does not straddle any"""
        cuts = {0, n}
        for o, off in ((so, soff), (do, doff)):
            if o.arr is None or o.arr[0].hi is None: continue
            for r in o.arr:
                for e in (r.lo, r.hi):
                    if off < e < off + n: cuts.add(e - off)
        if len(cuts) == 2: return None
        c = sorted(cuts)
        return [(a, b - a) for a, b in zip(c, c[1:])]

    def bound_of(self, o, off, r):
        if r is not None and r.hi is not None: return r.hi - r.lo
        if type(o.size) is not int: return 1 << 60
        return o.size - (off if type(off) is int and off > 0 else 0)

    def copy_conc(self, st, do, doff, so, soff, n):
        items = []
        b = soff
        cells = so.cells
        lo = soff - so.maxn + 1
        # cells straddling the start
        for x in range(lo, soff):
            c = cells.get(x)
            if c is not None and x + c[1] > soff: self.byteize(st, so, x); so = st.mem[so.id]; cells = so.cells
        end = soff + n
        miss = []
        while b < end:
            c = cells.get(b)
            if c is None:
                miss.append(b); b += 1; continue
            if b + c[1] > end:
                self.byteize(st, so, b); so = st.mem[so.id]; cells = so.cells; continue
            items.append((b - soff, c)); b += c[1]
        # stable values for uninitialised source bytes
        if miss:
            if so.fill == 'zero': items += [(x - soff, (0, 1)) for x in miss]
        # clear destination
        do = self.wobj(st, do.id)
        for x in range(doff - do.maxn + 1, doff):
            c = do.cells.get(x)
            if c is not None and x + c[1] > doff: self.byteize(st, do, x); do = st.mem[do.id]
        for x in range(doff, doff + n):
            c = do.cells.get(x)
            if c is not None:
                if x + c[1] > doff + n: self.byteize(st, do, x); do = st.mem[do.id]; 
                if x in do.cells: del do.cells[x]
        for d, c in items: self.put(do, doff + d, c[0], c[1])
        if miss and so.fill != 'zero' and do.fill == 'zero':
            for x in miss: self.put(do, doff + x - soff, self.fresh('uninit', 8), 1)

    def byteize(self, st, o, x):
        o = self.wobj(st, o.id)
        v, cn = o.cells.pop(x)
        if type(v) in (Fraction, float): v = float_to_bits(v, cn)
        if type(v) in (Ptr, PInt): v = addr_of(v)
        if isinstance(v, z3.ArithRef): raise VCError('byte access to a symbolic real')
        if isinstance(v, z3.BoolRef): v = bv(v, 8)
        for k in range(cn):
            o.cells[x + k] = ((v >> (8 * k)) & 0xff, 1) if type(v) is int else (simp(z3.Extract(8 * k + 7, 8 * k, v)), 1)

    def copy_arr(self, st, do, doff, dr, so, soff, sr, n):
        s = None; kd = None
        for r in (sr, dr):
            if r is not None:
                s = s or r.stride
                if r.fields and kd is None: f = r.fields.get(0) or next(iter(r.fields.values())); kd = (f[0], f[1])
        small = type(n) is int and n <= 256
        if small and (sr is None or dr is None) and s is not None and (sr is None and type(soff) is int or dr is None and type(doff) is int):
            # element by element between cells and array
            m = kd[0] if kd else s
            if n % m == 0:
                ty = self.mkty(m, kd[1] if kd else 'i')
                vs = [self.load(st, Ptr(so.id, off_add(soff, k)), ty) for k in range(0, n, m)]
                for k, v in enumerate(vs): self.store(st, Ptr(do.id, off_add(doff, k * m)), v, ty)
                return
        if s is None:
            for o in (so, do):
                for v, cn in o.cells.values(): s = cn; kd = (cn, self.vkind(v)); break
                if s: break
            s = s or 1
            if type(n) is int and n % s: s = 1
        if kd is None: kd = (s, 'i')
        if sr is None:
            so = self.wobj(st, so.id)
            if so.arr is not None: raise VCError('array copy from outside the array members')
            sr = self.to_arr(so, s, kd[0], kd[1])
        else: so, sr = self.wregion(st, so, sr)
        if do.id == so.id: do = so
        if dr is None:
            do = self.wobj(st, do.id)
            if do.arr is not None and do.id != so.id: raise VCError('array copy to outside the array members')
            dr = sr if do.id == so.id else self.to_arr(do, s, kd[0], kd[1])
        else: do, dr = self.wregion(st, self.obj(st, do.id), dr) if dr in st.mem[do.id].arr else (do, dr)
        if sr.stride != dr.stride: raise VCError('copy between arrays of different element types')
        s = sr.stride
        a = self.split_off(off_add(soff, -sr.lo), s); b = self.split_off(off_add(doff, -dr.lo), s); c = self.split_off(n, s)
        if c is not None and c[1]: c = None
        if a is None or b is None or c is None or a[1] or b[1]: raise VCError('unaligned array copy')
        fos = set(sr.fields) | set(dr.fields) or {0}
        new = {}
        for fo in fos:
            ref = sr.fields.get(fo) or dr.fields.get(fo)
            n_, k_ = (ref[0], ref[1]) if ref else kd
            f = self.arr_field(st, so, sr, fo, n_, k_); g = self.arr_field(st, do, dr, fo, n_, k_)
            new[fo] = (n_, k_, ArrVal('copy', g[2], b[0], c[0], f[2], a[0]))
        dr.fields.update(new)

    def mkty(self, n, kind):
        k = (n, kind)
        if not hasattr(self, '_mk'): self._mk = {}
        if k not in self._mk:
            t = llvm.Type(); t.kind = 'int' if kind == 'i' else ('double' if n == 8 else 'float'); t.n = n * 8; t.elts = None; t.offs = None; t.size = t.store = n; t.name = 'elem'
            self._mk[k] = t
        return self._mk[k]

    def set_mem(self, st, dst, byte, n):
        dst = self.toptr(dst)
        if type(n) is not int: n = simp(n)
        if n == 0: return
        do = self.wobj(st, dst.obj)
        if do.ro: self.fail(st, 'safety: write to constant object')
        self.bounds(st, do, dst.off, n, 'write'); do = self.wobj(st, dst.obj)
        if type(n) is int and type(dst.off) is int:
            segs = self.segments(do, dst.off, n, do, dst.off)
            if segs is not None:
                for k, m in segs: self.set_mem(st, Ptr(dst.obj, dst.off + k), byte, m)
                return
        r = self.region(st, do, dst.off, n)
        if type(n) is int and type(dst.off) is int and r is None:
            if type(byte) is int and byte == 0 and n % 8 == 0 and n > 64:
                for k in range(0, n, 8): self.store_conc(do, dst.off + k, 0, 8)
            else:
                for k in range(n): self.store_conc(do, dst.off + k, byte, 1)
            return
        if type(n) is not int and r is None and self.bound_of(do, dst.off, r) <= 72:
            for k in range(do.size + 1):
                if self.decide(st, n == z3.BitVecVal(k, 64)):
                    if k: self.set_mem(st, dst, byte, k)
                    return
            raise PathEnd()
        if r is None:
            if do.arr is not None: raise VCError('memset outside the array members')
            r = self.to_arr(do, 1 if not do.cells else next(iter(do.cells.values()))[1], 1, 'i')
        s = r.stride
        if s != 1 and not (type(byte) is int and byte == 0): raise VCError('memset of a wide array')
        b = self.split_off(off_add(dst.off, -r.lo), s); c = self.split_off(n, s)
        if b is None or c is None or b[1] or c[1]: raise VCError('memset alignment')
        fos = set(r.fields) or {0}
        for fo in fos:
            f = r.fields.get(fo) or self.arr_field(st, do, r, fo, s, 'i')
            r.fields[fo] = (f[0], f[1], ArrVal('fill', f[2], b[0], c[0], Fraction(0) if f[1] == 'f' else byte))

    def byte_at(self, st, p, k=0):
        return self.load(st, Ptr(p.obj, off_add(p.off, k)), self.i8())

    # ---------------------------------------------------------------- run
    def start(self, fname):
        st = State()
        st.frames = []; st.mem = {}; st.pc = []; st.known = {}; st.model = None; st.token = object(); st.caught = []; st.excinfo = {}
        st.inputs = []; st.steps = 0; st.freed = set(); st.snap = None; st.stubs = {}; st.opts = {}; st.marks = {}; st.log = []; st.visits = None
        self.t0 = time.time()
        return st

    def push_call(self, st, fn, args, call):
        if len(st.frames) > 400: raise VCError('recursion depth')
        bl = fn.blocks()
        fr = Frame(fn, bl[fn.entry], call)
        for p, a in zip(fn.params, args): fr.regs[p] = a
        if fn.vararg: fr.regs['va'] = list(args[len(fn.params):])
        st.frames.append(fr)
        self.executed[fn.name] = self.executed.get(fn.name, 0) + 1

    def run_ctors(self, st):
        g = self.mod.globals.get('llvm.global_ctors')
        if g is None or g.init_ref is None: return
        v = self.mod.val(g.init_ref)
        if v[0] != 'agg': return
        for e in sorted(v[1], key=lambda e: e[1][0][1]):
            f = e[1][1]
            if f[0] == 'func': yield f[1]

    def run(self, fname, case=0):
        """execute a proof function on all paths"""
        self.case = case
        st = self.start(fname)
        # static initialisers run as straight-line calls before the proof body
        todo = list(self.run_ctors(st)) + [fname]
        for name in reversed(todo):
            self.push_call(st, self.mod.funcs[name], [], None)
        # frames are a stack: the initialiser frames are on top and run first
        self.work = [st]
        while self.work:
            if len(self.work) > 1 and self.jobs is not None: self.share()
            st = self.work.pop()
            self.npaths += 1
            if self.npaths > self.o['max_paths']: raise VCError('path limit %d' % self.o['max_paths'])
            try:
                self.run_path(st)
                self.nended += 1
            except PathEnd: pass

    jobs = None       # pipe of free job slots
    kids = ()
    def share(self):
        """hand half of the open paths to a forked worker when a job slot is free"""
        try: tok = os.read(self.jobs[0], 1)
        except BlockingIOError: return
        if not tok: return
        path = '%s.%d.%d' % (self.jobs[2], os.getpid(), len(self.kids))
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid:
            self.kids = list(self.kids) + [(pid, path)]
            self.work = self.work[0::2]
            return
        err = None
        try:
            self.work = self.work[1::2]; self.kids = []
            self.oblig = {}; self.failures = []; self.undecided = []; self.notes = {}; self.npaths = self.nended = 0
            self.S.time = 0.0; self.S.queries = 0; self.S.backends = {}
            try:
                while self.work:
                    if len(self.work) > 1: self.share()
                    st = self.work.pop(); self.npaths += 1
                    if self.npaths > self.o['max_paths']: raise VCError('path limit %d' % self.o['max_paths'])
                    try: self.run_path(st); self.nended += 1
                    except PathEnd: pass
            except VCError as e: err = str(e)
            except MemoryError: err = 'memory limit'
            except BaseException:
                import traceback; err = 'internal: ' + traceback.format_exc()[-1500:]
            os.write(self.jobs[1], tok); tok = None
            e2 = self.join()
            with open(path, 'wb') as f: pickle.dump((err or e2, self.oblig, self.failures, self.undecided, self.covers, self.notes, self.npaths, self.nended, self.S.time, self.S.queries, self.S.backends, dict(self.executed)), f)
        except BaseException as e:
            try: open(path + '.err', 'w').write(repr(e))
            except BaseException: pass
        finally:
            if tok: os.write(self.jobs[1], tok)
            os._exit(0)

    def join(self):
        err = None
        for pid, path in self.kids:
            os.waitpid(pid, 0)
            try:
                with open(path, 'rb') as f: e, ob, fl, und, cov, notes, np, ne, t, q, be, ex = pickle.load(f)
                os.unlink(path)
            except Exception as x: err = err or 'forked worker lost: %r' % x; continue
            err = err or e
            for k, o in ob.items():
                m = self.oblig.setdefault(k, {'kind': o['kind'], 'n': 0, 'ok': 0, 'fail': 0, 'unknown': 0, 'time': 0.0, 'backends': {}})
                for f in ('n', 'ok', 'fail', 'unknown', 'time'): m[f] += o[f]
                for b, c in o['backends'].items(): m['backends'][b] = m['backends'].get(b, 0) + c
            self.failures += fl; self.undecided += und
            for k, v in cov.items(): self.covers[k] = self.covers.get(k, False) or v
            for k, v in notes.items(): self.notes[k] = self.notes.get(k, 0) + v
            self.npaths += np; self.nended += ne; self.S.time += t; self.S.queries += q
            for b, c in be.items(): self.S.backends[b] = self.S.backends.get(b, 0) + c
            for k, v in ex.items():
                if v: self.executed[k] = v
        self.kids = []
        return err

    def run_path(self, st):
        frames = st.frames
        dis = self.dis
        n = 0
        while frames:
            fr = frames[-1]
            inst = fr.insts[fr.ip]
            fr.ip += 1
            n += 1
            try:
                dis[inst.op](st, fr, inst)
            except Fork as f:
                fr.ip -= 1
                if len(frames) == 0 or frames[-1] is not fr: raise VCError('fork inside a call transition at %s' % inst)
                self.do_fork(st, f.cond)
            except KeyError as e:
                if inst.op not in dis: raise VCError('instruction ' + inst.op)
                raise
            if n >= 2000:
                n = 0
                st.steps += 2000
                if st.steps > self.o['max_steps']: raise VCError('step limit')
                if time.time() - self.t0 > self.o['wall']: raise VCError('time limit %ds' % self.o['wall'])

    def do_fork(self, st, c):
        if time.time() - self.t0 > self.o['wall']: raise VCError('time limit %ds' % self.o['wall'])
        if type(c) is not z3.BoolRef and not isinstance(c, z3.BoolRef): raise VCError('fork condition')
        if z3.is_not(c): c = c.arg(0)
        o = st.copy()
        nc = z3.Not(c)
        self.S.keep.extend((c, nc))
        rt = self.S.check(st.pc, [c]); rf = self.S.check(st.pc, [nc])
        if rt[0] == 'unsat':
            st.pc.append(nc); st.known[c.get_id()] = False; return
        if rf[0] == 'unsat':
            st.pc.append(c); st.known[c.get_id()] = True; return
        o.pc.append(nc); o.known[c.get_id()] = False
        st.pc.append(c); st.known[c.get_id()] = True
        st.model = self.merge_model(st, rt); o.model = self.merge_model(o, rf)
        self.work.append(o)
        if len(self.work) > 5000: raise VCError('too many open paths')

    def merge_model(self, st, r):
        return None

    # ---------------------------------------------------------------- instructions
    def op_alloca(self, st, fr, i):
        cnt = self.ev(fr, i.ops[0])
        size = i.x.size * cnt if type(cnt) is int else simp(bv(cnt, 64) * i.x.size)
        o = self.new_obj(st, size, 'stack', 'uninit', i.name or 'tmp')
        fr.allocas.append(o.id)
        fr.regs[i.id] = Ptr(o.id, 0)

    def op_load(self, st, fr, i):
        fr.regs[i.id] = self.load(st, self.ev(fr, i.ops[0]), i.ty)

    def op_store(self, st, fr, i):
        v = self.ev(fr, i.ops[0])
        self.store(st, self.ev(fr, i.ops[1]), v, i.x[0])

    def gep_off(self, srcty, idx, widths):
        off = 0
        ty = srcty
        for k, (ix, w) in enumerate(zip(idx, widths)):
            if k > 0:
                if ty.kind == 'struct':
                    off = off_add(off, ty.offs[ix]); ty = ty.elts[ix]; continue
                ty = ty.elts[0]
            if type(ix) is int:
                off = off_add(off, sgn(ix, w) * ty.size)
            else:
                if type(ix) is PInt: ix = bv(ix, 64)
                e = z3.SignExt(64 - w, ix) if w < 64 else ix
                off = off_add(off, off_scale(e, ty.size))
        return off

    def op_getelementptr(self, st, fr, i):
        p = self.ev(fr, i.ops[0])
        if type(p) is not Ptr: p = self.toptr(p)
        co = i.coff
        if co is not None and type(p.off) is int and not self.big_arrays(i.x[0]):
            fr.regs[i.id] = Ptr(p.obj, p.off + co); return
        idx = [self.ev(fr, o) for o in i.ops[1:]]
        if type(p.off) is int and p.obj > 0 and self.big_arrays(i.x[0]): self.array_members(st, p, i.x[0], idx)
        off = self.gep_off(i.x[0], idx, [t.n for t in i.x[1][1:]])
        fr.regs[i.id] = Ptr(p.obj, off_add(p.off, off))

    def big_arrays(self, ty):
        """does the type contain a large array of scalars?"""
        c = self._big
        r = c.get(id(ty))
        if r is None:
            k = ty.kind
            if k == 'array': r = (ty.n > 72 and ty.elts[0].kind in ('int', 'float', 'double')) or self.big_arrays(ty.elts[0])
            elif k == 'struct' and ty.elts: r = any(self.big_arrays(t) for t in ty.elts)
            else: r = False
            c[id(ty)] = r; self.S.keep.append(ty)
        return r

    def array_members(self, st, p, ty, idx):
        """hold large array members of a concretely addressed object as functional arrays"""
        off = p.off
        if type(idx[0]) is not int: return
        off += sgn(idx[0] & M64, 64) * ty.size
        for k in range(1, len(idx) + 1):
            if ty.kind == 'array' and ty.n > 72 and ty.elts[0].kind in ('int', 'float', 'double'):
                self.ensure_region(st, p.obj, off, off + ty.size, ty.elts[0].size, 'i' if ty.elts[0].kind == 'int' else 'f'); return
            if k == len(idx): return
            ix = idx[k]
            if type(ix) is not int: return
            if ty.kind == 'struct': off += ty.offs[ix]; ty = ty.elts[ix]
            elif ty.kind == 'array': ty = ty.elts[0]; off += sgn(ix & M64, 64) * ty.size
            else: return

    def ensure_region(self, st, oid, lo, hi, es, kind):
        o = st.mem.get(oid)
        if o is None: return
        if type(o.size) is not int or (lo == 0 and hi >= o.size) or hi > o.size: return
        if o.arr is not None:
            if o.arr[0].hi is None: return
            for r in o.arr:
                if r.lo < hi and lo < r.hi: return
        o = self.wobj(st, oid)
        # cells straddling the ends
        for x in range(lo - o.maxn + 1, lo):
            c = o.cells.get(x)
            if c is not None and x + c[1] > lo: self.byteize(st, o, x); o = st.mem[oid]
        for x in range(hi - o.maxn + 1, hi):
            c = o.cells.get(x)
            if c is not None and x + c[1] > hi: self.byteize(st, o, x); o = st.mem[oid]
        inside = sorted(x for x in o.cells if lo <= x < hi)
        ty = self.mkty(es, kind)
        idx = set()
        for x in inside:
            for b in range(x, x + o.cells[x][1]): idx.add((b - lo) // es)
        vals = {}
        arr = self.fill_arr(o, kind, es)
        for k in sorted(idx):
            c = o.cells.get(lo + k * es)
            v = c[0] if c is not None and c[1] == es else self.load_conc(st, o, lo + k * es, ty, es)
            o = st.mem[oid]
            if self.vkind(v) == 'p': return
            if isinstance(v, z3.BoolRef): v = bv(v, 8)
            vals[k] = v
        if len(vals) == (hi - lo) // es and len(vals) > 8 and all(type(v) is type(vals[0]) and not issym(v) and v == vals[0] for v in vals.values()): arr = ArrVal('const', None, vals[0])
        else:
            for k in sorted(vals): arr = ArrVal('store', arr, k, vals[k])
        o = self.wobj(st, oid)
        for x in [x for x in o.cells if lo <= x < hi]: del o.cells[x]
        o.arr = sorted((o.arr or []) + [Region(lo, hi, es, {0: (es, kind, arr)})], key=lambda r: r.lo)

    def op_br(self, st, fr, i):
        if not i.ops: self.jump(st, fr, i.x[0]); return
        c = self.ev(fr, i.ops[0])
        if type(c) is not int: c = self.decide(st, c)
        self.jump(st, fr, i.x[0] if c else i.x[1])

    def op_switch(self, st, fr, i):
        v = self.ev(fr, i.ops[0])
        if type(v) is int:
            for c, b in i.x[1]:
                if c[1] == v: self.jump(st, fr, b); return
            self.jump(st, fr, i.x[0]); return
        w = i.x[2].n
        for c, b in i.x[1]:
            if self.decide(st, bv(v, w) == z3.BitVecVal(c[1], w)): self.jump(st, fr, b); return
        self.jump(st, fr, i.x[0])

    def jump(self, st, fr, bid):
        blk = fr.fn._blocks[bid]
        old = fr.block.id
        lim = self.o['unwind']
        if lim:
            if fr.loops is None: fr.loops = {}
            c = fr.loops.get(bid, 0) + 1; fr.loops[bid] = c
            if c > lim: raise VCError('unwinding limit %d at %s' % (lim, self.where(st)))
        hook = self.loopspecs.get(bid)
        if hook is not None:
            hook(st, fr, bid, old)
        insts = blk.insts
        ip = 0
        if insts[0].op == 'phi':
            vals = []
            while insts[ip].op == 'phi':
                for b, v in insts[ip].x:
                    if b == old: vals.append((insts[ip].id, self.ev(fr, v))); break
                ip += 1
            for k, v in vals: fr.regs[k] = v
        fr.prev = old; fr.block = blk; fr.ip = ip; fr.insts = insts

    def op_ret(self, st, fr, i):
        v = self.ev(fr, i.ops[0]) if i.ops else None
        self.pop_frame(st, fr)
        c = fr.call
        if c is None: return
        if not st.frames: return
        cal = st.frames[-1]
        if c.ty.kind != 'void': cal.regs[c.id] = v
        if c.op == 'invoke': self.jump(st, cal, c.x[2])

    def pop_frame(self, st, fr):
        st.frames.pop()
        mem = st.mem
        for a in fr.allocas:
            if a in mem: del mem[a]
            st.freed.add(a)

    def op_unreachable(self, st, fr, i):
        self.fail(st, 'safety: unreachable code reached (missing return or undefined behaviour)')

    # -- integers
    def trunc(self, v, n):
        if type(v) is int: return v & mask(n)
        if type(v) is PInt: 
            v = addr_of(v)
            if type(v) is int: return v & mask(n)
        if isinstance(v, z3.BoolRef): return v
        r = z3.Extract(n - 1, 0, v)
        if n == 1: return simp(r == z3.BitVecVal(1, 1))
        return simp(r)

    def op_trunc(self, st, fr, i): fr.regs[i.id] = self.vec1(lambda a: self.trunc(a, self.el(i.ty).n), self.ev(fr, i.ops[0]))
    def el(self, t): return t.elts[0] if t.kind == 'vector' else t
    def vec1(self, f, a): return [f(x) for x in a] if type(a) is list else f(a)
    def vec2(self, f, a, b): return [f(x, y) for x, y in zip(a, b)] if type(a) is list else f(a, b)

    def op_zext(self, st, fr, i):
        w = self.el(i.x[0]).n; n = self.el(i.ty).n
        def f(a):
            if type(a) in (int, PInt): return a
            if isinstance(a, z3.BoolRef): return z3.If(a, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
            return z3.ZeroExt(n - w, a)
        fr.regs[i.id] = self.vec1(f, self.ev(fr, i.ops[0]))

    def op_sext(self, st, fr, i):
        w = self.el(i.x[0]).n; n = self.el(i.ty).n
        def f(a):
            if type(a) is int: return sgn(a, w) & mask(n)
            if type(a) is PInt: return a
            if isinstance(a, z3.BoolRef): return z3.If(a, z3.BitVecVal(mask(n), n), z3.BitVecVal(0, n))
            return z3.SignExt(n - w, a)
        fr.regs[i.id] = self.vec1(f, self.ev(fr, i.ops[0]))

    def op_ptrtoint(self, st, fr, i):
        p = self.ev(fr, i.ops[0])
        if p.obj == 0 and type(p.off) is int: fr.regs[i.id] = p.off & mask(i.ty.n)
        else: fr.regs[i.id] = PInt(p.obj, p.off)

    def op_inttoptr(self, st, fr, i):
        fr.regs[i.id] = self.toptr(self.ev(fr, i.ops[0]))

    def op_bitcast(self, st, fr, i):
        v = self.ev(fr, i.ops[0]); a, b = i.x[0], i.ty
        if a.kind == b.kind and a.kind not in ('vector',): fr.regs[i.id] = v; return
        if a.kind == 'vector' and b.kind == 'vector' and a.n == b.n: fr.regs[i.id] = [self.coerce(x, b.elts[0], b.elts[0].store) for x in v]; return
        if a.kind in ('vector', 'array') or b.kind in ('vector', 'array'): raise VCError('vector bitcast')
        fr.regs[i.id] = self.coerce(v, b, b.store)
    op_addrspacecast = op_bitcast
    def op_freeze(self, st, fr, i): fr.regs[i.id] = self.ev(fr, i.ops[0])

    def op_fence(self, st, fr, i): pass

    def ovf(self, st, op, a, b, n, ubflags):
        nsw, nuw = ubflags
        if nsw and self.o['overflow']:
            x, y = bv(a, n), bv(b, n)
            if op == 'add': c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            elif op == 'mul': c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            else: return
            self.must(st, c, 'safety: signed integer overflow', 'safety')

    def ibin(self, st, op, a, b, n, fl_=(False, False)):
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            m = mask(n)
            if op == 'add':
                if fl_[0] and st is not None and self.o['overflow']:
                    r = sgn(a, n) + sgn(b, n)
                    if not -(1 << (n - 1)) <= r < (1 << (n - 1)): self.must(st, 0, 'safety: signed integer overflow', 'safety')
                return (a + b) & m
            if op == 'sub':
                if fl_[0] and st is not None and self.o['overflow']:
                    r = sgn(a, n) - sgn(b, n)
                    if not -(1 << (n - 1)) <= r < (1 << (n - 1)): self.must(st, 0, 'safety: signed integer overflow', 'safety')
                return (a - b) & m
            if op == 'mul':
                if fl_[0] and st is not None and self.o['overflow']:
                    r = sgn(a, n) * sgn(b, n)
                    if not -(1 << (n - 1)) <= r < (1 << (n - 1)): self.must(st, 0, 'safety: signed integer overflow', 'safety')
                return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= n: self.must(st, 0, 'safety: shift amount out of range', 'safety')
                if op == 'shl': return (a << b) & m
                if op == 'lshr': return a >> b
                return (sgn(a, n) >> b) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: self.must(st, 0, 'safety: integer division by zero', 'safety')
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y); q = -q if (x < 0) != (y < 0) else q
                if op == 'sdiv':
                    if q >= (1 << (n - 1)): self.must(st, 0, 'safety: signed integer overflow', 'safety')
                    return q & m
                return (x - q * y) & m
        if ta is PInt or tb is PInt:
            r = self.pint(op, a, b, n)
            if r is not None: return r
            a = bv(a, n) if ta is PInt else a; b = bv(b, n) if tb is PInt else b
            if not issym(a): a = conc(z3.simplify(bv(a, n)))
            if type(a) is int and type(b) is int: return self.ibin(st, op, a, b, n, fl_)
        if n == 1:
            x, y = boolv(a), boolv(b)
            if op in ('and', 'mul'): return simp(z3.And(x, y))
            if op == 'or': return simp(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(x, y))
            raise VCError('i1 ' + op)
        # identities
        if op in ('add', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sub') and type(b) is int and b == 0: return a
        if op in ('add', 'or', 'xor') and type(a) is int and a == 0: return b
        if op == 'mul':
            if a == 1 and type(a) is int: return b
            if b == 1 and type(b) is int: return a
            if (type(a) is int and a == 0) or (type(b) is int and b == 0): return 0
        if op == 'and' and ((type(a) is int and a == 0) or (type(b) is int and b == 0)): return 0
        if st is not None and fl_[0]: self.ovf(st, op, a, b, n, fl_)
        x, y = bv(a, n), bv(b, n)
        if op == 'add': return simp(x + y)
        if op == 'sub': return simp(x - y)
        if op == 'mul': return simp(x * y)
        if op == 'and': return simp(x & y)
        if op == 'or': return simp(x | y)
        if op == 'xor': return simp(x ^ y)
        if op in ('shl', 'lshr', 'ashr'):
            if st is not None: self.must(st, z3.ULT(y, z3.BitVecVal(n, n)), 'safety: shift amount out of range', 'safety')
            if op == 'shl': return simp(x << y)
            if op == 'lshr': return simp(z3.LShR(x, y))
            return simp(x >> y)
        if st is not None: self.must(st, y != 0, 'safety: integer division by zero', 'safety')
        if op in ('sdiv', 'srem') and type(b) is int and n == 64 and op == 'sdiv':
            c, t = lin(x)
            d = sgn(b, 64)
            if d > 1 and t and c % d == 0 and all(k % d == 0 for _, k in t.values()) and self.elem_ok(x, d):
                r = unlin(c // d, [(e, k // d) for e, k in t.values()])
                # exact when the quotient form does not overflow: prove it, otherwise keep the bit-vector division
                q = bv(r, 64)
                lo = -(1 << 63) // d; hi = (1 << 63) // d
                chk = z3.And(q > z3.BitVecVal(lo, 64), q < z3.BitVecVal(hi, 64))
                rr = self.S.check(st.pc, [z3.Not(chk)]) if st is not None else ('unknown',)
                if rr[0] == 'unsat': return simp(q)
        if type(b) is int and n >= 8 and op in ('udiv', 'urem', 'sdiv', 'srem'):
            r = self.divc(op, simp_bv(x), b, n)
            if r is not None: return r
        if op == 'udiv': return simp(z3.UDiv(x, y))
        if op == 'urem': return simp(z3.URem(x, y))
        if op == 'sdiv':
            if st is not None and (type(b) is not int or b == mask(n)):
                self.must(st, z3.Not(z3.And(x == z3.BitVecVal(1 << (n - 1), n), y == z3.BitVecVal(mask(n), n))), 'safety: signed integer overflow', 'safety')
            return simp(x / y)
        if op == 'srem': return simp(z3.SRem(x, y))
        raise VCError('integer op ' + op)

    # division by a constant: the quotient is a symbol q with its defining facts c*q <= x, x - c*q < c (no division circuit)
    def ubound(self, x, depth=4):
        u = self.ub.get(x.get_id())
        if u is not None: return u
        n = x.size()
        if z3.is_bv_value(x): return x.as_long()
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_CONCAT and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0: 
                y = [x.arg(i) for i in range(1, x.num_args())]
                return self.ubound(y[0]) if len(y) == 1 else mask(sum(t.size() for t in y))
            if depth and k == z3.Z3_OP_EXTRACT and x.params()[1] == 0:
                u = self.ubound(x.arg(0), depth - 1)
                if u <= mask(n): return u
            if depth and k == z3.Z3_OP_ITE: return max(self.ubound(x.arg(1), depth - 1), self.ubound(x.arg(2), depth - 1))
            if depth and k == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
                u = x.arg(0).as_long() * self.ubound(x.arg(1), depth - 1)
                if u <= mask(n): return u
            if depth and k == z3.Z3_OP_BADD and x.num_args() == 2:
                u = self.ubound(x.arg(0), depth - 1) + self.ubound(x.arg(1), depth - 1)
                if u <= mask(n): return u
        return mask(n)

    def divc(self, op, x, b, n):
        if op[0] == 's':
            d = sgn(b, n)
            if d < 2 or d & (d - 1) == 0: return None
            if self.ubound(x) >= 1 << (n - 1):
                neg = simp(x < 0)
                if type(neg) is int: neg = z3.BoolVal(bool(neg))
                q = self.divc('udiv', simp_bv(z3.If(neg, -x, x)), b, n)
                q = bv(q, n); q = z3.If(neg, -q, q)
                return simp(q) if op == 'sdiv' else simp(x - q * z3.BitVecVal(b, n))
            return self.divc('u' + op[1:], x, b, n)
        if b < 2 or b & (b - 1) == 0: return None
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0 and not z3.is_bv_value(x.arg(1)):
            y = x.arg(1); m = y.size()
            if m < 8: return None
            if b > mask(m): return 0 if op == 'udiv' else simp(x)
            r = self.divc(op, y, b, m)
            return None if r is None else simp(z3.ZeroExt(n - m, bv(r, m)))
        k = (x.get_id(), b); q = self.divs.get(k)
        c = z3.BitVecVal(b, n)
        if q is None:
            u = self.ubound(x) // b
            if u == 0: q = 0
            else:
                q = z3.BitVec('div!%d' % len(self.divs), n)
                self.S.axiom(z3.And(z3.ULE(q, z3.BitVecVal(u, n)), z3.ULE(q * c, x), z3.ULT(x - q * c, c)))
                self.ub[q.get_id()] = u
            self.divs[k] = q; self.divkeep.append(x)
        if op == 'udiv': return q
        if type(q) is int: return simp(x)
        r = self.divs.get((x.get_id(), b, 'r'))
        if r is None:
            r = self.divs[(x.get_id(), b, 'r')] = z3.BitVec('rem!%d' % len(self.divs), n)
            self.S.axiom(z3.And(r == x - q * c, z3.ULT(r, c)))
            self.ub[r.get_id()] = b - 1
        return r

    def elem_ok(self, x, d): return True

    def pint(self, op, a, b, n):
        if n < 64: return None
        if op == 'sub' and type(a) is PInt and type(b) is PInt and a.obj == b.obj:
            r = off_add(a.off, self.neg(b.off) if type(b.off) is int else _neg(b.off))
            return r & M64 if type(r) is int else r
        if op == 'add':
            if type(a) is PInt and type(b) is not PInt: return PInt(a.obj, off_add(a.off, sgn(b, 64) if type(b) is int else b))
            if type(b) is PInt and type(a) is not PInt: return PInt(b.obj, off_add(b.off, sgn(a, 64) if type(a) is int else a))
        if op == 'sub' and type(a) is PInt and type(b) is not PInt:
            return PInt(a.obj, off_add(a.off, -sgn(b, 64) if type(b) is int else _neg(b)))
        if op == 'and':
            p, m = (a, b) if type(a) is PInt else (b, a)
            if type(m) is int and m < 16 and type(p.off) is int: return p.off & m
        return None

    def _ib(op):
        def h(self, st, fr, i):
            a = self.ev(fr, i.ops[0]); b = self.ev(fr, i.ops[1])
            fl_ = i.x if i.x is not None else (False, False)
            n = self.el(i.ty).n
            fr.regs[i.id] = self.vec2(lambda x, y: self.ibin(st, op, x, y, n, fl_), a, b)
        return h
    for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
        locals()['op_' + _o] = _ib(_o)
    del _o

    def icmp(self, st, pred, a, b, ty):
        ta, tb = type(a), type(b)
        if ty.kind == 'ptr' or ta is PInt or tb is PInt or ta is Ptr or tb is Ptr:
            return self.pcmp(st, pred, a, b)
        n = ty.n
        if ta is int and tb is int:
            if pred[0] == 's': a = sgn(a, n); b = sgn(b, n)
            p = pred[-2:] if len(pred) == 3 else pred
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p])
        if n == 1:
            x, y = boolv(a), boolv(b)
            if pred == 'eq': return simp(x == y)
            if pred == 'ne': return simp(x != y)
            x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)); y = z3.If(y, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        else:
            x, y = bv(a, n), bv(b, n)
            if self.ub and n >= 8 and (ta is int) != (tb is int):
                e, c, p = (x, b, pred) if tb is int else (y, a, {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge'}.get(pred[-2:], ''))
                p = p[-2:] if p not in ('eq', 'ne') else p
                u = self.ubound(e)
                if pred[0] == 's' and u < 1 << (n - 1): c = sgn(c, n)
                if pred in ('eq', 'ne'):
                    if c > u: return int(pred == 'ne')
                elif pred[0] == 'u' or u < 1 << (n - 1):      # the value lies in 0..u
                    if p == 'lt' and u < c or p == 'le' and u <= c or p == 'gt' and c < 0 or p == 'ge' and c <= 0: return 1
                    if p == 'lt' and c <= 0 or p == 'le' and c < 0 or p == 'gt' and u <= c or p == 'ge' and u < c: return 0
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y),
             'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return simp(r)

    def pcmp(self, st, pred, a, b):
        def norm(v):
            if type(v) is PInt: return Ptr(v.obj, v.off)
            if type(v) is int: return self.toptr(v)
            if isinstance(v, z3.BitVecRef): raise VCError('comparison of a pointer with a symbolic integer')
            return v
        a, b = norm(a), norm(b)
        if a.obj == -1 or b.obj == -1:
            return self.fresh('wildcmp', 'bool')
        if a.obj != b.obj:
            if pred == 'eq': return 0
            if pred == 'ne': return 1
            a, b = a.obj, b.obj
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[-2:]])
        x, y = a.off, b.off
        if type(x) is int and type(y) is int:
            p = pred[-2:]
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p])
        x, y = bv(x & M64 if type(x) is int else x, 64), bv(y & M64 if type(y) is int else y, 64)
        p = pred[-2:]
        return simp({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p])

    def op_icmp(self, st, fr, i):
        pred, ty = i.x
        a, b = self.ev(fr, i.ops[0]), self.ev(fr, i.ops[1])
        t = self.el(ty)
        fr.regs[i.id] = self.vec2(lambda x, y: self.icmp(st, pred, x, y, t), a, b)

    def op_select(self, st, fr, i):
        c, a, b = (self.ev(fr, o) for o in i.ops)
        if type(c) is list: fr.regs[i.id] = [self.sel(st, x, y, z, self.el(i.ty)) for x, y, z in zip(c, a, b)]; return
        fr.regs[i.id] = self.sel(st, c, a, b, i.ty)
    def sel(self, st, c, a, b, ty):
        if type(c) is int: return a if c else b
        if ty.kind == 'int': 
            if type(a) is PInt or type(b) is PInt: return a if self.decide(st, c) else b
            return self.ite_w(c, a, b, ty.n)
        if ty.kind == 'ptr': return a if self.decide(st, c) else b
        if type(a) is float or type(b) is float: return a if self.decide(st, c) else b
        return self.ite(c, a, b)

    # -- reals
    def fbin(self, st, op, a, b):
        ta, tb = type(a), type(b)
        if ta is float or tb is float:
            return self.fspecial(st, op, a, b)
        if ta is Fraction and tb is Fraction:
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if b == 0:
                return self.fdivzero(st, a)
            if op == 'fdiv': return a / b
            if op == 'frem': return a - b * Fraction(int(a / b))
        if op == 'fadd':
            if ta is Fraction and a == 0: return b
            if tb is Fraction and b == 0: return a
            return self.rs(real(a) + real(b))
        if op == 'fsub':
            if tb is Fraction and b == 0: return a
            return self.rs(real(a) - real(b))
        if op == 'fmul':
            if (ta is Fraction and a == 0) or (tb is Fraction and b == 0): return Fraction(0)
            if ta is Fraction and a == 1: return b
            if tb is Fraction and b == 1: return a
            return self.rs(real(a) * real(b))
        if op == 'fdiv':
            if tb is Fraction:
                if b == 0: return self.fdivzero(st, a)
                return self.rs(real(a) * z3.RealVal(1 / b))
            if self.o['divzero'] == 'oblige': self.must(st, real(b) != 0, 'safety: floating point division by zero', 'safety')
            elif self.o['divzero'] == 'fork':
                if self.decide(st, real(b) == 0): return self.fdivzero(st, a)
            return self.rdiv(st, a, b)
        if op == 'frem':
            import builtins_vc
            return builtins_vc.fmod_(self, st, a, b)
        raise VCError(op)

    def rdiv(self, st, a, b):
        a, b = real(a), real(b)
        k = ('quot', a.get_id(), b.get_id())
        t = self.trig.get(k)
        if t is None:
            q = None
            if not z3.is_const(b) or not z3.is_const(a) and not z3.is_rational_value(a):
                import ratsimp
                q = ratsimp.quotient(a, b)
                if q is not None: q = self.rs(q)
            t = self.trig[k] = (a / b if q is None else q, a, b)
        return t[0]

    def fdivzero(self, st, a):
        if self.o['divzero'] == 'oblige':
            self.must(st, 0, 'safety: floating point division by zero', 'safety')
        if type(a) is not Fraction:
            if self.decide(st, real(a) == 0): return float('nan')
            return float('inf') if self.decide(st, real(a) > 0) else float('-inf')
        return float('nan') if a == 0 else float('inf') if a > 0 else float('-inf')

    def rs(self, e): return conc(z3.simplify(e))

    def fspecial(self, st, op, a, b):
        nan = float('nan')
        def isnan(x): return type(x) is float and x != x
        if isnan(a) or isnan(b): return nan
        ca = a if type(a) is float else (float(1 if a > 0 else -1 if a < 0 else 0) if type(a) is Fraction else None)
        cb = b if type(b) is float else (float(1 if b > 0 else -1 if b < 0 else 0) if type(b) is Fraction else None)
        def sg(x):
            if self.decide(st, real(x) == 0): return 0.0
            return 1.0 if self.decide(st, real(x) > 0) else -1.0
        if op in ('fadd', 'fsub'):
            x = 0.0 if ca is None else ca; y = 0.0 if cb is None else cb
            r = x + y if op == 'fadd' else x - y
            return r if r != r or math.isinf(r) else fl(r)
        x = sg(a) if ca is None else ca; y = sg(b) if cb is None else cb
        if op == 'fmul': r = x * y
        elif op == 'fdiv':
            if y == 0: r = x
            else: r = x / y
        elif op == 'frem':
            if math.isinf(x): r = nan
            else: return a
        return r if r != r or math.isinf(r) else fl(r)

    def _fb(op):
        def h(self, st, fr, i):
            fr.regs[i.id] = self.vec2(lambda x, y: self.fbin(st, op, x, y), self.ev(fr, i.ops[0]), self.ev(fr, i.ops[1]))
        return h
    for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        locals()['op_' + _o] = _fb(_o)
    del _o

    def fneg(self, a):
        if type(a) in (Fraction, float): return -a
        return self.rs(-a)
    def op_fneg(self, st, fr, i): fr.regs[i.id] = self.vec1(self.fneg, self.ev(fr, i.ops[0]))

    def fcmp(self, st, pred, a, b):
        if pred == 'false': return 0
        if pred == 'true': return 1
        na = type(a) is float and a != a; nb = type(b) is float and b != b
        if na or nb: return int(pred[0] == 'u')
        if pred == 'ord': return 1
        if pred == 'uno': return 0
        p = pred[1:]
        if not issym(a) and not issym(b):
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p])
        if type(a) is float or type(b) is float:   # infinite against finite symbolic
            x = a if type(a) is float else 0.0; y = b if type(b) is float else 0.0
            return int({'eq': False, 'ne': True, 'gt': x > y, 'ge': x > y, 'lt': x < y, 'le': x < y}[p])
        x, y = real(a), real(b)
        return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'lt': lambda: x < y, 'le': lambda: x <= y}[p]())

    def op_fcmp(self, st, fr, i):
        fr.regs[i.id] = self.vec2(lambda x, y: self.fcmp(st, i.x[0], x, y), self.ev(fr, i.ops[0]), self.ev(fr, i.ops[1]))

    def op_fptrunc(self, st, fr, i):
        v = self.ev(fr, i.ops[0])
        if type(v) is Fraction and i.ty.kind == 'float' and self.o.get('round_float'):
            v = bits_to_float(float_to_bits(v, 4), 4)
        fr.regs[i.id] = v
    def op_fpext(self, st, fr, i): fr.regs[i.id] = self.ev(fr, i.ops[0])

    def int_to_real(self, v, n, signed):
        if type(v) is int: return Fraction(sgn(v, n) if signed else v)
        if type(v) is PInt: raise VCError('pointer to real')
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.RealVal(-1 if signed else 1), z3.RealVal(0))
        k = ('r2i', v.get_id())
        c = self.uninit.get(k)
        if c is not None and c[2] == n: return c[1]       # integer that was produced from a real: keep the mathematical value
        return z3.ToReal(z3.BV2Int(v, signed))
    def op_sitofp(self, st, fr, i): fr.regs[i.id] = self.vec1(lambda a: self.int_to_real(a, self.el(i.x[0]).n, True), self.ev(fr, i.ops[0]))
    def op_uitofp(self, st, fr, i): fr.regs[i.id] = self.vec1(lambda a: self.int_to_real(a, self.el(i.x[0]).n, False), self.ev(fr, i.ops[0]))

    def real_to_int(self, st, v, n, signed):
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, mask(n))
        if type(v) is float: self.fail(st, 'safety: float to integer conversion out of range')
        if type(v) is Fraction:
            r = int(v)
            if not lo <= r <= hi: self.fail(st, 'safety: float to integer conversion out of range')
            return r & mask(n)
        t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        self.must(st, z3.And(v > lo - 1, v < hi + 1), 'safety: float to integer conversion out of range', 'safety')
        # a fresh bit-vector tied to the mathematical integer
        b = self.fresh('r2i', n)
        self.assume(st, z3.BV2Int(b, signed) == t)
        self.S.keep.append(b)
        self.uninit[('r2i', b.get_id())] = (b, z3.ToReal(t), n)
        return b
    def op_fptosi(self, st, fr, i): fr.regs[i.id] = self.vec1(lambda a: self.real_to_int(st, a, self.el(i.ty).n, True), self.ev(fr, i.ops[0]))
    def op_fptoui(self, st, fr, i): fr.regs[i.id] = self.vec1(lambda a: self.real_to_int(st, a, self.el(i.ty).n, False), self.ev(fr, i.ops[0]))

    # -- aggregates
    def op_extractvalue(self, st, fr, i):
        v = self.ev(fr, i.ops[0])
        for k in i.x: v = v[k]
        fr.regs[i.id] = v
    def op_insertvalue(self, st, fr, i):
        v = self.ev(fr, i.ops[0]); x = self.ev(fr, i.ops[1])
        def ins(v, idx, ty):
            if not idx: return x
            v = list(v) if v is not None else [None] * (len(ty.elts) if ty.kind == 'struct' else ty.n)
            v[idx[0]] = ins(v[idx[0]], idx[1:], ty.elts[idx[0]] if ty.kind == 'struct' else ty.elts[0]); return v
        fr.regs[i.id] = ins(v, i.x, i.ty)
    def op_extractelement(self, st, fr, i):
        v, k = self.ev(fr, i.ops[0]), self.ev(fr, i.ops[1])
        if type(k) is not int: raise VCError('symbolic vector index')
        fr.regs[i.id] = v[k]
    def op_insertelement(self, st, fr, i):
        v, x, k = (self.ev(fr, o) for o in i.ops)
        if type(k) is not int: raise VCError('symbolic vector index')
        v = list(v); v[k] = x; fr.regs[i.id] = v
    def op_shufflevector(self, st, fr, i):
        v = list(self.ev(fr, i.ops[0])) + list(self.ev(fr, i.ops[1]))
        fr.regs[i.id] = [v[m] if m >= 0 else v[0] for m in i.x]

    def op_phi(self, st, fr, i): raise VCError('phi out of place')

    def op_atomicrmw(self, st, fr, i):
        p = self.ev(fr, i.ops[0]); v = self.ev(fr, i.ops[1])
        old = self.load(st, p, i.ty)
        op = i.name
        if op == 'xchg': nv = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'): nv = self.ibin(st, op, old, v, i.ty.n)
        else: raise VCError('atomicrmw ' + op)
        self.store(st, p, nv, i.ty); fr.regs[i.id] = old
    def op_atomiccmpxchg(self, st, fr, i):
        p, c, n = (self.ev(fr, o) for o in i.ops)
        ty = i.x[1]
        old = self.load(st, p, ty)
        eq = self.icmp(st, 'eq', old, c, ty)
        if self.decide(st, eq): self.store(st, p, n, ty); fr.regs[i.id] = [old, 1]
        else: fr.regs[i.id] = [old, 0]

    # -- calls
    def op_call(self, st, fr, i):
        cv, ats = i.x[0], i.x[1]
        if cv[0] == 'func': name = cv[1]
        elif cv[0] == 'asm': return
        else:
            p = self.ev(fr, cv)
            s = self.statics.get(p.obj) if type(p) is Ptr else None
            if s is None or s[0] != 'f' or p.off != 0:
                if type(p) is Ptr and p.obj == 0: self.fail(st, 'safety: call through a null pointer')
                self.fail(st, 'safety: call through an invalid pointer')
            name = s[1].name
        if name.startswith('llvm.'):
            if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch')):
                if i.op == 'invoke': self.jump(st, fr, i.x[2])
                return
        args = [self.ev(fr, o) for o in i.ops]
        self.call(st, fr, i, name, args)

    def op_invoke(self, st, fr, i): self.op_call(st, fr, i)

    def call(self, st, fr, i, name, args):
        stub = st.stubs.get(name)
        if stub is not None and not any(f.fn.name == stub for f in st.frames):
            name = stub
        b = self.builtins.get(name)
        if b is None and name.startswith('llvm.'):
            parts = name.split('.')
            for k in range(len(parts), 1, -1):
                b = self.builtins.get('.'.join(parts[:k]))
                if b is not None: break
            if b is None: raise VCError('intrinsic ' + name)
        if b is not None:
            r = b(st, fr, i, args)
            if r is NotImplemented: b = None
            elif r is self.HANDLED: return
            else:
                if i.ty.kind != 'void': fr.regs[i.id] = r
                if i.op == 'invoke': self.jump(st, fr, i.x[2])
                return
        fn = self.mod.funcs.get(name)
        if fn is None or fn.decl:
            raise VCError('external function without contract: %s' % self.dem(name))
        # by-value aggregates are passed by pointer at this level (byval): clang already copies into a temporary
        self.push_call(st, fn, args, i)
    HANDLED = object()

    # -- exceptions
    def throw(self, st, ptr, ti):
        """ptr: exception object id; ti: typeinfo symbol name"""
        self.unwind(st, ptr, ti)
        return self.HANDLED

    def ti_name(self, p):
        if p.obj == 0: return None
        return self.objname.get(p.obj)

    def ti_bases(self, st, ti):
        """[(base typeinfo, offset)]"""
        if ti in STD_BASES: return [(STD_BASES[ti], 0)] if STD_BASES[ti] else []
        g = self.mod.globals.get(ti)
        if g is None or g.init_ref is None: return []
        v = self.mod.val(g.init_ref)
        vt = v[1][0]
        # vtable address: gep of global
        vn = str(vt)
        if 'si_class_type_info' in vn: return [(v[1][2][1], 0)]
        if 'vmi_class_type_info' in vn:
            out = []
            n = v[1][3][1]
            for k in range(n):
                b = v[1][4 + 2 * k][1]; fl_ = sgn(v[1][5 + 2 * k][1], 64)
                out.append((b, fl_ >> 8))
            return out
        return []

    def ti_match(self, st, thrown, want):
        if thrown == want: return 0
        for b, o in self.ti_bases(st, thrown):
            r = self.ti_match(st, b, want)
            if r is not None: return r + o
        return None

    def unwind(self, st, exc, ti):
        while st.frames:
            fr = st.frames[-1]
            i = fr.insts[fr.ip - 1]
            if i.op == 'invoke' and fr.ip > 0:
                dest = fr.fn._blocks[i.x[3]]
                lp = None
                for x in dest.insts:
                    if x.op == 'landingpad': lp = x; break
                cleanup, clauses = lp.x
                sel = None; adj = 0
                for c, cty in clauses:
                    if cty.kind == 'array':   # filter
                        if cty.n == 0: 
                            self.fail(st, 'safety: exception leaves a function that promises not to throw')
                        continue
                    if c[0] == 'null': sel = 1; break
                    m = self.ti_match(st, ti, c[1])
                    if m is not None: sel = self.gobj(c[1]); adj = m; break
                if sel is None and cleanup: sel = 0
                if sel is not None:
                    st.excinfo = dict(st.excinfo); st.excinfo[exc] = (ti, adj)
                    self.jump(st, fr, i.x[3])
                    fr.regs[('exc',)] = [Ptr(exc, 0), sel]
                    return
            call = fr.call
            self.pop_frame(st, fr)
            if call is None and (not st.frames or True):
                st.log.append('uncaught')
                self.must(st, 0, 'safety: uncaught exception %s' % self.dem(ti), 'safety')
                raise PathEnd()
        raise PathEnd()

    def op_landingpad(self, st, fr, i):
        fr.regs[i.id] = fr.regs[('exc',)]
    def op_resume(self, st, fr, i):
        v = self.ev(fr, i.ops[0])
        exc = v[0].obj
        ti = st.excinfo[exc][0]
        # continue unwinding in the caller
        call = fr.call
        self.pop_frame(st, fr)
        if call is None:
            self.must(st, 0, 'safety: uncaught exception %s' % self.dem(ti), 'safety'); raise PathEnd()
        self.unwind(st, exc, ti)

    def op_vaarg(self, st, fr, i): raise VCError('va_arg')

def _neg(x):
    c, t = lin(x)
    r = unlin(-c, [(e, -k) for e, k in t.values()])
    return sgn(r, 64) if type(r) is int else r
