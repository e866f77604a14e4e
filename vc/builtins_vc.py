"""Trusted models: allocation, memory and string primitives, exceptions, libm, and the contract-language primitives."""
import z3, math
from fractions import Fraction
from vals import *
import exec as X

def cstr(E, st, p, limit=4096):
    """concrete C string"""
    out = bytearray()
    o = E.obj(st, p.obj, 'read')
    off = p.off
    while True:
        c = E.byte_at(st, Ptr(p.obj, off_add(off, len(out))))
        if type(c) is not int: raise VCError('symbolic string where a literal is expected')
        if c == 0: break
        out.append(c)
        if len(out) > limit: raise VCError('literal too long')
    return out.decode('latin1')

# ------------------------------------------------------------------ libm over the reals
def isnum(v): return type(v) is Fraction
def key(e):
    e = z3.simplify(e, som=True)
    return e.get_id(), e

def sqrt_(E, st, x):
    if type(x) is float: return x if x == x and x > 0 else float('nan')
    if isnum(x):
        if x < 0: return float('nan')
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
        x = z3.RealVal(x)
    elif E.decide(st, x < 0): return float('nan')
    k, e = key(x)
    t = E.trig.get(('sqrt', k))
    if t is None:
        r = E.trig.get(('root', k))
        if r is None and not z3.is_const(e):
            import ratsimp
            r = E.trig[('root', k)] = (ratsimp.nth_root(e), e); E.S.keep.append(e)
        if r is not None and r[0] is not None:      # a perfect square
            t = E.rs(r[0])
            return t if E.decide(st, real(t) >= 0) else E.fneg(t)
        s = E.fresh('sqrt', 'real'); E.trig[('sqrt', k)] = (s, e); E.S.keep.append(e)
        E.S.axiom(z3.And(s >= 0, z3.Implies(e >= 0, s * s == e))); E.rels.append((s, e))
        t = (s, e)
    return t[0]

def fabs_(E, st, x):
    if type(x) in (Fraction, float): return abs(x)
    return z3.If(x >= 0, x, -x)

def fmod_(E, st, x, y):
    if type(x) is float or type(y) is float: return E.fspecial(st, 'frem', x, y)
    if isnum(y) and y == 0: return E.fdivzero(st, Fraction(0))
    if isnum(x) and isnum(y): return x - y * Fraction(int(x / y))
    if not isnum(y) and E.o['divzero'] == 'oblige': E.must(st, y != 0, 'safety: floating point division by zero', 'safety')
    # x = k*y + r, |r| < |y|, r has the sign of x
    a, b = real(x), real(y)
    k1, ea = key(a); k2, eb = key(b)
    t = E.trig.get(('fmod', k1, k2))
    if t is None:
        E.fresh_n += 1
        k = z3.Int('fmodk!%d' % E.fresh_n); r = E.fresh('fmod', 'real')
        ab = z3.If(b >= 0, b, -b) if not isnum(y) else z3.RealVal(abs(y))
        ax = [a == z3.ToReal(k) * b + r, z3.Implies(a >= 0, z3.And(r >= 0, r < ab)), z3.Implies(a <= 0, z3.And(r <= 0, -r < ab))]
        E.S.axiom(z3.Implies(b != 0, z3.And(*ax)) if not isnum(y) else z3.And(*ax), (r, k))
        t = (r, ea, eb); E.trig[('fmod', k1, k2)] = t; E.S.keep += [ea, eb]
        # the machine's turn counts as a whole turn in sines and cosines
        if isnum(y) and abs(y - 2 * (PI_LO + PI_HI) / 2) < Fraction(1, 10 ** 6): E.trig[('turn', r.get_id())] = (a, r)
    return t[0]
def unwound(E, e):
    for p in sum_parts(e):
        co, atom = coeff(p)
        if atom is not None and co.denominator == 1:
            t = E.trig.get(('turn', atom.get_id()))
            if t is not None: return unwound(E, z3.simplify(z3.substitute(e, (atom, t[0])), som=True))
    return e

def floor_(E, st, x):
    if type(x) is float: return x
    if isnum(x): return Fraction(math.floor(x))
    return z3.ToReal(z3.ToInt(x))
def ceil_(E, st, x):
    if type(x) is float: return x
    if isnum(x): return Fraction(math.ceil(x))
    return -z3.ToReal(z3.ToInt(-x))
def trunc_(E, st, x):
    if type(x) is float: return x
    if isnum(x): return Fraction(int(x))
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
def round_(E, st, x):
    if type(x) is float: return x
    if isnum(x): return Fraction(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)
    h = z3.RealVal('1/2')
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))

def sum_parts(e):
    """split a real expression into summands (monomials with rational coefficient)"""
    e = z3.simplify(e, som=True)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD: return e.children()
    return [e]

def trig_pair(E, st, x):
    """(sin, cos) of a real: fresh symbols with the Pythagorean identity and the addition formulas over summands"""
    if type(x) is float: return float('nan'), float('nan')
    if isnum(x) and x == 0: return Fraction(0), Fraction(1)
    e = z3.simplify(real(x), som=True)
    if z3.is_rational_value(e) and e.numerator_as_long() == 0: return Fraction(0), Fraction(1)
    k = ('trig', e.get_id())
    t = E.trig.get(k)
    if t is not None: return t[0], t[1]
    u = unwound(E, e)
    if not u.eq(e):
        s, c = trig_pair(E, st, conc(u)); E.trig[k] = (s, c, e); E.S.keep.append(e); return s, c
    parts = sum_parts(e)
    if len(parts) > 1:
        s, c = trig_pair(E, st, parts[0])
        for p in parts[1:]:
            s2, c2 = trig_pair(E, st, p)
            s, c = rsimp(real(s) * real(c2) + real(c) * real(s2)), rsimp(real(c) * real(c2) - real(s) * real(s2))
        E.trig[k] = (s, c, e); E.S.keep.append(e)
        return s, c
    # negation and numeric multiples of an atom
    co, atom = coeff(e)
    if atom is not None and co < 0:
        s, c = trig_pair(E, st, z3.simplify(-e, som=True))
        r = (rsimp(-real(s)), c, e); E.trig[k] = r; E.S.keep.append(e); return r[0], r[1]
    if atom is not None and co.denominator == 1 and 1 < co <= 4:
        s1, c1 = trig_pair(E, st, atom); s, c = s1, c1
        for _ in range(int(co) - 1):
            s, c = rsimp(real(s) * real(c1) + real(c) * real(s1)), rsimp(real(c) * real(c1) - real(s) * real(s1))
        E.trig[k] = (s, c, e); E.S.keep.append(e)
        return s, c
    s = E.fresh('sin', 'real'); c = E.fresh('cos', 'real')
    E.S.axiom(s * s + c * c == 1); E.rels.append((s, z3.simplify(1 - c * c))); E.S.keep.append(E.rels[-1][1])
    E.S.axiom(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
    E.S.axiom(z3.Implies(e == 0, z3.And(s == 0, c == 1)), (s, c))
    E.trig[k] = (s, c, e); E.S.keep.append(e)
    return s, c

def rsimp(e): return conc(z3.simplify(e, som=True))
def coeff(e):
    if z3.is_rational_value(e): return None, None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(e.arg(0)):
        c = Fraction(e.arg(0).numerator_as_long(), e.arg(0).denominator_as_long())
        ch = e.children()[1:]
        return c, (ch[0] if len(ch) == 1 else z3.Product(*ch))
    return Fraction(1), e

def sin_(E, st, x): return trig_pair(E, st, x)[0]
def cos_(E, st, x): return trig_pair(E, st, x)[1]
def tan_(E, st, x):
    s, c = trig_pair(E, st, x)
    return E.fbin(st, 'fdiv', s, c)

PI_LO = Fraction(314159265358979323846, 10**20); PI_HI = PI_LO + Fraction(1, 10**20)
def uf1(E, name, x, axioms):
    k, e = key(real(x))
    t = E.trig.get((name, k))
    if t is None:
        v = E.fresh(name, 'real'); E.trig[(name, k)] = t = (v, e); E.S.keep.append(e)
        for a in axioms(v, e): E.S.axiom(a)
        # congruence with earlier applications
        for (n2, k2), t2 in list(E.trig.items()) if False else []: pass
    return t[0]

def atan2_(E, st, y, x):
    """atan2: the angle t with cos t * r = x, sin t * r = y, r = |(x,y)|"""
    if type(x) is float or type(y) is float: raise VCError('atan2 of a special value')
    if isnum(x) and isnum(y) and y == 0 and x >= 0: return Fraction(0)
    k1, ea = key(real(y)); k2, eb = key(real(x))
    t = E.trig.get(('atan2', k1, k2))
    if t is None:
        v = E.fresh('atan2', 'real'); E.S.keep += [ea, eb]
        E.trig[('atan2', k1, k2)] = t = (v, ea, eb)
        s, c = trig_pair(E, st, v)
        r = E.fresh('hyp', 'real')
        E.S.axiom(z3.And(r >= 0, r * r == ea * ea + eb * eb, eb == r * c, ea == r * s))
        hi = z3.RealVal(PI_HI)
        E.S.axiom(z3.And(v <= hi, v >= -hi, z3.Implies(z3.And(ea == 0, eb >= 0), v == 0), z3.Implies(ea > 0, v > 0), z3.Implies(ea < 0, v < 0)))
    return t[0]

def acos_(E, st, x):
    if isnum(x) and x == 1: return Fraction(0)
    k, e = key(real(x))
    t = E.trig.get(('acos', k))
    if t is None:
        v = E.fresh('acos', 'real'); E.trig[('acos', k)] = t = (v, e); E.S.keep.append(e)
        s, c = trig_pair(E, st, v)
        E.S.axiom(z3.Implies(z3.And(e >= -1, e <= 1), z3.And(real(c) == e, v >= 0, v <= z3.RealVal(PI_HI), real(s) >= 0)))
    return t[0]
def asin_(E, st, x):
    if isnum(x) and x == 0: return Fraction(0)
    k, e = key(real(x))
    t = E.trig.get(('asin', k))
    if t is None:
        v = E.fresh('asin', 'real'); E.trig[('asin', k)] = t = (v, e); E.S.keep.append(e)
        s, c = trig_pair(E, st, v)
        E.S.axiom(z3.Implies(z3.And(e >= -1, e <= 1), z3.And(real(s) == e, real(c) >= 0)))
    return t[0]
def atan_(E, st, x):
    return atan2_(E, st, x, Fraction(1))

def is_positive_product(e, pc):
    import ratsimp
    return ratsimp.sign(e, ratsimp.positives(pc)) == '+'
def hyp_pair(E, st, x):
    """(sinh, cosh) of a real: fresh symbols with the hyperbolic identity, odd/even symmetry and growth at the origin"""
    if isnum(x) and x == 0: return Fraction(0), Fraction(1)
    if type(x) is float: raise VCError('sinh of a special value')
    e = z3.simplify(real(x), som=True)
    if z3.is_rational_value(e) and e.numerator_as_long() == 0: return Fraction(0), Fraction(1)
    m = z3.simplify(-e, som=True)
    import ratsimp
    t = E.trig.get(('hyp', e.get_id()))
    if t is None:
        t = E.trig.get(('hyp', m.get_id()))
        if t is not None: t = (E.fneg(t[0]), t[1], e)
        elif ratsimp.decided(e > 0, st.pc) or is_positive_product(e, st.pc):
            # for a positive argument: sinh e = e + p, and cosh e = 2 sinh e / e - 1 + q, with p, q > 0
            p = E.fresh('sinh', 'real'); q = E.fresh('cosh', 'real')
            for a in (p > 0, q > 0): E.S.axiom(a)
            ratsimp.POSITIVE |= {p.get_id(), q.get_id()}; E.S.keep += [p, q]
            s = e + p; c = 1 + 2 * p / e + q
            E.S.axiom(c * c - s * s == 1, (p, q))
            t = (E.rs(s), E.rs(c), e)
        else:
            s = E.fresh('sinh', 'real'); c = E.fresh('cosh', 'real')
            for a in (c * c - s * s == 1, c >= 1, z3.Implies(e == 0, z3.And(s == 0, c == 1)),
                      z3.Implies(e > 0, z3.And(s > e, c > 1, e * (c + 1) > 2 * s, e * c > s)),
                      z3.Implies(e < 0, z3.And(s < e, c > 1, e * (c + 1) < 2 * s, e * c < s))): E.S.axiom(a, (s, c))
            t = (s, c, e)
        E.trig[('hyp', e.get_id())] = t; E.S.keep += [e, m]
    return t[0], t[1]
def sinh_(E, st, x): return hyp_pair(E, st, x)[0]
def cosh_(E, st, x): return hyp_pair(E, st, x)[1]
def cbrt_(E, st, x):
    if isnum(x) and x == 0: return Fraction(0)
    if not isnum(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        return cbrt_(E, st, conc(x.arg(1)) if E.decide(st, x.arg(0)) else conc(x.arg(2)))
    k, e = key(real(x))
    t = E.trig.get(('cbrt', k))
    if t is None:
        if not z3.is_const(e):
            import ratsimp
            r = ratsimp.nth_root(e, 3)
            if r is not None:
                E.S.keep.append(e); E.trig[('cbrt', k)] = (E.rs(r), e)
                return E.trig[('cbrt', k)][0]
        v = E.fresh('cbrt', 'real'); E.trig[('cbrt', k)] = t = (v, e); E.S.keep.append(e)
        E.S.axiom(z3.And(v * v * v == e, z3.Implies(e > 0, v > 0), z3.Implies(e < 0, v < 0), z3.Implies(e == 0, v == 0)))
    return t[0]

def pow_(E, st, x, y):
    if isnum(y) and y.denominator == 1 and 0 <= y <= 16:
        if y == 0: return Fraction(1)
        r = x
        for _ in range(int(y) - 1): r = E.fbin(st, 'fmul', r, x)
        return r
    if isnum(y) and y.denominator == 1 and -16 <= y < 0:
        return E.fbin(st, 'fdiv', Fraction(1), pow_(E, st, x, -y))
    if isnum(y) and y == Fraction(1, 2): return sqrt_(E, st, x)
    if isnum(y) and abs(y - Fraction(1, 3)) < Fraction(1, 10**15):
        # real cube root of a non-negative base (1/3 as a double)
        if type(x) is float: return x if x > 0 else float('nan')
        if E.decide(st, real(x) < 0): return float('nan')
        return cbrt_(E, st, x)
    raise VCError('pow with a general exponent')

def exp_(E, st, x):
    if isnum(x) and x == 0: return Fraction(1)
    return uf1(E, 'exp', x, lambda v, e: [v > 0, z3.Implies(e == 0, v == 1), z3.Implies(e > 0, v > 1), z3.Implies(e < 0, v < 1)])
def log_(E, st, x):
    if isnum(x) and x == 1: return Fraction(0)
    return uf1(E, 'log', x, lambda v, e: [z3.Implies(e == 1, v == 0), z3.Implies(e > 1, v > 0), z3.Implies(z3.And(e > 0, e < 1), v < 0)])

def fmin_(E, st, a, b):
    c = E.fcmp(st, 'olt', a, b)
    return E.ite(c, a, b)
def fmax_(E, st, a, b):
    c = E.fcmp(st, 'ogt', a, b)
    return E.ite(c, a, b)

def hypot_(E, st, a, b):
    return sqrt_(E, st, E.fbin(st, 'fadd', E.fbin(st, 'fmul', a, a), E.fbin(st, 'fmul', b, b)))

# ------------------------------------------------------------------ strings / memory
def strlen_(E, st, p, what='read'):
    p = E.toptr(p)
    k = 0
    o = E.obj(st, p.obj, 'read')
    while True:
        c = E.byte_at(st, p, k)
        if type(c) is int:
            if c == 0: return k
        elif E.decide(st, c == 0): return k
        k += 1
        if k > 65536: raise VCError('strlen limit')

def memcmp_(E, st, a, b, n):
    a, b = E.toptr(a), E.toptr(b)
    if type(n) is not int:
        n = simp(n)
        if type(n) is not int:
            k = 0
            while not E.decide(st, n == z3.BitVecVal(k, 64)):
                k += 1
                if k > 4096: raise VCError('memcmp length')
            n = k
    if n == 0: return 0
    r = None
    cs = []
    for k in range(n):
        x, y = E.byte_at(st, a, k), E.byte_at(st, b, k)
        if type(x) is int and type(y) is int:
            if x == y: continue
            base = 1 if x > y else 0xffffffff
            r = base; break
        cs.append((x, y))
    else: r = 0
    for x, y in reversed(cs):
        x, y = bv(x, 8), bv(y, 8)
        r = z3.If(x == y, bv(r, 32), z3.If(z3.UGT(x, y), z3.BitVecVal(1, 32), z3.BitVecVal(0xffffffff, 32)))
    return simp(r) if issym(r) else r

def strcmp_(E, st, a, b, n=None):
    a, b = E.toptr(a), E.toptr(b)
    k = 0
    while n is None or k < n:
        x, y = E.byte_at(st, a, k), E.byte_at(st, b, k)
        if type(x) is int and type(y) is int:
            if x != y: return 1 if x > y else 0xffffffff
            if x == 0: return 0
        else:
            xx, yy = bv(x, 8), bv(y, 8)
            if not E.decide(st, xx == yy):
                return 1 if E.decide(st, z3.UGT(xx, yy)) else 0xffffffff
            if E.decide(st, xx == 0): return 0
        k += 1
        if k > 65536: raise VCError('strcmp limit')
    return 0

def table(E):
    T = {}
    def add(*names):
        def d(f):
            for n in names: T[n] = f
            return f
        return d
    LIM = 1 << 40
    def alloc(st, n, kind, fill='uninit'):
        if type(n) is not int:
            n = simp(n)
        if type(n) is not int:
            if not E.decide(st, z3.ULE(n, z3.BitVecVal(LIM, 64))): return None
        elif n > LIM: return None
        return Ptr(E.new_obj(st, n, kind, fill, kind).id, 0)
    def throw_std(st, ti, msg=None):
        o = E.new_obj(st, 64, 'exc', 'zero', 'std exception')
        if ti not in E.static:
            E.nobj += 1; E.static[ti] = E.nobj; E.objname[E.nobj] = ti
        # a virtual table is not modelled: calling what() on it is not supported
        st.excinfo = dict(st.excinfo); st.excinfo[o.id] = (ti, 0)
        return E.throw(st, o.id, ti)
    E.throw_std = throw_std

    @add('_Znwm')
    def _(st, fr, i, a):
        p = alloc(st, a[0], 'new')
        return p if p is not None else throw_std(st, '_ZTISt9bad_alloc')
    @add('_Znam')
    def _(st, fr, i, a):
        p = alloc(st, a[0], 'new[]')
        return p if p is not None else throw_std(st, '_ZTISt9bad_alloc')
    @add('_ZnwmRKSt9nothrow_t')
    def _(st, fr, i, a): return alloc(st, a[0], 'new') or NULL
    @add('_ZnamRKSt9nothrow_t')
    def _(st, fr, i, a): return alloc(st, a[0], 'new[]') or NULL
    @add('malloc')
    def _(st, fr, i, a): return alloc(st, a[0], 'malloc') or NULL
    @add('calloc')
    def _(st, fr, i, a): return alloc(st, E.ibin(st, 'mul', a[0], a[1], 64), 'malloc', 'zero') or NULL
    @add('realloc')
    def _(st, fr, i, a):
        p = alloc(st, a[1], 'malloc')
        if a[0].obj:
            o = st.mem[a[0].obj]
            n = min(o.size, a[1]) if type(o.size) is int and type(a[1]) is int else None
            if n is None: raise VCError('realloc')
            E.copy_mem(st, p, a[0], n, 'realloc'); free(st, a[0], ('malloc',))
        return p
    def free(st, p, kinds):
        p = E.toptr(p)
        if p.obj == 0: return
        if type(p.off) is not int or p.off != 0: 
            if not (issym(p.off) and simp(p.off) == 0): E.fail(st, 'safety: free of a pointer that was not allocated')
        if p.obj in st.freed: E.fail(st, 'safety: double free')
        o = E.obj(st, p.obj, 'free')
        if o.kind not in kinds:
            if o.kind in ('new', 'new[]', 'malloc'): E.fail(st, 'safety: mismatched allocation and deallocation')
            E.fail(st, 'safety: free of a pointer that was not allocated')
        del st.mem[p.obj]; st.freed.add(p.obj)
    @add('_ZdlPv', '_ZdlPvm', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
    def _(st, fr, i, a): free(st, a[0], ('new',))
    @add('_ZdaPv', '_ZdaPvm', '_ZdaPvRKSt9nothrow_t')
    def _(st, fr, i, a): free(st, a[0], ('new[]',))
    @add('free')
    def _(st, fr, i, a): free(st, a[0], ('malloc',))
    @add('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
    def _(st, fr, i, a):
        n = a[2]
        E.copy_mem(st, a[0], a[1], n, 'memcpy'); return a[0]
    @add('llvm.memset', 'memset')
    def _(st, fr, i, a):
        b = a[1]
        b = b & 0xff if type(b) is int else (z3.Extract(7, 0, b) if b.size() > 8 else b)
        E.set_mem(st, a[0], b, a[2]); return a[0]
    @add('strlen')
    def _(st, fr, i, a): return strlen_(E, st, a[0])
    @add('memcmp', 'bcmp', '__builtin_memcmp')
    def _(st, fr, i, a): return memcmp_(E, st, *a)
    @add('strcmp')
    def _(st, fr, i, a): return strcmp_(E, st, *a)
    @add('strncmp')
    def _(st, fr, i, a): return strcmp_(E, st, *a)
    @add('strcpy')
    def _(st, fr, i, a):
        n = strlen_(E, st, a[1]); E.copy_mem(st, a[0], a[1], n + 1, 'strcpy'); return a[0]
    @add('strcat')
    def _(st, fr, i, a):
        n = strlen_(E, st, a[1]); d = strlen_(E, st, a[0])
        E.copy_mem(st, Ptr(a[0].obj, off_add(a[0].off, d)), a[1], n + 1, 'strcat'); return a[0]
    @add('memchr')
    def _(st, fr, i, a):
        p = E.toptr(a[0]); c = a[1]; n = a[2]
        c = c & 0xff if type(c) is int else z3.Extract(7, 0, c)
        if type(n) is not int: raise VCError('memchr length')
        for k in range(n):
            x = E.byte_at(st, p, k)
            if type(x) is int and type(c) is int:
                if x == c: return Ptr(p.obj, off_add(p.off, k))
            elif E.decide(st, bv(x, 8) == bv(c, 8)): return Ptr(p.obj, off_add(p.off, k))
        return NULL
    @add('strchr')
    def _(st, fr, i, a):
        p = E.toptr(a[0]); c = a[1]; c = c & 0xff if type(c) is int else z3.Extract(7, 0, c)
        k = 0
        while True:
            x = E.byte_at(st, p, k)
            if type(x) is int and type(c) is int:
                if x == c: return Ptr(p.obj, off_add(p.off, k))
            elif E.decide(st, bv(x, 8) == bv(c, 8)): return Ptr(p.obj, off_add(p.off, k))
            if type(x) is int:
                if x == 0: return NULL
            elif E.decide(st, x == 0): return NULL
            k += 1
    def is_ct(name, f):
        @add(name)
        def _(st, fr, i, a):
            c = a[0]
            if type(c) is int: return int(f(sgn(c, 32)))
            return E.decide(st, z3.Or([z3.And(c >= lo, c <= hi) for lo, hi in rng[name]])) and 1 or 0
    rng = {'isdigit': [(48, 57)], 'isspace': [(9, 13), (32, 32)], 'isalpha': [(65, 90), (97, 122)], 'isalnum': [(48, 57), (65, 90), (97, 122)],
           'isupper': [(65, 90)], 'islower': [(97, 122)], 'isprint': [(32, 126)]}
    for nm, rs in rng.items():
        is_ct(nm, (lambda rs: lambda c: any(lo <= c <= hi for lo, hi in rs))(rs))

    # ---- C++ runtime
    @add('__cxa_allocate_exception')
    def _(st, fr, i, a): return Ptr(E.new_obj(st, a[0], 'exc', 'uninit', 'exception').id, 0)
    @add('__cxa_free_exception')
    def _(st, fr, i, a):
        if a[0].obj in st.mem: del st.mem[a[0].obj]
    @add('__cxa_throw')
    def _(st, fr, i, a):
        ti = E.ti_name(a[1])
        st.excinfo = dict(st.excinfo); st.excinfo[a[0].obj] = (ti, 0)
        st.marks[('dtor', a[0].obj)] = a[2]
        return E.throw(st, a[0].obj, ti)
    @add('__cxa_begin_catch')
    def _(st, fr, i, a):
        ti, adj = st.excinfo.get(a[0].obj, (None, 0))
        st.caught = st.caught + [(a[0].obj, ti)]
        return Ptr(a[0].obj, adj)
    @add('__cxa_get_exception_ptr')
    def _(st, fr, i, a):
        ti, adj = st.excinfo.get(a[0].obj, (None, 0)); return Ptr(a[0].obj, adj)
    @add('__cxa_end_catch')
    def _(st, fr, i, a):
        o, ti = st.caught[-1]; st.caught = st.caught[:-1]
        if st.marks.pop(('rethrown', o), None): return      # in flight again
        if any(x == o for x, _ in st.caught): return
        d = st.marks.pop(('dtor', o), None)
        f = E.statics.get(d.obj) if type(d) is Ptr else None
        if f is not None and f[0] == 'f':
            E.call(st, fr, i, f[1].name, [Ptr(o, 0)]); return E.HANDLED
    @add('__cxa_rethrow')
    def _(st, fr, i, a):
        if not st.caught: E.fail(st, 'safety: rethrow without an exception')
        o, ti = st.caught[-1]; st.marks[('rethrown', o)] = True
        return E.throw(st, o, ti)
    @add('_ZSt9terminatev', '__cxa_call_unexpected', 'abort', '_ZSt10unexpectedv', '__cxa_pure_virtual', '__clang_call_terminate')
    def _(st, fr, i, a): E.fail(st, 'safety: the program is terminated')
    @add('__assert_fail')
    def _(st, fr, i, a): E.fail(st, 'safety: assertion in the code fails: ' + cstr(E, st, a[0]))
    @add('exit', '_exit', '_Exit')
    def _(st, fr, i, a):
        h = E.mod.funcs.get('vc_on_exit')
        if h is not None and not h.decl:
            E.push_call(st, h, [a[0]], None); st.frames[-1].call = None
            st.frames = st.frames[-1:]
            return E.HANDLED
        raise X.PathEnd()
    @add('__cxa_atexit', 'atexit')
    def _(st, fr, i, a): return 0
    @add('__cxa_guard_acquire')
    def _(st, fr, i, a):
        v = E.byte_at(st, a[0]); 
        return 0 if v == 1 else 1
    @add('__cxa_guard_release')
    def _(st, fr, i, a): E.store(st, a[0], 1, E.i8())
    @add('__cxa_guard_abort')
    def _(st, fr, i, a): pass
    @add('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
    def _(st, fr, i, a): pass
    @add('__dynamic_cast')
    def _(st, fr, i, a):
        p = E.toptr(a[0])
        if p.obj == 0: return NULL
        pty = [t for t in E.mod.types.values() if t.kind == 'ptr'][0]
        i64 = [t for t in E.mod.types.values() if t.kind == 'int' and t.n == 64][0]
        vt = E.load(st, p, pty)
        top = E.load(st, Ptr(vt.obj, off_add(vt.off, -16)), i64)
        ti = E.load(st, Ptr(vt.obj, off_add(vt.off, -8)), pty)
        want = E.ti_name(a[2]); have = E.ti_name(ti)
        full = Ptr(p.obj, off_add(p.off, sgn(top, 64)))
        m = E.ti_match(st, have, want)
        return NULL if m is None else Ptr(full.obj, off_add(full.off, m))
    for nm, ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
                   ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
                   ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
                   ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'), ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
                   ('__cxa_throw_bad_array_new_length', '_ZTISt20bad_array_new_length'),
                   ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error')):
        T[nm] = (lambda ti: lambda st, fr, i, a: throw_std(st, ti))(ti)
    @add('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev')
    def _(st, fr, i, a): pass
    @add('_ZSt18uncaught_exceptionv')
    def _(st, fr, i, a): return 0
    # std::list node hooks (libstdc++.so)
    @add('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
    def _(st, fr, i, a):
        n, pos = a
        pt = E.pty()
        prev = E.load(st, Ptr(pos.obj, off_add(pos.off, 8)), pt)
        E.store(st, n, pos, pt); E.store(st, Ptr(n.obj, off_add(n.off, 8)), prev, pt)
        E.store(st, prev, n, pt); E.store(st, Ptr(pos.obj, off_add(pos.off, 8)), n, pt)
    @add('_ZNSt8__detail15_List_node_base9_M_unhookEv')
    def _(st, fr, i, a):
        n = a[0]; pt = E.pty()
        nx = E.load(st, n, pt); pv = E.load(st, Ptr(n.obj, off_add(n.off, 8)), pt)
        E.store(st, pv, nx, pt); E.store(st, Ptr(nx.obj, off_add(nx.off, 8)), pv, pt)
    @add('_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
    def _(st, fr, i, a):
        pos, first, last = a; pt = E.pty()
        L_ = lambda p, d: E.load(st, Ptr(p.obj, off_add(p.off, d)), pt)
        W = lambda p, d, v: E.store(st, Ptr(p.obj, off_add(p.off, d)), v, pt)
        if (pos.obj, pos.off) == (last.obj, last.off): return
        lp, fp, pp = L_(last, 8), L_(first, 8), L_(pos, 8)
        W(lp, 0, pos); W(fp, 0, last); W(pp, 0, first)
        W(pos, 8, lp); W(last, 8, fp); W(first, 8, pp)
    @add('_ZNSt8__detail15_List_node_base4swapERS0_S1_')
    def _(st, fr, i, a): raise VCError('list swap')
    # red-black trees: kept as an ordered, unbalanced binary search tree (balance is not observable)
    @add('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
    def _(st, fr, i, a):
        left, x, p, h = a; pt = E.pty(); i32 = E.i32()
        at = lambda q, d: Ptr(q.obj, off_add(q.off, d))
        G = lambda q, d: E.load(st, at(q, d), pt)
        W = lambda q, d, v: E.store(st, at(q, d), v, pt)
        same = lambda u, v: u.obj == v.obj and u.off == v.off
        W(x, 8, p); W(x, 16, NULL); W(x, 24, NULL); E.store(st, x, 1, i32)
        if E.decide(st, boolv(left)) if issym(left) else left & 1:
            W(p, 16, x)
            if same(p, h): W(h, 8, x); W(h, 24, x)
            elif same(p, G(h, 16)): W(h, 16, x)
        else:
            W(p, 24, x)
            if same(p, G(h, 24)): W(h, 24, x)
    def tree_next(st, x):
        pt = E.pty()
        at = lambda q, d: Ptr(q.obj, off_add(q.off, d))
        G = lambda q, d: E.load(st, at(q, d), pt)
        same = lambda u, v: u.obj == v.obj and u.off == v.off
        r = G(x, 24)
        if r.obj:
            x = r
            while G(x, 16).obj: x = G(x, 16)
            return x
        y = G(x, 8)
        while same(x, G(y, 24)): x = y; y = G(y, 8)
        return y if not same(G(x, 24), y) else x
    def tree_prev(st, x):
        pt = E.pty()
        at = lambda q, d: Ptr(q.obj, off_add(q.off, d))
        G = lambda q, d: E.load(st, at(q, d), pt)
        same = lambda u, v: u.obj == v.obj and u.off == v.off
        if E.load(st, x, E.i32()) == 0 and same(G(G(x, 8), 8), x): return G(x, 24)   # header (red) -> rightmost
        l = G(x, 16)
        if l.obj:
            y = l
            while G(y, 24).obj: y = G(y, 24)
            return y
        y = G(x, 8)
        while same(x, G(y, 16)): x = y; y = G(y, 8)
        return y
    @add('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
    def _(st, fr, i, a): return tree_next(st, a[0])
    @add('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
    def _(st, fr, i, a): return tree_prev(st, a[0])
    @add('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
    def _(st, fr, i, a):
        z, h = a; pt = E.pty()
        at = lambda q, d: Ptr(q.obj, off_add(q.off, d))
        G = lambda q, d: E.load(st, at(q, d), pt)
        W = lambda q, d, v: E.store(st, at(q, d), v, pt)
        same = lambda u, v: u.obj == v.obj and u.off == v.off
        l, r, p = G(z, 16), G(z, 24), G(z, 8)
        # leftmost / rightmost
        if same(G(h, 16), z): W(h, 16, tree_next(st, z))
        if same(G(h, 24), z): W(h, 24, tree_prev(st, z))
        def repl(old, new):
            q = G(old, 8)
            if same(G(h, 8), old): W(h, 8, new)
            elif same(G(q, 16), old): W(q, 16, new)
            else: W(q, 24, new)
            if new.obj: W(new, 8, q)
        if not l.obj: repl(z, r)
        elif not r.obj: repl(z, l)
        else:
            y = r
            while G(y, 16).obj: y = G(y, 16)
            if not same(G(y, 8), z):
                repl(y, G(y, 24)); W(y, 24, r); W(r, 8, y)
            repl(z, y); W(y, 16, l); W(l, 8, y)
        if not G(h, 8).obj: W(h, 16, h); W(h, 24, h)
        return z
    def pty():
        if not hasattr(E, '_pty'): E._pty = [t for t in E.mod.types.values() if t.kind == 'ptr'][0]
        return E._pty
    E.pty = pty
    def i32():
        if not hasattr(E, '_i32'): E._i32 = [t for t in E.mod.types.values() if t.kind == 'int' and t.n == 32][0]
        return E._i32
    E.i32 = i32

    # ---- errno
    @add('__errno_location')
    def _(st, fr, i, a):
        o = st.marks.get('errno')
        if o is None:
            st.marks = dict(st.marks); o = st.marks['errno'] = E.new_obj(st, 4, 'global', 'uninit', 'errno').id
        return Ptr(o, 0)

    # ---- output that no property observes
    def ret0(st, fr, i, a): return 0
    for nm in ('puts', 'printf', 'putchar', 'fflush', 'perror', 'fprintf', 'sched_yield', 'usleep'): T[nm] = ret0

    # ---- libm
    def m1(f): return lambda st, fr, i, a: E.vec1(lambda x: f(E, st, x), a[0])
    def m2(f): return lambda st, fr, i, a: E.vec2(lambda x, y: f(E, st, x, y), a[0], a[1])
    for nm, f in (('sqrt', sqrt_), ('fabs', fabs_), ('floor', floor_), ('ceil', ceil_), ('trunc', trunc_), ('round', round_), ('sin', sin_), ('cos', cos_), ('tan', tan_),
                  ('acos', acos_), ('asin', asin_), ('atan', atan_), ('cbrt', cbrt_), ('sinh', sinh_), ('cosh', cosh_), ('exp', exp_), ('log', log_)):
        for v in (nm, nm + 'f', nm + 'l'): T[v] = m1(f)
        T['llvm.' + nm] = m1(f)
    for nm, f in (('fmod', fmod_), ('atan2', atan2_), ('pow', pow_), ('fmin', fmin_), ('fmax', fmax_), ('hypot', hypot_)):
        for v in (nm, nm + 'f', nm + 'l'): T[v] = m2(f)
    T['llvm.pow'] = m2(pow_); T['llvm.minnum'] = m2(fmin_); T['llvm.maxnum'] = m2(fmax_)
    @add('llvm.fmuladd', 'llvm.fma', 'fma')
    def _(st, fr, i, a): return E.vec2(lambda x, y: x, [0], [0]) and (E.fbin(st, 'fadd', E.fbin(st, 'fmul', a[0], a[1]), a[2]) if type(a[0]) is not list else [E.fbin(st, 'fadd', E.fbin(st, 'fmul', x, y), z) for x, y, z in zip(*a[:3])])
    @add('llvm.powi')
    def _(st, fr, i, a): return pow_(E, st, a[0], Fraction(sgn(a[1], 32)))
    @add('llvm.copysign', 'copysign')
    def _(st, fr, i, a):
        x = fabs_(E, st, a[0])
        neg = E.decide(st, E.fcmp(st, 'olt', a[1], Fraction(0)))
        return E.fneg(x) if neg else x
    @add('llvm.is.fpclass')
    def _(st, fr, i, a):
        x, m = a[0], a[1]
        if type(x) is float:
            if x != x: return int(bool(m & 3))
            return int(bool(m & (0x200 if x > 0 else 0x4)))
        r = []
        z = Fraction(0)
        fin_pos = m & 0x100; fin_neg = m & 0x8; zero = m & 0x60
        out = 0
        if fin_pos: out = E.ibin(st, 'or', out, E.fcmp(st, 'ogt', x, z), 1)
        if fin_neg: out = E.ibin(st, 'or', out, E.fcmp(st, 'olt', x, z), 1)
        if zero: out = E.ibin(st, 'or', out, E.fcmp(st, 'oeq', x, z), 1)
        return out
    # ---- integer intrinsics
    @add('llvm.abs')
    def _(st, fr, i, a):
        n = E.el(i.ty).n
        def f(x):
            if type(x) is int: return abs(sgn(x, n)) & mask(n)
            return simp(z3.If(x < 0, -x, x))
        return E.vec1(f, a[0])
    def mm(nm, pred):
        T['llvm.' + nm] = lambda st, fr, i, a: E.vec2(lambda x, y: E.ite_w(E.icmp(st, pred, x, y, E.el(i.ty)), x, y, E.el(i.ty).n), a[0], a[1])
    mm('smax', 'sgt'); mm('smin', 'slt'); mm('umax', 'ugt'); mm('umin', 'ult')
    def wov(op, signed):
        def f(st, fr, i, a):
            n = i.ty.elts[0].n
            x, y = a[0], a[1]
            r = E.ibin(None, op, x, y, n, (False, False))
            if type(x) is int and type(y) is int:
                u, v = (sgn(x, n), sgn(y, n)) if signed else (x, y)
                t = u + v if op == 'add' else u - v if op == 'sub' else u * v
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, mask(n))
                return [r, int(not lo <= t <= hi)]
            x, y = bv(x, n), bv(y, n)
            if op == 'add': c = z3.And(z3.BVAddNoOverflow(x, y, signed), z3.BVAddNoUnderflow(x, y)) if signed else z3.BVAddNoOverflow(x, y, False)
            elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if signed else z3.UGE(x, y)
            else: c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)) if signed else z3.BVMulNoOverflow(x, y, False)
            return [r, simp(z3.Not(c))]
        return f
    for op in ('add', 'sub', 'mul'):
        T['llvm.s%s.with.overflow' % op] = wov(op, True); T['llvm.u%s.with.overflow' % op] = wov(op, False)
    @add('llvm.eh.typeid.for')
    def _(st, fr, i, a): return a[0].obj if a[0].obj else 1
    @add('llvm.stacksave')
    def _(st, fr, i, a): return NULL
    @add('llvm.stackrestore', 'llvm.trap', 'llvm.donothing', 'llvm.assume', 'llvm.va_end')
    def _(st, fr, i, a):
        return None
    @add('llvm.trap')
    def _(st, fr, i, a): E.fail(st, 'safety: trap')
    @add('llvm.expect')
    def _(st, fr, i, a): return a[0]
    @add('llvm.objectsize')
    def _(st, fr, i, a): return mask(i.ty.n)
    @add('llvm.is.constant')
    def _(st, fr, i, a): return 0
    @add('llvm.ctlz')
    def _(st, fr, i, a):
        n = i.ty.n; x = a[0]
        if type(x) is int: return n - x.bit_length()
        r = z3.BitVecVal(n, n)
        for k in range(n): r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(n - 1 - k, n), r)
        return r
    @add('llvm.va_start')
    def _(st, fr, i, a): st.marks = dict(st.marks); st.marks['va'] = fr.regs.get('va', [])
    # ---- pthread primitives: sequential semantics (schedules are outside this family)
    for nm in ('pthread_mutexattr_init', 'pthread_mutexattr_destroy', 'pthread_mutexattr_settype', 'pthread_mutexattr_gettype'):
        T.setdefault(nm, ret0)

    # ---- contract language
    def any_(kind, bits):
        def f(st, fr, i, a):
            nm = cstr(E, st, a[0])
            if kind == 'f': v = E.fresh(nm, 'real')
            elif kind == 'b': v = E.fresh(nm, 'bool')
            else: v = E.fresh(nm, bits)
            st.inputs.append((kind, nm, bits, v))
            return v
        return f
    for b in (8, 16, 32, 64): T['__vc_any_i%d' % b] = any_('i', b)
    T['__vc_any_bool'] = any_('b', 1)
    T['__vc_any_real'] = any_('f', 64)
    @add('__vc_any_range')
    def _(st, fr, i, a):
        nm = cstr(E, st, a[0]); lo, hi = sgn(a[1], 32), sgn(a[2], 32)
        v = E.fresh(nm, 32)
        st.inputs.append(('i', nm, 32, v))
        E.assume(st, z3.And(v >= lo, v <= hi)); return v
    for b in (8, 32, 64): T['__vc_havoc_i%d' % b] = (lambda b: lambda st, fr, i, a: E.fresh('havoc', b))(b)
    T['__vc_havoc_bool'] = lambda st, fr, i, a: E.fresh('havoc', 'bool')
    T['__vc_havoc_real'] = lambda st, fr, i, a: E.fresh('havoc', 'real')
    @add('__vc_assume')
    def _(st, fr, i, a):
        c = a[0]
        if not E.decide_assume(st, c): raise X.PathEnd()
    def decide_assume(st, c):
        if type(c) is int: return bool(c)
        c = simp(boolv(c))
        if type(c) is int: return bool(c)
        if not E.sat(st, c): return False
        E.assume(st, c); return True
    E.decide_assume = decide_assume
    @add('__vc_assert')
    def _(st, fr, i, a):
        c = a[0]
        E.must(st, c if type(c) is int else boolv(c), cstr(E, st, a[1]), 'ensures')
    @add('__vc_cover')
    def _(st, fr, i, a):
        nm = cstr(E, st, a[1])
        if E.covers.get(nm): return
        c = a[0] if type(a[0]) is int else simp(boolv(a[0]))
        E.covers[nm] = bool(c) if type(c) is int else E.sat(st, c)
    @add('__vc_case')
    def _(st, fr, i, a): return E.case
    @add('__vc_symbolic')
    def _(st, fr, i, a): return 1
    def array_obj(st, name, n, es, kind, okind):
        size = n * es if type(n) is int else E.ibin(None, 'mul', n, es, 64)
        o = E.new_obj(st, size, okind, 'uninit', name)
        arr = E.base_arr(name, kind, es * 8)
        o.arr = [X.Region(0, None, es, {0: (es, kind, arr)})]
        return o, arr
    @add('__vc_fresh')
    def _(st, fr, i, a):
        # name, n, elemsize, kind ('i' or 'f'), heap kind
        nm = cstr(E, st, a[0]); n, es, kd, hk = a[1:5]
        kind = chr(kd); okind = ('new[]', 'malloc', 'new')[hk]
        n = simp(n) if issym(n) else n
        if type(n) is int and n * es <= 4096:
            o = E.new_obj(st, n * es, okind, 'uninit', nm); st.marks[('fresh', o.id)] = True
            return Ptr(o.id, 0) if fill_cells(st, o.id, 0, nm, n, es, kind) is None else None
        o, arr = array_obj(st, nm, n, es, kind, okind); st.marks[('fresh', o.id)] = True
        st.inputs.append(('array', nm, es * 8, (n, kind, es, arr, 0)))
        return Ptr(o.id, 0)
    def fill_cells(st, oid, off, nm, n, es, kind):
        arr = None
        vals = []
        for k in range(n):
            v = E.fresh('%s[%d]' % (nm, k), 'real' if kind == 'f' else es * 8)
            o = E.wobj(st, oid)
            E.store_conc(o, off + k * es, v, es)
            vals.append(v)
        st.inputs.append(('array', nm, es * 8, (n, kind, es, CellArr(vals), 0)))
    class CellArr:
        k = 'cells'
        def __init__(self, v): self.v = v
    E._aread = E.aread
    def aread(a, i):
        if type(a) is CellArr: return a.v[i]
        return E._aread(a, i)
    E.aread = aread
    @add('__vc_fill')
    def _(st, fr, i, a):
        # name, ptr, n, elemsize, kind: arbitrary contents for n elements at ptr
        nm = cstr(E, st, a[0]); p, n, es, kd = a[1:5]; kind = chr(kd)
        o = E.wobj(st, p.obj)
        n = simp(n) if issym(n) else n
        E.bounds(st, o, p.off, n * es if type(n) is int else E.ibin(None, 'mul', n, es, 64), 'write')
        o = E.wobj(st, p.obj)
        if type(n) is int and type(p.off) is int and o.arr is None and n <= 256:
            fill_cells(st, p.obj, p.off, nm, n, es, kind); return
        arr = E.base_arr(nm, kind, es * 8)
        st.inputs.append(('array', nm, es * 8, (n, kind, es, arr, 0)))
        r = E.region(st, o, p.off, n * es if type(n) is int else E.ibin(None, 'mul', n, es, 64)) if o.arr is not None else None
        if r is None and type(n) is int and type(p.off) is int and type(o.size) is int and (n * es < o.size):
            for k in range(p.off - 15, p.off + n * es):
                c = o.cells.get(k)
                if c is not None and k + c[1] > p.off:
                    if k < p.off or k + c[1] > p.off + n * es: raise VCError('havoc of part of a cell')
                    del o.cells[k]
            if o.arr is None: o.arr = []
            o.arr.append(X.Region(p.off, p.off + n * es, es, {0: (es, kind, arr)})); return
        if r is None: r = E.to_arr(o, es, es, kind)
        f = E.arr_field(st, o, r, 0, es, kind)
        sp = E.split_off(off_add(p.off, -r.lo), es)
        r.fields[0] = (es, kind, X.ArrVal('copy', f[2], sp[0], n, arr, 0))
    @add('__vc_concretize')
    def _(st, fr, i, a):
        v = a[0]; lo = a[1]; hi = a[2]
        if type(v) is int: return v
        for k in range(lo, hi + 1):
            if E.decide(st, v == z3.BitVecVal(k, 64)): return k
        E.fail(st, 'contract: concretised value out of the stated range')
    @add('__vc_option')
    def _(st, fr, i, a):
        k = cstr(E, st, a[0]); v = cstr(E, st, a[1])
        E.o[k] = {'true': True, 'false': False}.get(v, int(v) if v.lstrip('-').isdigit() else v)
    @add('__vc_replace')
    def _(st, fr, i, a):
        nm = cstr(E, st, a[0]); tgt = E.objname[a[1].obj]
        m = E.find_funcs(nm)
        if not m: raise VCError('no function matches the contract target %s' % nm)
        st.stubs = dict(st.stubs)
        for x in m:
            if x != tgt: st.stubs[x] = tgt
    @add('__vc_real_eq')
    def _(st, fr, i, a):
        x, y = a[0], a[1]
        if type(x) is float or type(y) is float: return E.fcmp(st, 'oeq', x, y)
        if isnum(x) and isnum(y): return int(x == y)
        d = z3.simplify(real(x) - real(y), som=True)
        if z3.is_rational_value(d): return int(d.numerator_as_long() == 0)
        import ratsimp
        if E.trig.get(('zero', d.get_id())) is None: E.trig[('zero', d.get_id())] = (ratsimp.is_zero(d, (), E.rels), d)
        if E.trig[('zero', d.get_id())][0] or ratsimp.is_zero(d, st.pc, E.rels): return 1     # divisors are not zero: each was checked where it was used
        return real(x) == real(y)
    @add('__vc_heap_mark')
    def _(st, fr, i, a):
        st.marks = dict(st.marks); st.marks['heap'] = set(k for k, o in st.mem.items() if o.kind in ('new', 'new[]', 'malloc'))
    @add('__vc_no_leak')
    def _(st, fr, i, a):
        m = st.marks.get('heap', set())
        return int(all(k in m or ('fresh', k) in st.marks for k, o in st.mem.items() if o.kind in ('new', 'new[]', 'malloc')))
    @add('__vc_heap_live')
    def _(st, fr, i, a):
        return sum(1 for o in st.mem.values() if o.kind in ('new', 'new[]', 'malloc'))
    @add('__vc_snapshot')
    def _(st, fr, i, a):
        st.snap = {'mem': dict(st.mem), 'frames': len(st.frames), 'assigns': []}
        st.token = object()      # everything written from here on is copied first
    @add('__vc_assigns')
    def _(st, fr, i, a):
        s = dict(st.snap); s['assigns'] = s['assigns'] + [(a[0], a[1])]; st.snap = s
    @add('__vc_frame')
    def _(st, fr, i, a):
        """no object that existed at the snapshot changed outside the assigned ranges"""
        nm = cstr(E, st, a[0])
        res = z3.BoolVal(True)
        allowed = {}
        for p, n in st.snap['assigns']: allowed.setdefault(p.obj, []).append((p.off, n))
        live = set(x for f in st.frames for x in f.allocas)
        for oid, old in st.snap['mem'].items():
            new = st.mem.get(oid)
            if new is old or old.kind == 'exc': continue
            if old.kind == 'stack' and oid not in live: continue
            if oid in live and (fr.allocas and oid in fr.allocas) and oid not in allowed and old.name in ('', 'tmp') : pass
            if new is None:
                E.must(st, 0, nm + ' (object %s destroyed)' % old.name, 'frame'); continue
            if new.arr is not None or old.arr is not None:
                if new.arr is None or old.arr is None or len(new.arr) != len(old.arr): raise VCError('frame over a re-shaped array')
                for nr, orr in zip(new.arr, old.arr):
                    s = nr.stride
                    E.fresh_n += 1
                    k = z3.BitVec('frame!%d' % E.fresh_n, 64)
                    top = (nr.hi - nr.lo) // s if nr.hi is not None else E.split_off(new.size, s)[0]
                    conds = [z3.ULT(k, bv(top, 64))]
                    for off, n in allowed.get(oid, []):
                        b = E.split_off(off_add(off, -nr.lo), s); c = E.split_off(n, s)
                        if b is None or c is None: raise VCError('frame alignment')
                        conds.append(z3.Not(boolv(E.inrange(k, b[0], c[0]))))
                    for fo, f in nr.fields.items():
                        g = orr.fields.get(fo)
                        if g is None or g[2] is f[2]: continue
                        x, y = E.aread(f[2], k), E.aread(g[2], k)
                        eq = real(x) == real(y) if f[1] == 'f' else bv(x, f[0] * 8) == bv(y, f[0] * 8)
                        res = z3.And(res, z3.Implies(z3.And(*conds), eq))
            offs = set(old.cells) | set(new.cells)
            for off in offs:
                c, d = old.cells.get(off), new.cells.get(off)
                if c is d or (c is not None and d is not None and c[0] is d[0] and c[1] == d[1]): continue
                n = (d or c)[1]
                if any(type(o2) is int and type(n2) is int and o2 <= off and off + n <= o2 + n2 for o2, n2 in allowed.get(oid, [])): continue
                if c is None:      # previously unread / uninitialised
                    if old.fill == 'uninit' and d is not None and issym(d[0]) and str(d[0]).startswith('uninit'): continue
                    E.must(st, 0, nm + ' (writes %s+%s)' % (old.name, off), 'frame'); continue
                if d is None or c[1] != d[1]:
                    E.must(st, 0, nm + ' (reshapes %s+%s)' % (old.name, off), 'frame'); continue
                if type(c[0]) is Ptr or type(d[0]) is Ptr:
                    same = type(c[0]) is type(d[0]) and c[0].obj == d[0].obj and type(c[0].off) is int and c[0].off == d[0].off
                    if not same: E.must(st, 0, nm + ' (writes %s+%s)' % (old.name, off), 'frame')
                    continue
                if not issym(c[0]) and not issym(d[0]):
                    if c[0] != d[0]: E.must(st, 0, nm + ' (writes %s+%s)' % (old.name, off), 'frame')
                    continue
                if E.vkind(c[0]) == 'f': eq = real(c[0]) == real(d[0])
                else: eq = bv(c[0], c[1] * 8) == bv(d[0], c[1] * 8)
                res = z3.And(res, eq)
        E.must(st, res, nm, 'frame')
    return T
