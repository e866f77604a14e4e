"""Value domain of the executor: integers (python int / z3 bit-vector), reals (Fraction / z3 Real / inf / nan), pointers."""
import z3, math, struct
from fractions import Fraction

class VCError(Exception):
    """The engine cannot decide this (unsupported construct, missing contract, limit): undecided, never a violation."""

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0): self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, self.off)

class PInt:
    """integer that carries a pointer (ptrtoint)"""
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return 'PInt(%s,%s)' % (self.obj, self.off)

M64 = (1 << 64) - 1
NULL = Ptr(0, 0)
def addr_of(p):
    base = 0 if p.obj == 0 else (p.obj << 32)
    if type(p.off) is int: return (base + p.off) & M64
    return z3.BitVecVal(base, 64) + p.off

def issym(v): return isinstance(v, z3.ExprRef)
def mask(n): return (1 << n) - 1
def sgn(v, n): return v - (1 << n) if v >> (n - 1) else v

def bv(v, n):
    """as z3 bit-vector of n bits"""
    if type(v) is int: return z3.BitVecVal(v, n)
    if type(v) is PInt: return bv(addr_of(v), n)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v

def simp(e):
    """simplify; concretise numerals to python values"""
    e = z3.simplify(e)
    return conc(e)

def simp_bv(e):
    """simplify, staying a term"""
    return z3.simplify(e)

def conc(e):
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e

def real(v):
    if type(v) is Fraction:
        return z3.RealVal(v)
    if isinstance(v, z3.ArithRef): return v
    if type(v) is int: return z3.RealVal(v)
    raise VCError('non-finite float value used symbolically: %r' % (v,))

def boolv(v):
    if type(v) is int: return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef): return v
    return v == z3.BitVecVal(1, 1)

def bits_to_float(x, n):
    d = struct.unpack('<d', struct.pack('<Q', x))[0] if n == 8 else struct.unpack('<f', struct.pack('<I', x))[0]
    return fl(d)

def float_to_bits(f, n):
    d = float(f)
    try:
        return struct.unpack('<Q', struct.pack('<d', d))[0] if n == 8 else struct.unpack('<I', struct.pack('<f', d))[0]
    except OverflowError:
        raise VCError('float bits')

def fl(d):
    if math.isinf(d) or math.isnan(d): return d
    return Fraction(d)

def lin(e):
    """decompose a 64-bit expression into (const, {id: (term, coeff)})"""
    const = 0; terms = {}
    stack = [(e, 1)]
    while stack:
        x, c = stack.pop()
        if type(x) is int: const += c * x; continue
        if z3.is_bv_value(x): const += c * x.as_long(); continue
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_BADD:
            for ch in x.children(): stack.append((ch, c))
            continue
        if k == z3.Z3_OP_BSUB:
            ch = x.children(); stack.append((ch[0], c))
            for y in ch[1:]: stack.append((y, -c))
            continue
        if k == z3.Z3_OP_BNEG: stack.append((x.arg(0), -c)); continue
        if k == z3.Z3_OP_BMUL and x.num_args() == 2:
            a, b = x.arg(0), x.arg(1)
            if z3.is_bv_value(a): stack.append((b, c * a.as_long())); continue
            if z3.is_bv_value(b): stack.append((a, c * b.as_long())); continue
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
            stack.append((x.arg(0), c << x.arg(1).as_long())); continue
        if k == z3.Z3_OP_CONCAT:
            # concat(extract(hi..0, t), 0..0) is t * 2^k when no bits are lost; simplify() writes shifts this way
            last = x.arg(x.num_args() - 1)
            if x.num_args() == 2 and z3.is_bv_value(last) and last.as_long() == 0:
                sh = last.size(); t = x.arg(0)
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_EXTRACT and t.params()[1] == 0 and t.arg(0).size() == x.size():
                    stack.append((t.arg(0), c << sh)); continue
        i = x.get_id()
        if i in terms: terms[i] = (x, terms[i][1] + c)
        else: terms[i] = (x, c)
    const = sgn(const & M64, 64)
    out = {}
    for i, (x, c) in terms.items():
        c &= M64
        c = sgn(c, 64)
        if c: out[i] = (x, c)
    return const, out

def unlin(const, terms):
    r = None
    for x, c in terms:
        t = x if c == 1 else x * z3.BitVecVal(c, 64)
        r = t if r is None else r + t
    if r is None: return const & M64
    if const: r = r + z3.BitVecVal(const, 64)
    return r

def off_add(a, b):
    if type(a) is int and type(b) is int: return sgn((a + b) & M64, 64)
    return _norm(bv(a & M64 if type(a) is int else a, 64) + bv(b & M64 if type(b) is int else b, 64))

def _norm(e):
    c, t = lin(e)
    r = unlin(c, t.values())
    return sgn(r, 64) if type(r) is int else r

def off_scale(i, s):
    if type(i) is int: return sgn((sgn(i & M64, 64) * s) & M64, 64)
    return _norm(i * z3.BitVecVal(s, 64))
