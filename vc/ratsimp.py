"""Exact simplification of real terms with sympy: cancelling quotients and taking square roots of perfect squares."""
import z3, sympy
from fractions import Fraction
class Big(Exception): pass
def quotient(a, b):
    """a / b cancelled (b is not zero), or None"""
    try:
        f, atoms, _ = fraction(a / b, 400, 200)
        if f is None or len(atoms) > 12: return None
        return from_fraction(f, atoms)
    except Big: return None
def from_poly(p, atoms):
    if not p: return z3.RealVal(0)
    out = []
    for m, c in p.terms():
        fs = [atoms[i] for i, k in enumerate(m) for _ in range(k)]
        c = z3.RealVal('%s/%s' % (c.numerator, c.denominator))
        out.append(z3.Product([c] + fs) if fs else c)
    return z3.Sum(out) if len(out) > 1 else out[0]
def from_fraction(f, atoms):
    n, d = f.numer, f.denom
    if d.is_ground: return from_poly(n.quo_ground(d.LC), atoms)
    return from_poly(n, atoms) / from_poly(d, atoms)
def nth_root(e, k=2):
    """t with t**k == e identically (k = 2, 3), or None"""
    try:
        f, atoms, _ = fraction(e, 1500, 1500)
        if f is None: return None
        t = z3.RealVal(1)
        for part, sgn in ((f.numer, 1), (f.denom, -1)):
            c, fs = part.factor_list()
            if any(m % k for _, m in fs): return None
            c = sympy.Rational(int(c.numerator), int(c.denominator))
            if k == 2 and c < 0: return None
            r = sympy.sqrt(c) if k == 2 else sympy.sign(c) * sympy.root(abs(c), k)
            if not r.is_Rational: return None
            q = z3.RealVal('%d/%d' % (r.p, r.q))
            for g, m in fs: q = q * z3.Product([from_poly(g, atoms)] * (m // k))
            t = t * q if sgn > 0 else t / q
        return z3.simplify(t)
    except (Big, sympy.PolynomialError): return None
from sympy.polys.fields import field
from sympy.polys.domains import QQ
_REAL = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV)
def fraction(e, maxnodes=4000, maxterms=6000, rels=()):
    """e as an element of the field of rational functions over its atoms, and the atoms"""
    seen = {}; atoms = []; order = []; todo = [e]
    while True:
        if not todo:
            # the squares that the atoms stand for
            todo = [x for t, x in rels if t.get_id() in seen and x.get_id() not in seen]
            if not todo: break
        x = todo.pop()
        if type(x) is tuple: order.append(x[0]); continue
        if x.get_id() in seen: continue
        seen[x.get_id()] = x
        if len(seen) > maxnodes: raise Big
        todo.append((x,))
        if z3.is_app(x) and x.decl().kind() in _REAL: todo.extend(x.children())
        elif not z3.is_rational_value(x): atoms.append(x)
    if len(atoms) > 16: raise Big
    if not atoms: return None, None, None
    F, *gens = field(['v%d' % i for i in range(len(atoms))], QQ)
    val = {a.get_id(): g for a, g in zip(atoms, gens)}
    for x in order:
        i = x.get_id()
        if i in val: continue
        if z3.is_rational_value(x): val[i] = F(QQ(x.numerator_as_long(), x.denominator_as_long())); continue
        k = x.decl().kind(); c = [val[y.get_id()] for y in x.children()]
        r = c[0]
        if k == z3.Z3_OP_ADD:
            for y in c[1:]: r = r + y
        elif k == z3.Z3_OP_SUB:
            for y in c[1:]: r = r - y
        elif k == z3.Z3_OP_MUL:
            for y in c[1:]: r = r * y
        elif k == z3.Z3_OP_UMINUS: r = -r
        else:
            if c[1] == 0: raise Big
            r = r / c[1]
        if len(r.numer) + len(r.denom) > maxterms: raise Big
        val[i] = r
    return val[e.get_id()], atoms, val
def substitutions(pc):
    """constants that linear equalities of the path determine"""
    out = []
    for c in pc:
        if not (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_EQ and z3.is_real(c.arg(0))): continue
        e = z3.simplify(c.arg(0) - c.arg(1), som=True)
        terms = e.children() if e.decl().kind() == z3.Z3_OP_ADD else [e]
        if len(terms) > 4: continue
        for t in terms:
            k = 1; x = t
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)): k = t.arg(0); x = t.arg(1)
            if z3.is_const(x) and not z3.is_rational_value(x) and sum(occurs(x, u) for u in terms) == 1:
                out.append((x, z3.simplify(x - e / k, som=True))); break
    return out
def occurs(x, e):
    todo = [e]; seen = set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.eq(x): return True
        todo.extend(y.children())
    return False
def is_zero(e, pc=(), rels=()):
    """e is identically zero as a rational function, given the linear equalities of the path and the squares rels: (t, x) says t * t == x"""
    for x, v in substitutions(pc): e = z3.substitute(e, (x, v))
    try:
        f, atoms, val = fraction(e, rels=rels)
        if f is None: return False
        if f == 0: return True
        ids = {t.get_id(): i for i, t in enumerate(atoms)}
        return bool(rels) and reduced(f.numer, [(ids[t.get_id()], val[x.get_id()]) for t, x in rels if t.get_id() in ids])
    except Big: return False
def reduced(p, rels):
    """p vanishes where the square of the generator i is x, for each (i, x), latest definition first"""
    if not p: return True
    if not rels: return False
    (i, x), rest = rels[-1], rels[:-1]
    R = p.ring; deg = max(m[i] for m in p.monoms())
    if deg == 0: return reduced(p, rest)
    num, den = x.numer.set_ring(R) if x.numer.ring != R else x.numer, x.denom
    top = deg // 2
    pn = [R.one]; pd = [R.one]
    for _ in range(top): pn.append(pn[-1] * num); pd.append(pd[-1] * den)
    parts = [R.zero, R.zero]
    for m, c in p.terms():
        k = m[i]; z = list(m); z[i] = 0
        parts[k % 2] += R.term_new(tuple(z), c) * pn[k // 2] * pd[top - k // 2]
    if len(parts[0]) + len(parts[1]) > 20000: raise Big
    return reduced(parts[0], rest) and reduced(parts[1], rest)
def _psign(p, pos):
    """'+', '-', '0' or None: the sign of a polynomial by its coefficients, where the generators with an index in pos are positive"""
    if not p: return '0'
    signs = set(); strict = False
    for m, c in p.terms():
        if any(k % 2 and i not in pos for i, k in enumerate(m)): return None
        strict |= all(i in pos for i, k in enumerate(m) if k)
        signs.add(c > 0)
        if len(signs) > 1: return None
    if not strict: return None
    return '+' if signs == {True} else '-'
def sign(e, positives):
    """'+', '-', '0' or None: the sign of a real term, by its coefficients, given positive constants (ids); no divisor in it is zero"""
    try:
        f, atoms, _ = fraction(e)
        if f is None: return None
        pos = {i for i, t in enumerate(atoms) if t.get_id() in positives}
        a = _psign(f.numer, pos)
        if a in (None, '0'): return a
        b = _psign(f.denom, pos)
        return None if b in (None, '0') else '+' if a == b else '-'
    except Big: return None
POSITIVE = set()     # constants that are positive by their axioms
def positives(pc):
    out = set(POSITIVE)
    for c in pc:
        neg = z3.is_not(c)
        if neg: c = c.arg(0)
        if not z3.is_app(c) or c.num_args() != 2: continue
        a, b = c.arg(0), c.arg(1); k = c.decl().kind()
        if not z3.is_real(a): continue
        if k in (z3.Z3_OP_LT, z3.Z3_OP_GE) : a, b = b, a; k = z3.Z3_OP_GT if k == z3.Z3_OP_LT else z3.Z3_OP_LE
        # now a > b (not negated) or a <= b (negated)
        if (k == z3.Z3_OP_GT and not neg or k == z3.Z3_OP_LE and neg) and z3.is_rational_value(b) and b.numerator_as_long() >= 0 and z3.is_const(a) and not z3.is_rational_value(a): out.add(a.get_id())
    return out
def decided(c, pc):
    """truth of a comparison of reals, by the coefficients of the difference of its sides, or None"""
    neg = False
    while z3.is_not(c): neg = not neg; c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2 or not z3.is_real(c.arg(0)): return None
    k = c.decl().kind()
    if k not in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): return None
    a, b = c.arg(0), c.arg(1)
    if not nonlinear(a) and not nonlinear(b): return None
    ps = positives(pc)
    if not ps: return None
    s = sign(a - b, ps)
    if s is None: return None
    r = s == '0' if k == z3.Z3_OP_EQ else s in '-0' if k == z3.Z3_OP_LE else s in '+0' if k == z3.Z3_OP_GE else s == '-' if k == z3.Z3_OP_LT else s == '+'
    return r != neg
def nonlinear(e, d=0):
    if not z3.is_app(e): return False
    k = e.decl().kind()
    if k == z3.Z3_OP_DIV: return not z3.is_rational_value(e.arg(1))
    if k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(x) for x in e.children()) > 1: return True
    if k == z3.Z3_OP_POWER: return True
    return d < 30 and k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) and any(nonlinear(x, d + 1) for x in e.children())
