"""Logic used by the contracts: the field Z/p as an uninterpreted commutative
ring F with the reduction map cl: Int -> F, dot products, pivots.

cl(t) is pushed through +, -, *, unary minus, if-then-else and `mod p` while
terms are built, and ring terms are kept in a canonical polynomial form, so
the solvers see congruence-closed terms and need no associativity axioms.
"""
import z3
from .vals import I, B, RE, F, AI, fresh, Unsupported

fadd = z3.Function("fadd", F, F, F)
fmul = z3.Function("fmul", F, F, F)
fneg = z3.Function("fneg", F, F)
f0 = z3.Const("f0", F)
f1 = z3.Const("f1", F)
cl = z3.Function("cl", I, F)
# fdot(a, b, n) = sum_{i<n} cl(a[i])*cl(b[i])
fdot = z3.Function("fdot", AI, AI, I, F)
# idot(a, b, n) = sum_{i<n} a[i]*b[i] over the integers
idot = z3.Function("idot", AI, AI, I, I)
# ipv(a, n): largest i < n with a[i] != 0, or -1
ipv = z3.Function("ipv", AI, I, I)


# ------------------------------------------------------------ polynomials
# dict: tuple of sorted atom keys (with multiplicity) -> integer coefficient
class Poly(object):
    def __init__(self, d, atoms):
        self.d = {k: v for k, v in d.items() if v != 0}
        self.atoms = atoms


def _pconst(n):
    return Poly({(): n} if n else {}, {})


def _patom(t):
    k = (t.get_id(), )
    return Poly({(t.get_id(),): 1}, {t.get_id(): t})


def _padd(a, b, s=1):
    d = dict(a.d)
    for k, v in b.d.items():
        d[k] = d.get(k, 0) + s * v
    at = dict(a.atoms)
    at.update(b.atoms)
    return Poly(d, at)


def _pmul(a, b):
    d = {}
    at = dict(a.atoms)
    at.update(b.atoms)
    key = lambda i: at[i].sexpr() if False else i
    for k, v in a.d.items():
        for l, w in b.d.items():
            m = tuple(sorted(k + l, key=key))
            d[m] = d.get(m, 0) + v * w
    return Poly(d, at)


def topoly(t):
    """Polynomial of an F-term."""
    if t.eq(f0):
        return _pconst(0)
    if t.eq(f1):
        return _pconst(1)
    if z3.is_app(t):
        dd = t.decl()
        if dd.eq(fadd):
            return _padd(topoly(t.arg(0)), topoly(t.arg(1)))
        if dd.eq(fmul):
            return _pmul(topoly(t.arg(0)), topoly(t.arg(1)))
        if dd.eq(fneg):
            return _padd(_pconst(0), topoly(t.arg(0)), -1)
        if dd.eq(cl) and z3.is_int_value(t.arg(0)):
            return _pconst(t.arg(0).as_long())
    return _patom(t)


def _fint(n):
    if n == 0:
        return f0
    if n == 1:
        return f1
    if n == -1:
        return fneg(f1)
    return cl(z3.IntVal(n))


def frompoly(P):
    monos = sorted(P.d.items(), key=lambda kv: (len(kv[0]), kv[0]))
    out = None
    for k, v in monos:
        m = None
        for i in k:
            m = P.atoms[i] if m is None else fmul(m, P.atoms[i])
        if m is None:
            m = _fint(v)
        elif v == -1:
            m = fneg(m)
        elif v != 1:
            m = fmul(_fint(v), m)
        out = m if out is None else fadd(out, m)
    return f0 if out is None else out


def norm(t):
    return frompoly(topoly(t))


_keep = []          # keeps z3 terms alive so ids stay unique


def keep(t):
    _keep.append(t)
    return t


def F_add(a, b):
    return keep(frompoly(_padd(topoly(a), topoly(b))))


def F_sub(a, b):
    return keep(frompoly(_padd(topoly(a), topoly(b), -1)))


def F_mul(a, b):
    return keep(frompoly(_pmul(topoly(a), topoly(b))))


def F_neg(a):
    return keep(frompoly(_padd(_pconst(0), topoly(a), -1)))


def lincomb(pairs):
    """k1*x1 + k2*x2 + ... in the given order."""
    out = None
    for k, x in pairs:
        t = x if k.eq(f1) else (fneg(x) if k.eq(fneg(f1)) else fmul(k, x))
        out = t if out is None else fadd(out, t)
    return f0 if out is None else out


def CL(t, p):
    """cl(t) pushed through the ring operations; p: the modulus term."""
    keep(t)
    if p is not None and t.eq(p):
        return f0
    if z3.is_int_value(t):
        return _fint(t.as_long())
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            out = f0
            for c in t.children():
                out = F_add(out, CL(c, p))
            return out
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            out = CL(ch[0], p)
            for c in ch[1:]:
                out = F_sub(out, CL(c, p))
            return out
        if k == z3.Z3_OP_UMINUS:
            return F_neg(CL(t.arg(0), p))
        if k == z3.Z3_OP_MUL:
            out = f1
            for c in t.children():
                out = F_mul(out, CL(c, p))
            return out
        if k == z3.Z3_OP_ITE:
            return keep(z3.If(t.arg(0), CL(t.arg(1), p), CL(t.arg(2), p)))
        if k == z3.Z3_OP_MOD and p is not None and t.arg(1).eq(p):
            return CL(t.arg(0), p)
        if t.decl().eq(idot):
            return keep(fdot(t.arg(0), t.arg(1), t.arg(2)))
    return keep(cl(t))


# ------------------------------------------------------------ axioms
def ring_axioms(p):
    x, y = z3.Consts("x y", F)
    a, b = z3.Ints("a b")
    v, w = z3.Const("v", AI), z3.Const("w", AI)
    n, i = z3.Ints("n i")
    ax = [
        cl(z3.IntVal(0)) == f0, cl(z3.IntVal(1)) == f1, f0 != f1,
        z3.ForAll([x], fadd(f0, x) == x, patterns=[fadd(f0, x)]),
        z3.ForAll([x], fadd(x, f0) == x, patterns=[fadd(x, f0)]),
        z3.ForAll([x], fmul(f0, x) == f0, patterns=[fmul(f0, x)]),
        z3.ForAll([x], fmul(x, f0) == f0, patterns=[fmul(x, f0)]),
        z3.ForAll([x], fmul(f1, x) == x, patterns=[fmul(f1, x)]),
        z3.ForAll([x], fmul(x, f1) == x, patterns=[fmul(x, f1)]),
        z3.ForAll([x], fadd(x, fneg(x)) == f0, patterns=[fadd(x, fneg(x))]),
        z3.ForAll([x], fadd(fneg(x), x) == f0, patterns=[fadd(fneg(x), x)]),
        fneg(f0) == f0,
        z3.ForAll([x, y], fmul(x, y) == fmul(y, x), patterns=[fmul(x, y)]),
        z3.ForAll([x, y], fadd(x, y) == fadd(y, x), patterns=[fadd(x, y)]),
        z3.ForAll([x], fneg(fneg(x)) == x, patterns=[fneg(fneg(x))]),
    ]
    if p is not None:
        ax += [
            z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < p, cl(a) == f0), a == 0),
                      patterns=[cl(a)]),
            z3.ForAll([a], cl(a % p) == cl(a), patterns=[cl(a % p)]),
        ]
    return ax


def ipv_axiom():
    a = z3.Const("a", AI)
    n, i = z3.Ints("n i")
    r = ipv(a, n)
    return [z3.ForAll([a, n], z3.And(
        r >= -1, z3.Implies(n >= 0, r < n),
        z3.Implies(r >= 0, z3.Select(a, r) != 0)), patterns=[r]),
        z3.ForAll([a, n, i], z3.Implies(z3.And(i > r, 0 <= i, i < n), z3.Select(a, i) == 0),
                  patterns=[z3.MultiPattern(r, z3.Select(a, i))])]


def fdot_axioms():
    """Values of fdot on 0 terms."""
    a, b = z3.Const("a", AI), z3.Const("b", AI)
    return [z3.ForAll([a, b], fdot(a, b, 0) == f0, patterns=[fdot(a, b, 0)])]


# Euclidean norm of the first n entries
rnorm = z3.Function("rnorm", z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())

# Euclidean distance of the first n entries
rdist = z3.Function("rdist", rnorm.domain(0), rnorm.domain(0), z3.IntSort(), z3.RealSort())


def _has_ite(t):
    if z3.is_app(t):
        if t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE):
            return True
        return any(_has_ite(c) for c in t.children())
    return z3.is_quantifier(t)


def _mentions(ts, vs):
    """Do the terms together contain all the variables, each term at least one?"""
    ids = {v.get_id() for v in vs}
    got = set()

    def go(t, seen):
        i = t.get_id()
        if i in seen:
            return
        seen.add(i)
        for c in t.children():
            go(c, seen)
    for t in ts:
        seen = set()
        go(t, seen)
        if not (seen & ids) or t.get_id() in ids:
            return False
        got |= seen
    return ids <= got


def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats:
        pats = [q for q in pats if not any(_has_ite(t) for t in (q if isinstance(q, (list, tuple)) else [q]))]
    if pats:
        pats = [q for q in pats if _mentions(q if isinstance(q, (list, tuple)) else [q], vs)]
    if pats:
        pats = [z3.MultiPattern(*q) if isinstance(q, (list, tuple)) else q for q in pats]
        return z3.ForAll(list(vs), body, patterns=pats)
    return z3.ForAll(list(vs), body)


def inrange(i, n):
    return z3.And(0 <= i, i < n)


def prime(p):
    d, e = z3.Ints("d e")
    return z3.And(p >= 2, z3.ForAll([d, e], z3.Implies(z3.And(d > 0, e > 0, d * e == p),
                                                        z3.Or(d == 1, d == p)),
                                    patterns=[d * e]))
