"""Contracts of permaviss.gauss_mod_p."""
import z3
from pvc import logic as L
from pvc.vals import *
from pvc.vals import fresh, fresh_name
from pvc.models import index_terms
from pvc.engine import contract, Loop, num, Lem

AR = "permaviss.gauss_mod_p.arithmetic_mod_p:"
GA = "permaviss.gauss_mod_p.gauss_mod_p:"
FU = "permaviss.gauss_mod_p.functions:"


def V(*names):
    r = [z3.Int(fresh_name(n)) for n in names]
    return r[0] if len(r) == 1 else r


def all_(vs, body, pats=None):
    return L.forall(vs, body, pats)


# ----------------------------------------------------------------- arithmetic
contract(AR + "add_mod_c",
         params=lambda c: dict(a=fresh("a", I), b=fresh("b", I), c=fresh("c", I)),
         requires=lambda c: [("modulus positive", c["c"] >= 1)],
         result=lambda c: add_mod_result(c),
         ensures=lambda c: add_mod_post(c))


def add_mod_result(c):
    a, b = c["a"], c["b"]
    if isinstance(a, Arr) or isinstance(b, Arr):
        r = c.run.binop("Mod", c.run.binop("Add", a, b), c["c"])
        return r
    return fresh("s", I)


def add_mod_post(c):
    a, b, m = c.old["a"], c.old["b"], c.old["c"]
    if isinstance(a, Arr) or isinstance(b, Arr):
        return []
    return [("canonical residue of a+b", z3.And(0 <= c.result, c.result < m, c.result == (a + b) % m))]


contract(AR + "add_arrays_mod_c",
         params=lambda c: (lambda n: dict(A=arr_const("A", [n]), B=arr_const("B", [n]), c=fresh("c", I)))(nat(c, "n")),
         requires=lambda c: [("modulus positive", c["c"] >= 1)] + same_shape(c["A"], c["B"]),
         result=lambda c: lazy_addmod(c),
         ensures=lambda c: addarr_post(c))


def nat(c, name):
    n = fresh(name, I)
    c.run.pc.append(n >= 0)
    return n


def same_shape(A, B):
    return [("same shape", z3.And(*[x == y for x, y in zip(A.shape, B.shape)]))] if isinstance(A, Arr) and isinstance(B, Arr) else []


def lazy_addmod(c):
    # the result is determined by the contract, so it is given by the defining term
    return c.run.binop("Mod", c.run.binop("Add", c["A"], c["B"]), c["c"])


def addarr_post(c):
    A, B, m, R = c.old["A"], c.old["B"], c.old["c"], c.result
    if getattr(c, "call", False):
        return []
    i = V("i")
    return [("shape", R.shape[0] == A.shape[0]),
            ("canonical residue of every entry", all_([i], z3.Implies(
                L.inrange(i, A.shape[0]), z3.And(0 <= R.elt(i), R.elt(i) < m,
                                                 R.elt(i) == (A.elt(i) + B.elt(i)) % m))))]


# x0*a0 + y0*p = b and x1*a0 + y1*p = a with ghost y0, y1 and alternating sign s
def inv_inv(c):
    a, b, x0, x1 = c["a"], c["b"], c["x0"], c["x1"]
    p = c.old["p"]
    a0 = c.old["a"] % p
    s, y0, y1 = c.g["s"], c.g["gy0"], c.g["gy1"]
    return [("bezout b", x0 * a0 + y0 * p == b), ("bezout a", x1 * a0 + y1 * p == a),
            ("sign", z3.Or(s == 1, s == -1)),
            ("range", z3.And(0 <= a, a < b, 0 < a0, a0 < p)),
            ("first or smaller", z3.Or(z3.And(b == p, a == a0), b <= a0)),
            ("determinant", s * x1 * b - s * x0 * a == p),
            ("signs alternate", z3.And(s * x1 >= 0, s * x0 <= 0)),
            ("magnitudes", z3.And(-s * x0 <= s * x1, s * x1 >= 1))]


contract(AR + "inv_mod_p",
         params=lambda c: dict(a=fresh("a", I), p=fresh("p", I)),
         requires=lambda c: [("p prime", prime_of(c, c["p"]))],
         result=lambda c: fresh("inv", I),
         raises={"ValueError": lambda c: c.old["a"] % c.old["p"] == 0},
         ensures=lambda c: inv_post(c),
         hints=lambda c: inv_hints(c),
         loops={0: Loop(
             inv=inv_inv,
             variant=lambda c: c["a"],
             ghosts=dict(s=(lambda c: z3.IntVal(1), lambda c: -c.g["s"]),
                         gy0=(lambda c: z3.IntVal(1), lambda c: c.g["gy1"]),
                         gy1=(lambda c: z3.IntVal(0),
                              lambda c: c.g["gy0"] - (c.extra["body"]["b"] / c.extra["body"]["a"]) * c.g["gy1"])),
             hints=lambda c: inv_body_hints(c),
             exit_hints=lambda c: inv_exit(c))})


def inv_body_hints(c):
    # (q*a) with a = x1*a0 + y1*p: multiply the two Bezout equations by the quotient
    o = c.extra["body"]
    a, b, x0, x1 = o["a"], o["b"], o["x0"], o["x1"]
    q = b / a
    p = c.old["p"]
    a0 = c.old["a"] % p
    y1 = c.g["gy0"]                       # after the step: gy0 is the old gy1
    y0 = c.g["gy1"] + q * y1
    return [z3.Implies(x1 * a0 + y1 * p == a, q * (x1 * a0 + y1 * p) == q * a),
            z3.Implies(a > 0, z3.And(b == q * a + b % a, 0 <= b % a, b % a < a)),
            z3.Implies(z3.And(a > 0, b >= a), q >= 1)]


def inv_exit(c):
    # divisors of a prime: at the exit a = 0 and (s*x1)*b = p
    s, x1, b = c.g["s"], c["x1"], c["b"]
    p = c.old["p"]
    return [Lem("prime_divisor", z3.Implies(z3.And(isprime(p), s * x1 > 0, b > 0, (s * x1) * b == p),
                                            z3.Or(b == 1, b == p)))]


def inv_hints(c):
    # a*m = 1 + p*K for an explicit K
    a, p, m = c.old["a"], c.old["p"], c.result
    y0 = c.g["gy0"]
    a0, k = a % p, a / p
    x0 = z3.If(m == c["x0"], c["x0"], c["x0"])
    K1 = k * m - y0
    K2 = k * m - y0 + a0
    K = z3.If(m * a0 + y0 * p == 1, K1, K2)
    return [("division", a == p * k + a0),
            ("bezout", z3.Or(m * a0 + y0 * p == 1, m * a0 + (y0 - a0) * p == 1)),
            ("explicit quotient", a * m == 1 + p * K),
            Lem("mod_unique", z3.Implies(z3.And(p >= 2, a * m == 1 + p * K), (a * m) % p == 1))]


def inv_post(c):
    a, p, m = c.old["a"], c.old["p"], c.result
    out = [("canonical", z3.And(0 <= m, m < p)), ("inverse", (a * m) % p == 1)]
    if getattr(c, "call", False) and c.run.p is not None:
        cm, ca = L.CL(m, p), L.CL(a, p)
        x = z3.Const(fresh_name("x"), F)
        out.append(("inverse in Z/p", L.fmul(cm, ca) == L.f1))
        # consequences of cm*ca = 1 in the commutative ring Z/p (lemma cancel)
        for t in (L.fmul(x, cm), L.fmul(cm, x)):
            out.append(("cancel", all_([x], L.fmul(t, ca) == x, [L.fmul(t, ca)])))
            out.append(("cancel", all_([x], L.fmul(L.fneg(t), ca) == L.fneg(x), [L.fmul(L.fneg(t), ca)])))
        for t in (L.fmul(x, ca), L.fmul(ca, x)):
            out.append(("cancel", all_([x], L.fmul(t, cm) == x, [L.fmul(t, cm)])))
    return out


isprime = z3.Function("isprime", I, B)


def prime_of(c, p):
    return z3.And(isprime(p), p >= 2)


# ----------------------------------------------------------------- pivots
contract(GA + "index_pivot",
         params=lambda c: dict(vect=arr_const("vect", [nat(c, "n")])),
         axioms="ipv",
         result=lambda c: fresh("pivot", I),
         ensures=lambda c: pivot_post(c))


def pivot_post(c):
    v, r = c.old["vect"], c.result
    if not isinstance(v, Arr):
        v = c.run.models.as_array(c.run, v)
    if v.sort != I or v.nd != 1:
        raise Unsupported("index_pivot of a non integer vector")
    i = V("i")
    n = v.shape[0]
    out = []
    if getattr(c, "call", False) and v.z is None:
        v = c.run.mat(v)
    out.append(("is the last nonzero index or -1", z3.And(
        r >= -1, r < z3.If(n >= 0, n, 0), z3.Implies(r >= 0, v.elt(r) != 0),
        all_([i], z3.Implies(z3.And(r < i, 0 <= i, i < n), v.elt(i) == 0), [v.elt(i)]))))
    out.append(("ghost pivot", r == L.ipv(v.z, n)))
    return out


# ----------------------------------------------------------------- gauss_col
# In the code R and T are stored by columns: R[c] is column c of the result.
def canon(R, n, m, p):
    c, i = V("c", "i")
    return all_([c, i], z3.Implies(z3.And(L.inrange(c, n), L.inrange(i, m)),
                                   z3.And(0 <= R.elt(c, i), R.elt(c, i) < p)), [R.z[c][i]])


def product(A, Tz, Rz, n, m):
    """A * T = R mod p, columns of T and R given as z3 arrays."""
    c, i = V("c", "i")
    return all_([c, i], z3.Implies(z3.And(L.inrange(c, n), L.inrange(i, m)),
                                   L.fdot(A.z[i], Tz[c], n) == L.cl(Rz[c][i])),
                [L.fdot(A.z[i], Tz[c], n), L.cl(Rz[c][i])])


def unit_tri(Tz, n):
    c, i = V("c", "i")
    return all_([c, i], z3.Implies(z3.And(L.inrange(c, n), L.inrange(i, n)),
                                   z3.And(z3.Implies(i > c, Tz[c][i] == 0),
                                          z3.Implies(i == c, Tz[c][i] == 1))), [Tz[c][i]])


def canonT(Tz, n, p):
    c, i = V("c", "i")
    return all_([c, i], z3.Implies(z3.And(L.inrange(c, n), L.inrange(i, n)),
                                   z3.And(0 <= Tz[c][i], Tz[c][i] < p)), [Tz[c][i]])


def distinct(Rz, k, m):
    a, b = V("a", "b")
    return all_([a, b], z3.Implies(z3.And(0 <= a, a < b, b < k, L.ipv(Rz[a], m) > -1),
                                   L.ipv(Rz[a], m) != L.ipv(Rz[b], m)),
                [[L.ipv(Rz[a], m), L.ipv(Rz[b], m)]])


def g_dims(c):
    A = c.old["A"]
    return A, A.shape[0], A.shape[1], c.old["p"]


def g_common(c, k, lo=None):
    A, m, n, p = g_dims(c)
    R, T = mat2(c, "R"), mat2(c, "T")
    AT = mod_columns(c)
    x, i = V("c", "i")
    lo = k + 1 if lo is None else lo
    return [("entries of R canonical", canon(R, n, m, p)),
            ("A*T = R mod p", product(A, T.z, R.z, n, m)),
            ("T unit upper triangular", unit_tri(T.z, n)),
            ("entries of T canonical", canonT(T.z, n, p)),
            ("pivots of finished columns distinct", distinct(R.z, k, m)),
            ("columns not yet treated are units", untouched(T.z, k, n)),
            ("zero columns are not used", unused(R.z, T.z, k, n, m)),
            ("columns to come are those of A", all_([x, i], z3.Implies(
                z3.And(lo <= x, x < n, L.inrange(i, m)), R.z[x][i] == AT[x][i]), [R.z[x][i]])),
            ("zero columns of A stay zero", zero_stays(AT, R.z, T.z, n, m))]


def zero_stays(AT, Rz, Tz, n, m):
    """AT: the columns of A mod p; a zero column is left alone"""
    x, i = V("c", "i")
    z = L.ipv(AT[x], m) == -1
    return z3.And(all_([x, i], z3.Implies(z3.And(L.inrange(x, n), L.inrange(i, m), z), Rz[x][i] == 0),
                       [[L.ipv(AT[x], m), Rz[x][i]]]),
                  all_([x, i], z3.Implies(z3.And(L.inrange(x, n), L.inrange(i, n), i != x, z), Tz[x][i] == 0),
                       [[L.ipv(AT[x], m), Tz[x][i]]]))


def mod_columns(c):
    """the columns of A mod p, as a ghost array"""
    A, p = c.old["A"], c.old["p"]
    key = ("modcols", id(c.run), id(A))
    if key not in c.run.cache:
        c.run.cache[key] = (A, c.run.mat(Arr(A.shape, lambda i, j: A.elt(i, j) % p, I), col=True).zt)
    return c.run.cache[key][1]


def untouched(Tz, k, n):
    c, i = V("c", "i")
    return all_([c, i], z3.Implies(z3.And(k < c, c < n, L.inrange(i, n), i != c), Tz[c][i] == 0), [Tz[c][i]])


def unused(Rz, Tz, k, n, m):
    """A zero column of R takes part in no later column."""
    c, a = V("c", "a")
    return all_([c, a], z3.Implies(z3.And(L.inrange(a, k), a < c, c < n, L.ipv(Rz[a], m) == -1),
                                   Tz[c][a] == 0), [[Tz[c][a], L.ipv(Rz[a], m)]])


def mat2(c, name):
    a = c[name]
    if a.z is None:
        a = c.run.mat(a)
    return a


def g_while(c):
    A, m, n, p = g_dims(c)
    R = mat2(c, "R")
    j, piv, red = c["j"], c["pivot"], c["reduced"]
    k = V("k")
    return g_common(c, j) + [
        ("pivot is that of column j", z3.Implies(z3.Not(red), piv == L.ipv(R.z[j], m))),
        ("pivot range", z3.And(piv >= -1, piv < m)),
        ("a zero column is not touched", z3.Implies(L.ipv(mod_columns(c)[j], m) == -1, piv == -1)),
        ("reduced means done", z3.Implies(red, z3.Or(
            L.ipv(R.z[j], m) == -1,
            all_([k], z3.Implies(L.inrange(k, j), L.ipv(R.z[k], m) != L.ipv(R.z[j], m)), [L.ipv(R.z[k], m)]))))]


def g_search(c):
    A, m, n, p = g_dims(c)
    R, T = mat2(c, "R"), mat2(c, "T")
    e = c.extra["entry"]
    R0, T0 = c.run.mat(e["R"]), c.run.mat(e["T"])
    piv = c["pivot"]
    k = V("k")
    return [("so far no earlier column with this pivot", all_([k], z3.Implies(
        L.inrange(k, c.it), L.ipv(R.z[k], m) != piv), [L.ipv(R.z[k], m)])),
        ("nothing changed while searching", z3.And(piv == e["pivot"], R.z == R0.z, T.z == T0.z,
                                                   c["reduced"] == e["reduced"]))]


def g_cancel(c):
    A, m, n, p = g_dims(c)
    R = mat2(c, "R")
    j, red = c["j"], c["reduced"]
    piv0 = c.extra["body"]["pivot"]
    i = V("i")
    return [("pivot entry cancelled", z3.Implies(z3.Not(red), L.cl(R.z[j][piv0]) == L.f0)),
            ("entries below stay zero", z3.Implies(z3.Not(red), all_([i], z3.Implies(
                z3.And(piv0 < i, i < m), R.z[j][i] == 0), [R.z[j][i]])))]


def g_unit(c):
    return []


def gauss_result(c):
    A, m, n, p = g_dims(c) if c.old else (c["A"], c["A"].shape[0], c["A"].shape[1], c["p"])
    R = colmajor("R", [m, n])
    T = colmajor("T", [n, n])
    if not c.run.quick(m >= 1):
        R.lst = T.lst = m == 0      # without rows the results have no columns to index
    return VTuple([c.run.new(R), c.run.new(T)])


def colmajor(name, shape, sort=I):
    z = fresh(name, nested(2, sort))
    return Arr(shape, lambda i, j: z[j][i], sort, zt=z)


def gauss_post(c):
    A, m, n, p = g_dims(c)
    if A.z is None:
        A = c.run.mat(A)
    R, T = c.result.items
    if not (isinstance(R, Arr) and R.nd == 2):
        # zero rows: two empty arrays
        return [("no rows", m == 0)]
    if R.zt is None:
        R = c.run.mat(R, col=True)
    if T.zt is None:
        T = c.run.mat(T, col=True)
    x, i = V("c", "i")
    return [("shapes", z3.And(R.shape[0] == m, R.shape[1] == n, T.shape[0] == n, T.shape[1] == n)),
            ("A*T = R mod p", product(A, T.zt, R.zt, n, m)),
            ("T unit upper triangular", unit_tri(T.zt, n)),
            ("entries of T canonical", canonT(T.zt, n, p)),
            ("entries of R canonical", all_([x, i], z3.Implies(
                z3.And(L.inrange(x, n), L.inrange(i, m)),
                z3.And(0 <= R.zt[x][i], R.zt[x][i] < p)), [R.zt[x][i]])),
            ("pivots distinct", distinct(R.zt, n, m)),
            ("zero columns are not used", unused(R.zt, T.zt, n, n, m)),
            ("zero columns of A stay zero", zero_stays(mod_columns(c), R.zt, T.zt, n, m))]


def matrix(name, c):
    return arr_const(name, [nat(c, "rows"), nat(c, "cols")])


contract(GA + "gauss_col", p="p",
         params=lambda c: dict(A=matrix("A", c), p=fresh("p", I)),
         requires=lambda c: [("p prime", prime_of(c, c["p"])),
                             ("at least one row, or no column", z3.Or(c["A"].shape[0] >= 1, c["A"].shape[1] == 0))],
         result=gauss_result, ensures=gauss_post,
         loops={0: Loop(inv=lambda c: g_common(c, c.it, c.it), hints=g_unit),
                1: Loop(inv=g_while, hints=g_cancel,
                        variant=lambda c: z3.If(c["reduced"], z3.IntVal(0), c["pivot"] + 1)),
                2: Loop(inv=g_search)})


# ----------------------------------------------------------------- functions
def mult_result(c):
    return c.run.binop("Mod", c.run.models.x_matmul(c.run, [c["A"], c["B"]], {}), c["p"])


def mult_post(c):
    if getattr(c, "call", False):
        return []
    A, B, p, R = c.old["A"], c.old["B"], c.old["p"], c.result
    B = c.run.mat(B, col=True)
    i, j = V("i", "j")
    return [("shape", z3.And(R.shape[0] == A.shape[0], R.shape[1] == B.shape[1])),
            ("entries are the canonical residues of the integer dot products", all_([i, j], z3.Implies(
                z3.And(L.inrange(i, A.shape[0]), L.inrange(j, B.shape[1])),
                z3.And(0 <= R.elt(i, j), R.elt(i, j) < p,
                       R.elt(i, j) == L.idot(A.z[i], B.zt[j], A.shape[1]) % p))))]


def two_matrices(c):
    m, n, k = nat(c, "m"), nat(c, "n"), nat(c, "k")
    return dict(A=arr_const("A", [m, n]), B=arr_const("B", [n, k]), p=fresh("p", I))


contract(FU + "multiply_mod_p", params=two_matrices,
         requires=lambda c: [("modulus positive", c["p"] >= 1),
                             ("shapes match", c["A"].shape[1] == c["B"].shape[0])],
         result=mult_result, ensures=mult_post)


AAI = z3.ArraySort(I, AI)
# solvable(A, b, m, n): there is x with sum_k A[i][k]*x[k] = b[i] mod p for all i < m
solvable = z3.Function("solvable", AAI, AI, I, I, B)


def solves(Az, bz, x, m, n, cond=None):
    i = V("i")
    return all_([i], z3.Implies(L.inrange(i, m), L.fdot(Az[i], x, n) == L.cl(bz[i])), [L.fdot(Az[i], x, n)])


def solve_params(c):
    m, n = nat(c, "m"), nat(c, "n")
    return dict(A=arr_const("A", [m, n]), b=arr_const("b", [m]), p=fresh("p", I))


def find_aug(c, kind="gauss"):
    """The matrix given to gauss_col and its result, recorded at the call."""
    for con, env, res, old in reversed(c.run.calls):
        if con.key == GA + "gauss_col":
            return old["A"], res.items[0], res.items[1]
    raise Unsupported("no call of gauss_col on this path")


def aug_facts(c, s):
    """The lemma instances that relate the augmented system to the original one;
    s: number of the right-hand side (column n+s), bz its values."""
    run = c.run
    A = c.old["A"]
    m, n = A.shape
    M, R, T = find_aug(c)
    M = run.mat(M)
    return A, M, R, T, m, n


def col_of(c, s):
    """values of right-hand side s as a z3 array (1-D b, or row s of B)"""
    if "b" in c.old.vals:
        return c.old["b"].z
    return c.old["B"].z[s]


def lem_split(A, M, Tc, b, i, n, s):
    """fdot(M_i, Tc, n+s+1) for a column with entries 0 at n..n+s-1 and 1 at n+s:
    the first n terms plus b_i.  (Lean: dot_split)"""
    k = V("k")
    prem = z3.And(all_([k], z3.Implies(L.inrange(k, n), M.z[i][k] == A.z[i][k]), [A.z[i][k]]),
                  M.z[i][n + s] == b[i], Tc[n + s] == 1,
                  all_([k], z3.Implies(z3.And(n <= k, k < n + s), Tc[k] == 0), [Tc[k]]))
    return prem


def solve_hints(c):
    A, M, R, T, m, n = aug_facts(c, 0)
    N = M.shape[1]
    x = c.run.mat(c.result)
    b = c.old["b"].z
    i, k = V("i", "k")
    Tc = T.zt[n]
    prem = z3.And(Tc[n] == 1,
                  all_([i, k], z3.Implies(z3.And(L.inrange(i, m), L.inrange(k, n)), M.z[i][k] == A.z[i][k]), [A.z[i][k]]),
                  all_([i], z3.Implies(L.inrange(i, m), M.z[i][n] == b[i]), [b[i]]))
    concl = all_([i], z3.Implies(L.inrange(i, m), L.fdot(M.z[i], Tc, n + 1) ==
                                 L.fadd(L.fdot(A.z[i], Tc, n), L.cl(b[i]))),
                 [L.fdot(A.z[i], Tc, n)])
    y = z3.Const(fresh_name("y"), F)
    return [("augmented matrix", prem),
            Lem("dot_split", z3.Implies(prem, concl)),
            # in a ring: y + z = 0 implies -y = z
            Lem("neg_unique", L.forall([y], z3.Const("dummy", F) == z3.Const("dummy", F)))
            if False else Lem("neg_unique", neg_unique()),
            ("solution", solves(A.z, b, x.z, m, n)),
            Lem("solvable_intro", z3.Implies(solves(A.z, b, x.z, m, n), solvable(A.z, b, m, n)))]


def neg_unique():
    y, z = z3.Consts("y! z!", F)
    return all_([y, z], z3.Implies(L.fadd(y, z) == L.f0, L.fneg(y) == z), [L.fadd(y, z)])


def canonR(Rz, N, m, p):
    x, i = V("x", "i")
    return all_([x, i], z3.Implies(z3.And(L.inrange(x, N), L.inrange(i, m)), z3.And(0 <= Rz[x][i], Rz[x][i] < p)), [Rz[x][i]])


def solve_raise(c, exc):
    A, M, R, T, m, n = aug_facts(c, 0)
    N = n + 1
    b = c.old["b"].z
    i, k, w = V("i", "k", "w")
    prem = [("the augmented matrix is [A | b]", z3.And(
        M.shape[1] == N, M.shape[0] == m,
        all_([i, k], z3.Implies(z3.And(L.inrange(i, m), L.inrange(k, n)), M.z[i][k] == A.z[i][k]), [M.z[i][k]]),
        all_([i], z3.Implies(L.inrange(i, m), M.z[i][n] == b[i]), [M.z[i][n]]))),
        ("reduction", z3.And(product(M, T.zt, R.zt, N, m), unit_tri(T.zt, N))),
        ("distinct pivots", distinct(R.zt, N, m)), ("canonical entries", canonR(R.zt, N, m, c.old["p"])),
        ("p prime", prime_of(c, c.old["p"])), ("last column not zero", L.ipv(R.zt[n], m) > -1)]
    return prem + [Lem("solve_complete", z3.Implies(z3.And(*[q[1] for q in prem]),
                                                    z3.Not(solvable(A.z, b, m, n))))]


def solve_post(c):
    A, b, p, x = c.old["A"], c.old["b"], c.old["p"], c.result
    A, b, x = c.run.mat(A), c.run.mat(b), c.run.mat(x)
    m, n = A.shape
    k = V("k")
    return [("length", x.shape[0] == n),
            ("entries canonical", all_([k], z3.Implies(L.inrange(k, n), z3.And(0 <= x.z[k], x.z[k] < p)), [x.z[k]])),
            ("A*x = b mod p", solves(A.z, b.z, x.z, m, n))]


contract(FU + "solve_mod_p", p="p", params=solve_params,
         requires=lambda c: [("p prime", prime_of(c, c["p"])), ("rows", c["A"].shape[0] >= 1),
                             ("length of b", c["b"].shape[0] == c["A"].shape[0])],
         raises={"ValueError": lambda c: z3.Not(solvable(c.run.mat(c.old["A"]).z, c.run.mat(c.old["b"]).z,
                                                         c.old["A"].shape[0], c.old["A"].shape[1]))},
         result=lambda c: arr_const("x", [c["A"].shape[1]]),
         ensures=solve_post, hints=solve_hints, raise_hints=solve_raise)


# ----------------------------------------------------------------- gauss_col_rad
def rad_params(c):
    m, n = nat(c, "rows"), nat(c, "cols")
    return dict(A=arr_const("A", [m, n]), R=arr_const("R", [n], RE), start_index=fresh("s", I), p=fresh("p", I))


def rad_common(c, Rz, Tz):
    A, m, n, p = g_dims(c)
    s, rad = c.old["start_index"], c.old["R"]
    x, i = V("c", "i")
    return [("A*T = R mod p", product(A, Tz, Rz, n, m)),
            ("entries of R canonical", all_([x, i], z3.Implies(
                z3.And(L.inrange(x, n), L.inrange(i, m)), z3.And(0 <= Rz[x][i], Rz[x][i] < p)), [Rz[x][i]])),
            ("entries of T canonical", canonT(Tz, n, p)),
            ("generators untouched", all_([x, i], z3.Implies(
                z3.And(L.inrange(x, s), L.inrange(i, m)), Rz[x][i] == A.z[i][x] % p), [Rz[x][i]])),
            ("T is the identity on generators", all_([x, i], z3.Implies(
                z3.And(L.inrange(x, s), L.inrange(i, n)), Tz[x][i] == z3.If(x == i, 1, 0)), [Tz[x][i]])),
            ("later columns: only generators with radius at most theirs", all_([x, i], z3.Implies(
                z3.And(s <= x, x < n, L.inrange(i, n)),
                z3.And(z3.Implies(i == x, Tz[x][i] == 1),
                       z3.Implies(z3.And(i >= s, i != x), Tz[x][i] == 0),
                       z3.Implies(z3.And(i < s, Tz[x][i] != 0), rad.elt(i) <= rad.elt(x)))), [Tz[x][i]]))]


def rad_zero(Rz, lo, hi, m):
    x, i = V("c", "i")
    return [("treated columns vanish", all_([x, i], z3.Implies(
        z3.And(lo <= x, x < hi, L.inrange(i, m)), Rz[x][i] == 0), [Rz[x][i]]))]


def rad_inv(c, hi):
    A, m, n, p = g_dims(c)
    R, T = mat2(c, "Red"), mat2(c, "T")
    s = c.old["start_index"]
    return rad_common(c, R.z, T.z) + rad_zero(R.z, s, hi, m)


def rad_while(c):
    A, m, n, p = g_dims(c)
    R = mat2(c, "Red")
    return rad_inv(c, c["j"]) + [("pivot is that of column j", c["pivot"] == L.ipv(R.z[c["j"]], m)),
                                 ("pivot range", z3.And(c["pivot"] >= -1, c["pivot"] < m))]


def rad_search(c):
    A, m, n, p = g_dims(c)
    R = mat2(c, "Red")
    i = V("i")
    j, piv = c["j"], c["pivot"]
    return rad_inv(c, j) + [("pivot kept", z3.And(piv == c.extra["entry"]["pivot"], piv >= 0, piv < m)),
                            ("nothing below the pivot", all_([i], z3.Implies(
                                z3.And(piv < i, i < m), R.z[j][i] == 0), [R.z[j][i]]))]


def rad_post(c):
    A, m, n, p = g_dims(c)
    if A.z is None:
        A = c.run.mat(A)
    R, T = c.result.items
    if R.zt is None:
        R = c.run.mat(R, col=True)
    if T.zt is None:
        T = c.run.mat(T, col=True)
    s = c.old["start_index"]
    return [("shapes", z3.And(R.shape[0] == m, R.shape[1] == n, T.shape[0] == n, T.shape[1] == n))] + \
        rad_common(c, R.zt, T.zt) + rad_zero(R.zt, s, n, m)


contract(GA + "gauss_col_rad", p="p", params=rad_params,
         requires=lambda c: [("p prime", prime_of(c, c["p"])), ("at least one row", c["A"].shape[0] >= 1),
                             ("start index", z3.And(0 <= c["start_index"], c["start_index"] <= c["A"].shape[1])),
                             ("one radius per column", c["R"].shape[0] == c["A"].shape[1])],
         raises={"RuntimeError": None},
         result=gauss_result, ensures=rad_post,
         loops={1: Loop(inv=lambda c: rad_inv(c, c.old["start_index"] + c.it)),
                2: Loop(inv=rad_while, variant=lambda c: c["pivot"] + 1),
                3: Loop(inv=rad_search)})


# ----------------------------------------------------------------- solve_matrix_mod_p
# right-hand sides are the rows of B, solutions the columns of the result
def solvem_params(c):
    m, n, k = nat(c, "m"), nat(c, "n"), nat(c, "k")
    return dict(A=arr_const("A", [m, n]), B=arr_const("B", [k, m]), p=fresh("p", I))


def solvem_aug(c):
    A, Bm = c.run.mat(c.old["A"]), c.run.mat(c.old["B"])
    m, n = A.shape
    ks = Bm.shape[0]
    M, R, T = find_aug(c)
    M = c.run.mat(M)
    i, k, s = V("i", "k", "s")
    prem = z3.And(M.shape[0] == m, M.shape[1] == n + ks,
                  all_([i, k], z3.Implies(z3.And(L.inrange(i, m), L.inrange(k, n)), M.z[i][k] == A.z[i][k]),
                       [M.z[i][k]]),
                  all_([i, s], z3.Implies(z3.And(L.inrange(i, m), L.inrange(s, ks)), M.z[i][n + s] == Bm.z[s][i]),
                       [Bm.z[s][i]]))
    return A, Bm, m, n, ks, M, R, T, ("augmented matrix", prem)


def solvem_hints(c):
    A, Bm, m, n, ks, M, R, T, aug = solvem_aug(c)
    X = c.run.mat(c.result, col=True)
    i, k, s = V("i", "k", "s")
    N = n + ks
    Tz = T.zt
    unit = all_([s], z3.Implies(L.inrange(s, ks), z3.And(Tz[n + s][n + s] == 1)), [Tz[n + s][n + s]])
    t = V("t")
    rest = all_([s, t], z3.Implies(z3.And(L.inrange(s, ks), L.inrange(t, ks), t != s, L.ipv(R.zt[n + t], m) >= -1),
                                   Tz[n + s][n + t] == 0), [Tz[n + s][n + t]])
    zero = all_([s], z3.Implies(L.inrange(s, ks), L.ipv(R.zt[n + s], m) == -1), [L.ipv(R.zt[n + s], m)])
    concl = all_([i, s], z3.Implies(z3.And(L.inrange(i, m), L.inrange(s, ks)), L.fdot(M.z[i], Tz[n + s], N) ==
                                    L.fadd(L.fdot(A.z[i], Tz[n + s], n), L.cl(Bm.z[s][i]))),
                 [L.fdot(A.z[i], Tz[n + s], n)])
    k2 = V("k")
    dots = all_([i, s], z3.Implies(z3.And(L.inrange(i, m), L.inrange(s, ks)), L.fdot(M.z[i], Tz[n + s], N) == L.f0),
                [L.fdot(M.z[i], Tz[n + s], N)])
    sol = all_([i, s], z3.Implies(z3.And(L.inrange(i, m), L.inrange(s, ks)),
                                  L.fdot(A.z[i], X.zt[s], n) == L.cl(Bm.z[s][i])), [L.fdot(A.z[i], X.zt[s], n)])
    # X_s = -T_{n+s} on the first n entries, hence the dot product is the negative one
    neg = all_([s, k2], z3.Implies(z3.And(L.inrange(s, ks), L.inrange(k2, n)),
                                   L.cl(X.zt[s][k2]) == L.fneg(L.cl(Tz[n + s][k2]))), [X.zt[s][k2]])
    negd = all_([i, s], z3.Implies(z3.And(L.inrange(i, m), L.inrange(s, ks)),
                                   L.fdot(A.z[i], X.zt[s], n) == L.fneg(L.fdot(A.z[i], Tz[n + s], n))),
                [L.fdot(A.z[i], X.zt[s], n)])
    return [aug, ("columns of right-hand sides vanish", zero), ("unit entry", unit),
            ("no other right-hand side is used", rest), ("zero dot products", dots),
            Lem("dot_split", z3.Implies(z3.And(aug[1], unit, rest), concl)),
            ("negated coefficients", neg),
            Lem("dot_neg", z3.Implies(neg, negd)),
            Lem("neg_unique", neg_unique()),
            ("solutions", sol),
            Lem("solvable_intro", all_([s], z3.Implies(z3.And(L.inrange(s, ks),
                                                              solves(A.z, Bm.z[s], X.zt[s], m, n)),
                                                       solvable(A.z, Bm.z[s], m, n)),
                                       [solvable(A.z, Bm.z[s], m, n)]))]


def solvem_bad(c):
    A, Bm = c.run.mat(c.old["A"]), c.run.mat(c.old["B"])
    s = V("s")
    return z3.Exists([s], z3.And(L.inrange(s, Bm.shape[0]),
                                 z3.Not(solvable(A.z, Bm.z[s], A.shape[0], A.shape[1]))))


def solvem_raise(c, exc):
    A, Bm, m, n, ks, M, R, T, aug = solvem_aug(c)
    N = n + ks
    s = V("s")
    prem = [aug, ("reduction", z3.And(product(M, T.zt, R.zt, N, m), unit_tri(T.zt, N))),
            ("distinct pivots", distinct(R.zt, N, m)), ("canonical entries", canonR(R.zt, N, m, c.old["p"])),
            ("p prime", prime_of(c, c.old["p"])),
            ("some right-hand side is not reduced to zero", z3.Exists([s], z3.And(
                L.inrange(s, ks), L.ipv(R.zt[n + s], m) > -1)))]
    return prem + [Lem("solve_complete", z3.Implies(z3.And(*[q[1] for q in prem]), solvem_bad(c)))]


def solvem_post(c):
    A, Bm, p, X = c.run.mat(c.old["A"]), c.run.mat(c.old["B"]), c.old["p"], c.run.mat(c.result, col=True)
    m, n = A.shape
    ks = Bm.shape[0]
    i, s, k = V("i", "s", "k")
    return [("shape", z3.And(X.shape[0] == n, X.shape[1] == ks)),
            ("entries canonical", all_([s, k], z3.Implies(z3.And(L.inrange(s, ks), L.inrange(k, n)),
                                                          z3.And(0 <= X.zt[s][k], X.zt[s][k] < p)), [X.zt[s][k]])),
            ("A*X = B^T mod p", all_([i, s], z3.Implies(z3.And(L.inrange(i, m), L.inrange(s, ks)), L.fdot(
                A.z[i], X.zt[s], n) == L.cl(Bm.z[s][i])), [L.fdot(A.z[i], X.zt[s], n)]))]


contract(FU + "solve_matrix_mod_p", p="p", params=solvem_params,
         requires=lambda c: [("p prime", prime_of(c, c["p"])), ("rows", c["A"].shape[0] >= 1),
                             ("length of right-hand sides", c["B"].shape[1] == c["A"].shape[0])],
         raises={"ValueError": solvem_bad},
         result=lambda c: colmajor("X", [c["A"].shape[1], c["B"].shape[0]]),
         ensures=solvem_post, hints=solvem_hints, raise_hints=solvem_raise)


# ----------------------------------------------------------------- gauss_barcodes
def gb_params(c):
    m, n = nat(c, "rows"), nat(c, "cols")
    return dict(A=arr_const("A", [m, n]), row_barcode=arr_const("rowb", [m, 2], RE),
                col_barcode=arr_const("colb", [n, 2], RE), start_index=fresh("s", I), p=fresh("p", I))


def gb_post_of(c, Cz, hi):
    """columns 0..hi-1 of the coefficient matrix (column major Cz) are right"""
    A, m, n, p = g_dims(c)
    s = c.old["start_index"]
    rb, cb = c.old["row_barcode"], c.old["col_barcode"]
    t, i, k = V("t", "i", "k")
    alive = lambda B, x, r: z3.And(B.elt(x, 0) <= r, r < B.elt(x, 1))
    return [("coefficients canonical", all_([t, k], z3.Implies(z3.And(L.inrange(t, n - s), L.inrange(k, s)),
                                                               z3.And(0 <= Cz[t][k], Cz[t][k] < p)), [Cz[t][k]])),
            ("only generators alive at the birth radius", all_([t, k], z3.Implies(
                z3.And(L.inrange(t, n - s), L.inrange(k, s), Cz[t][k] != 0), alive(cb, k, cb.elt(s + t, 0))),
                [Cz[t][k]])),
            ("columns reproduced on rows alive at the birth radius", all_([t, i], z3.Implies(
                z3.And(L.inrange(t, hi), L.inrange(i, m), alive(rb, i, cb.elt(s + t, 0))),
                L.fdot(A.z[i], Cz[t], s) == L.cl(A.z[i][s + t])), [L.fdot(A.z[i], Cz[t], s)]))]


def gb_inv(c):
    C = c.run.mat(c["coefficients"], col=True)
    A, m, n, p = g_dims(c)
    s = c.old["start_index"]
    t, k = V("t", "k")
    return gb_post_of(c, C.zt, c.it) + [("columns to come are zero", all_([t, k], z3.Implies(
        z3.And(c.it <= t, t < n - s, L.inrange(k, s)), C.zt[t][k] == 0), [C.zt[t][k]]))]


def gb_hints(c):
    n0 = c.extra["ncalls"] if "ncalls" in c.extra else 0
    try:
        M, R, T = find_aug(c)
    except Unsupported:
        return []
    A, m, n, p = g_dims(c)
    s = c.old["start_index"]
    M = c.run.mat(M)
    q = M.shape[1] - 1
    rows, cols = c["active_rows"], c["active_columns"]
    C = c.run.mat(c["coefficients"], col=True)
    t = c.it - 1
    w, v = C.zt[t], T.zt[q]
    a, b, k = V("a", "b", "k")
    nr = M.shape[0]
    unit = v[q] == 1
    split = all_([a], z3.Implies(L.inrange(a, nr), L.fdot(M.z[a], v, q + 1) ==
                                 L.fadd(L.fdot(M.z[a], v, q), L.cl(M.z[a][q]))),
                 [L.fdot(M.z[a], v, q + 1), L.fdot(M.z[a], v, q)])
    sub = all_([a, b], z3.Implies(z3.And(L.inrange(a, nr), L.inrange(b, q + 1)),
                                  M.z[a][b] == A.z[rows.elt(a)][cols.elt(b)]), [M.z[a][b]])
    rng = all_([b], z3.Implies(L.inrange(b, q), z3.And(L.inrange(cols.elt(b), s),
                                                       L.cl(w[cols.elt(b)]) == L.fneg(L.cl(v[b])))), [v[b]])
    inj = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < q), cols.elt(a) != cols.elt(b)))
    off = all_([k], z3.Implies(z3.And(L.inrange(k, s), w[k] != 0),
                               z3.Exists([b], z3.And(L.inrange(b, q), cols.elt(b) == k))), [w[k]])
    scat = all_([a], z3.Implies(L.inrange(a, nr), L.fdot(A.z[rows.elt(a)], w, s) ==
                                L.fneg(L.fdot(M.z[a], v, q))), [L.fdot(M.z[a], v, q)])
    red = all_([a], z3.Implies(L.inrange(a, nr), L.fdot(M.z[a], v, q + 1) == L.f0), [L.fdot(M.z[a], v, q + 1)])
    i = V("i")
    rb, cb = c.old["row_barcode"], c.old["col_barcode"]
    bj = cb.elt(s + t, 0)
    alive = z3.And(rb.elt(i, 0) <= bj, bj < rb.elt(i, 1))
    allrows = all_([i], z3.Implies(z3.And(L.inrange(i, m), alive), z3.Exists([a], z3.And(
        L.inrange(a, nr), rows.elt(a) == i))), [A.z[i]])
    neg = all_([a], z3.Implies(L.inrange(a, nr), L.fneg(L.fdot(M.z[a], v, q)) == L.cl(M.z[a][q])), [M.z[a]])
    val = all_([a], z3.Implies(z3.And(L.inrange(a, nr), L.fneg(L.fdot(M.z[a], v, q)) == L.cl(M.z[a][q])),
                               L.fdot(A.z[rows.elt(a)], w, s) == L.cl(A.z[rows.elt(a)][s + t])),
               index_terms(rows.elt(a), a)[:1] or None)
    row = all_([i], z3.Implies(z3.And(L.inrange(i, m), alive), L.fdot(A.z[i], w, s) == L.cl(A.z[i][s + t])),
               [L.fdot(A.z[i], w, s)])
    return [("last column reduced to zero", red), ("unit diagonal", unit), ("submatrix", sub),
            Lem("dot_split", z3.Implies(unit, split)),
            ("scattered coefficients", rng), ("columns distinct", inj), ("zero elsewhere", off),
            Lem("dot_scatter", z3.Implies(z3.And(sub, rng, inj, off), scat)),
            Lem("neg_unique", neg_unique()),
            ("cancelled", neg),
            ("value on selected rows", val), ("every alive row is selected", allrows), ("value on alive rows", row)]


contract(GA + "gauss_barcodes", p="p", params=gb_params,
         requires=lambda c: [("p prime", prime_of(c, c["p"])),
                             ("start index", z3.And(1 <= c["start_index"], c["start_index"] <= c["A"].shape[1])),
                             ("one bar per row", z3.And(c["row_barcode"].shape[0] == c["A"].shape[0],
                                                        c["row_barcode"].shape[1] == 2)),
                             ("one bar per column", z3.And(c["col_barcode"].shape[0] == c["A"].shape[1],
                                                           c["col_barcode"].shape[1] == 2))],
         raises={"RuntimeError": None},
         result=lambda c: colmajor("coef", [c["start_index"], c["A"].shape[1] - c["start_index"]]),
         ensures=lambda c: [("shape", z3.And(c.result.shape[0] == c.old["start_index"],
                                             c.result.shape[1] == c.old["A"].shape[1] - c.old["start_index"]))] +
         gb_post_of(c, c.run.mat(c.result, col=True).zt, c.old["A"].shape[1] - c.old["start_index"]),
         loops={0: Loop(inv=gb_inv, hints=gb_hints, havoc=dict(
             coefficients=lambda c: colmajor("coef", c["coefficients"].shape)))})
