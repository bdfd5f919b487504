"""C03 run-time contract: linear solvers."""
import itertools
import numpy as np
import ref
from common import Fail, Skip, req, call, raises, arr, pick_prime
from permaviss.gauss_mod_p.functions import solve_mod_p, solve_matrix_mod_p
from c02 import rand_matrix

RULE = ("systems with 1..8 equations and 1..8 unknowns, solvable by construction or "
        "random, reduced or unreduced entries, 1..4 right-hand sides, primes up to "
        "1009; all 2x2 systems mod 2 and mod 3; non-trivial: some nonzero coefficient")


def corners():
    for p in (2, 3):
        for e in itertools.product(range(p), repeat=6):
            yield "exhaustive", dict(n=2, m=2, A=np.array(e[:4]).reshape(2, 2), B=[list(e[4:])], p=p, one=True, dt="int64")
    yield "multiple", dict(n=1, m=2, A=[[5, 1]], B=[[1]], p=5, one=True, dt="int64")
    yield "multiple", dict(n=1, m=2, A=[[5, 5]], B=[[1]], p=5, one=True, dt="int64")
    yield "multiple", dict(n=1, m=2, A=[[5, 5]], B=[[5]], p=5, one=True, dt="int64")


def gen(rng, tier):
    p = pick_prime(rng, big=True)
    A = rand_matrix(rng, p, 8, 8)
    n, m = A.shape
    if m == 0:
        return "skip", None
    one = bool(rng.rand() < .5)
    k = 1 if one else rng.randint(1, 5)
    if rng.rand() < .6:
        B = (A @ rng.randint(0, p, size=(m, k))).T
        if rng.rand() < .5:
            B = B % p
    else:
        B = rng.randint(-p, 2 * p, size=(k, n))
    if k > 1 and rng.rand() < .3:
        B[rng.randint(k)] = rng.randint(0, p, size=n)
    return ("vector" if one else "matrix"), dict(n=n, m=m, A=A, B=B, p=p, one=one, dt=["int64", "float64"][rng.randint(2)])


def check(case):
    p, n, m = case["p"], case["n"], case["m"]
    A = arr(case["A"], (n, m), case["dt"])
    B = arr(case["B"], (-1, n), case["dt"])
    Ai, Bi = ref.imat(A, p), ref.imat(B, p)
    solvable = all(ref.in_span(Ai, b, p) for b in Bi)
    if case["one"]:
        fn, rhs = solve_mod_p, B[0]
    else:
        fn, rhs = solve_matrix_mod_p, B
    A0, r0 = A.copy(), rhs.copy()
    if not solvable:
        req(raises(ValueError, fn, A, rhs, p), "unsolvable system accepted")
        return
    try:
        X = call(fn, A, rhs, p)
    except ValueError as e:
        raise Fail("solvable system rejected with ValueError")
    req(np.array_equal(A, A0) and np.array_equal(rhs, r0), "argument modified")
    X = np.asarray(X)
    req(X.shape == ((m,) if case["one"] else (m, len(B))), "shape {}", X.shape)
    req(np.all(X >= 0) and np.all(X < p), "solution not canonical {}", X)
    Xi = ref.imat(X.reshape(m, -1), p)
    req(np.array_equal((Ai @ Xi) % p, Bi.T), "A X != B: X={}", X)
    return "trivial" if not np.any(Ai) else "ok"
