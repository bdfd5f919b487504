"""C01 run-time contract: modular arithmetic."""
import numpy as np
from common import Fail, Skip, req, call, raises, arr, pick_prime
from permaviss.gauss_mod_p.arithmetic_mod_p import add_mod_c, add_arrays_mod_c, inv_mod_p
from permaviss.gauss_mod_p.functions import multiply_mod_p

RULE = ("random operands (negative, reduced, larger than the modulus; int and "
        "float64 arrays) for add_mod_c, add_arrays_mod_c, multiply_mod_p and "
        "inv_mod_p with primes up to 10007; non-trivial: some operand nonzero")


def corners():
    for p in (2, 3, 5, 7, 11):
        for a in range(-3 * p, 3 * p + 1):
            yield "inv", dict(f="inv", a=a, p=p)
    for c in range(1, 6):
        for a in range(-7, 8):
            for b in range(-7, 8):
                yield "add", dict(f="add", a=a, b=b, c=c)


BIG = [2, 3, 5, 7, 11, 13, 17, 101, 257, 1009, 7919, 10007]


def gen(rng, tier):
    k = rng.randint(4)
    if k == 0:
        p = BIG[rng.randint(len(BIG))]
        return "inv", dict(f="inv", a=int(rng.randint(-5 * p, 5 * p + 1)), p=p)
    if k == 1:
        return "add", dict(f="add", a=int(rng.randint(-10**6, 10**6)),
                           b=int(rng.randint(-10**6, 10**6)), c=int(rng.randint(1, 1000)))
    c = int(rng.randint(1, 50)) if rng.rand() < .7 else BIG[rng.randint(len(BIG))]
    if k == 2:
        nd = rng.randint(1, 3)
        sh = [int(x) for x in rng.randint(0, 6, size=nd)]
        return "arrays", dict(f="arr", sh=sh, A=rng.randint(-3 * c, 3 * c + 1, size=sh),
                              B=rng.randint(-3 * c, 3 * c + 1, size=sh), c=c,
                              dt=["int64", "float64"][rng.randint(2)])
    n, m, k2 = (int(x) for x in rng.randint(0, 6, size=3))
    return "matmul", dict(f="mul", n=n, m=m, k=k2, A=rng.randint(-3 * c, 3 * c + 1, size=(n, m)),
                          B=rng.randint(-3 * c, 3 * c + 1, size=(m, k2)), c=c,
                          dt=["int64", "float64"][rng.randint(2)])


def check(case):
    f = case["f"]
    if f == "inv":
        a, p = case["a"], case["p"]
        if a % p == 0:
            req(raises(ValueError, inv_mod_p, a, p), "inv_mod_p({},{}) must raise ValueError", a, p)
            return "trivial" if a == 0 else "ok"
        m = call(inv_mod_p, a, p)
        req(0 <= m < p and (m * a) % p == 1, "inv_mod_p({},{}) = {}", a, p, m)
        m = call(inv_mod_p, np.float64(a), p)
        req(0 <= m < p and (int(m) * a) % p == 1, "inv_mod_p(float {},{}) = {}", a, p, m)
        return
    if f == "add":
        s = call(add_mod_c, case["a"], case["b"], case["c"])
        req(0 <= s < case["c"] and (s - case["a"] - case["b"]) % case["c"] == 0, "add_mod_c wrong: {}", s)
        return
    c = case["c"]
    if f == "arr":
        A, B = (arr(case[x], case["sh"], case["dt"]) for x in "AB")
        A0, B0 = A.copy(), B.copy()
        S = call(add_arrays_mod_c, A, B, c)
        req(np.shape(S) == A.shape, "shape {}", np.shape(S))
        req(np.array_equal(A, A0) and np.array_equal(B, B0), "operand modified")
        W = np.mod(A0.astype("int64") + B0.astype("int64"), c)
        req(np.array_equal(S, W), "wrong array sum {} expected {}", S, W)
        return "trivial" if not A.size else "ok"
    A, B = arr(case["A"], (case["n"], case["m"]), case["dt"]), arr(case["B"], (case["m"], case["k"]), case["dt"])
    S = call(multiply_mod_p, A, B, c)
    W = np.mod(A.astype("int64") @ B.astype("int64"), c)
    req(np.shape(S) == W.shape and np.array_equal(S, W), "wrong product {} expected {}", S, W)
    return "trivial" if not W.size else "ok"
