"""C02 run-time contract: gauss_col."""
import itertools
import numpy as np
import ref
from common import Fail, Skip, req, call, raises, arr, pick_prime
from permaviss.gauss_mod_p.gauss_mod_p import gauss_col

RULE = ("integer matrices with 1..9 rows and 0..9 columns, entries reduced or in "
        "(-3p, 3p), duplicated / zero / dependent columns, int64 and float64, primes "
        "up to 1009; all 2x3 and 3x2 matrices mod 2 and all 2x2 mod 3; non-trivial: "
        "at least one nonzero entry")
TIME_LIMIT = 30


def case_of(M, p, dt="int64", T=False):
    M = np.asarray(M)
    return dict(n=M.shape[0], m=M.shape[1], A=M, p=p, dt=dt, T=T)


def corners():
    for sh, p in (((2, 3), 2), ((3, 2), 2), ((2, 2), 3)):
        for e in itertools.product(range(p), repeat=sh[0] * sh[1]):
            yield "exhaustive", case_of(np.array(e).reshape(sh), p)
    yield "empty", case_of(np.zeros((3, 0)), 5)
    yield "multiple", case_of([[5, 1, 1]], 5)
    yield "multiple", case_of([[5, 0], [10, 1]], 5)


def rand_matrix(rng, p, nmax=9, mmax=9):
    n, m = rng.randint(1, nmax + 1), rng.randint(0, mmax + 1)
    k = rng.randint(5)
    if k == 0:
        M = rng.randint(0, p, size=(n, m))
    elif k == 1:
        M = rng.randint(-3 * p, 3 * p + 1, size=(n, m))
    elif k == 2:
        M = rng.randint(0, p, size=(n, m)) * (rng.rand(n, m) < .35)
    elif k == 3:
        r = rng.randint(1, 4)
        M = (rng.randint(0, p, size=(n, r)) @ rng.randint(0, p, size=(r, m))) % p
    else:
        M = rng.choice([0, 1, p - 1], size=(n, m))
        if m > 1:
            M[:, rng.randint(m)] = M[:, rng.randint(m)]
    return M


def gen(rng, tier):
    p = pick_prime(rng, big=True)
    big = 9 if rng.rand() < .9 else 16
    return "random", case_of(rand_matrix(rng, p, big, big), p,
                             ["int64", "float64"][rng.randint(2)], bool(rng.rand() < .2))


def pivots(R):
    out = []
    for j in range(R.shape[1]):
        nz = np.nonzero(R[:, j])[0]
        if len(nz):
            out.append(int(nz[-1]))
    return out


def check(case):
    A = arr(case["A"], (case["n"], case["m"]), case["dt"])
    if case["T"]:
        A = np.array(A.T, order="C").T      # non contiguous view
    p = case["p"]
    A0 = A.copy()
    R, T = call(gauss_col, A, p)
    req(np.array_equal(A, A0), "argument modified")
    m = case["m"]
    req(np.shape(R) == A.shape, "R has shape {}", np.shape(R))
    req(np.shape(T) == (m, m), "T has shape {}", np.shape(T))
    req(np.all(R >= 0) and np.all(R < p), "R entries not canonical: {}", R)
    Ti = ref.imat(T, p)
    req(np.array_equal((ref.imat(A0, p) @ Ti) % p, ref.imat(R, p)), "A*T != R mod p; R={} T={}", R, T)
    req(np.array_equal(np.diag(Ti), np.ones(m)), "T diagonal {}", np.diag(T))
    req(not np.any(np.tril(Ti, -1)), "T not upper triangular {}", T)
    pv = pivots(R)
    req(len(set(pv)) == len(pv), "shared pivots in {}", R)
    return "trivial" if not np.any(A0) else "ok"
