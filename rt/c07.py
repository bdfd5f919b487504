"""C07 run-time contract: boundary matrices."""
import itertools
import numpy as np
import ref
from common import Fail, Skip, req, call, raises, arr, pick_prime
from permaviss.simplicial_complexes.differentials import complex_differentials

RULE = ("face-closed complexes on 1..8 vertices of dimension 1..5, simplices of each "
        "dimension in random order, int or float rows, primes up to 13; non-trivial: "
        "has a simplex of dimension 1 or more")


def closure(n, gens, top):
    out = {d: set() for d in range(1, top + 1)}
    for g in gens:
        for d in range(1, min(top, len(g) - 1) + 1):
            out[d] |= set(itertools.combinations(sorted(g), d + 1))
    return out


def corners():
    for p in (2, 3, 5):
        yield "simplex", dict(n=6, S=[[list(s) for s in itertools.combinations(range(6), d + 1)] for d in range(1, 6)], p=p, dt="int")
        yield "none", dict(n=3, S=[[]], p=p, dt="int")
        yield "none", dict(n=3, S=[[[0, 2]], []], p=p, dt="int")


def gen(rng, tier):
    n = rng.randint(1, 9)
    top = rng.randint(1, 6)
    gens = [sorted(rng.permutation(n)[:rng.randint(1, min(n, 6) + 1)].tolist()) for _ in range(rng.randint(0, 6))]
    cl = closure(n, gens, top)
    S = []
    for d in range(1, top + 1):
        rows = sorted(cl[d])
        S.append([list(rows[i]) for i in rng.permutation(len(rows))])
    return "random", dict(n=n, S=S, p=pick_prime(rng, big=True), dt=["int", "float"][rng.randint(2)])


def check(case):
    n, p = case["n"], case["p"]
    C = [n] + [np.array(s, dtype=case["dt"]) if len(s) else np.array([]) for s in case["S"]]
    D = call(complex_differentials, C, p)
    req(len(D) == len(C), "length")
    req(D[0] == n, "D[0] = {}", D[0])
    prev_rows = [(v,) for v in range(n)]
    prev = None
    for d in range(1, len(C)):
        rows = [tuple(int(x) for x in s) for s in case["S"][d - 1]]
        M = np.asarray(D[d])
        req(M.shape == (len(prev_rows), len(rows)), "D[{}] shape {}", d, M.shape)
        pos = {s: i for i, s in enumerate(prev_rows)}
        W = np.zeros(M.shape, dtype=int)
        for j, s in enumerate(rows):
            for k in range(d + 1):
                W[pos[s[:k] + s[k + 1:]], j] = (-1) ** k
        ok = np.array_equal(M, W % p) or np.array_equal(M, (-W) % p)
        req(ok, "D[{}] wrong entries: {}", d, M)
        if prev is not None and M.size and prev.size:
            req(not np.any((ref.imat(prev, p) @ ref.imat(M, p)) % p), "D[{}] D[{}] != 0", d - 1, d)
        prev, prev_rows = M, rows
    return "trivial" if not case["S"][0] else "ok"
