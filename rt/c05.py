"""C05 run-time contract: Vietoris-Rips complex."""
import itertools
import numpy as np
import scipy.spatial.distance as dist
import ref
from common import Fail, Skip, req, call, raises, arr
from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips

RULE = ("symmetric distance matrices on 0..9 points (Euclidean, integer with ties, "
        "arbitrary), radii at, below and above occurring distances, dimension bounds "
        "0..5; all graphs on 4 vertices; non-trivial: at least one edge")


def corners():
    for n in (0, 1, 2):
        for md in (0, 1, 2, 3):
            yield "tiny", dict(n=n, D=np.ones((n, n)) - np.eye(n), r=1.5, md=md)
            yield "tiny", dict(n=n, D=np.ones((n, n)) - np.eye(n), r=1.0, md=md)
    pairs = list(itertools.combinations(range(4), 2))
    for bits in itertools.product([0, 1], repeat=6):
        D = np.zeros((4, 4))
        for b, (i, j) in zip(bits, pairs):
            D[i, j] = D[j, i] = 1 if b else 2
        yield "graph4", dict(n=4, D=D, r=2.0, md=3)
    for n in (5, 6):
        yield "complete", dict(n=n, D=np.ones((n, n)) - np.eye(n), r=1.5, md=5)


def gen(rng, tier):
    n = rng.randint(2, 10)
    k = rng.randint(3)
    if k == 0:
        D = dist.squareform(dist.pdist(rng.rand(n, rng.randint(1, 4))))
    elif k == 1:
        D = rng.randint(1, 5, size=(n, n)).astype(float)
    else:
        D = rng.rand(n, n) + .2
    D = np.tril(D, -1)
    D = D + D.T
    vals = np.unique(D[np.tril_indices(n, -1)])
    q = rng.rand()
    r = float(vals[rng.randint(len(vals))]) if q < .4 else float(np.quantile(vals, rng.rand()) + rng.choice([0, 1e-3, .3]))
    return ["euclid", "ties", "arbitrary"][k], dict(n=n, D=D, r=r, md=int(rng.randint(0, 6)))


def check(case):
    n, r, md = case["n"], case["r"], case["md"]
    D = arr(case["D"], (n, n))
    D0 = D.copy()
    C, R = call(vietoris_rips, D, r, md)
    req(np.array_equal(D, D0), "argument modified")
    top = max(1, md)
    K = ref.rips_complex(D, r, top)
    req(len(C) == top + 1 and len(R) == top + 1, "dimensions: {} {}", len(C), len(R))
    req(C[0] == n, "C[0] = {}", C[0])
    req(len(R[0]) == n and not np.any(R[0]), "R[0] = {}", R[0])
    for d in range(1, top + 1):
        rows = [tuple(int(x) for x in s) for s in C[d]]
        req(all(len(s) == d + 1 and list(s) == sorted(set(s)) for s in rows), "dimension {}: not increasing rows", d)
        req(len(set(rows)) == len(rows), "dimension {}: duplicated simplex", d)
        req(set(rows) == set(K[d]), "dimension {}: wrong simplices, missing {} extra {}", d,
            sorted(set(K[d]) - set(rows))[:3], sorted(set(rows) - set(K[d]))[:3])
        req(len(R[d]) == len(rows), "radii length")
        for s, x in zip(rows, R[d]):
            req(x == K[d][s], "radius of {} is {} not {}", s, x, K[d][s])
        req(all(R[d][i] <= R[d][i + 1] for i in range(len(rows) - 1)), "dimension {} not sorted by radius", d)
    return "trivial" if not K[1] else "ok"
