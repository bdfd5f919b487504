"""C09 run-time contract: cube enumeration and nerve."""
import itertools
import numpy as np
import ref
from common import Fail, Skip, req, call, raises, arr
from permaviss.covers.cubical_cover import next_hypercube, nerve_hypercube_cover

RULE = ("grids of dimension 1..4 with at most 60 cubes and 1..8 divisions per axis "
        "(nerve: at most 14 cubes in dimension 3); all grids with at most 3 divisions in "
        "dimension 1..2; non-trivial: at least two cubes")
CORNERS_SHARDED = True


def corners():
    for k in range(1, 8):
        yield "d1", dict(div=[k], nerve=True)
    for g in itertools.product(range(1, 4), repeat=2):
        yield "d2", dict(div=list(g), nerve=True)
    for g in ([1, 1, 1], [1, 3, 2], [2, 1, 2], [2, 2, 1], [2, 2, 2], [1, 1, 3], [3, 2, 1], [1, 2, 3], [2, 1, 4]):
        yield "d3", dict(div=g, nerve=True)
    for g in ([1, 4], [4, 1], [2, 4], [4, 2], [5, 2], [2, 6], [3, 4], [4, 4], [5, 3], [6, 1]):
        yield "d2", dict(div=g, nerve=True)
    yield "d4", dict(div=[1, 2, 1, 2], nerve=True)
    yield "d4", dict(div=[2, 1, 1, 3], nerve=True)


def gen(rng, tier):
    dim = rng.randint(1, 5)
    nerve = rng.rand() < .6
    for _ in range(50):
        g = [int(x) for x in rng.randint(1, [0, 9, 6, 4, 3][dim], size=dim)]
        lim = 60 if not nerve else [0, 40, 25, 12, 8][dim]
        if np.prod(g) <= lim:
            return "random", dict(div=g, nerve=bool(nerve))
    return "skip", None


def check(case):
    div = list(case["div"])
    dim = len(div)
    cubes = list(itertools.product(*[range(g) for g in div]))
    for form in ("list", "array"):
        pos = [0] * dim if form == "list" else np.zeros(dim)
        seen = [tuple(int(x) for x in pos)]
        for _ in range(len(cubes) - 1):
            call(next_hypercube, pos, div)
            seen.append(tuple(int(x) for x in pos))
        req(seen == cubes, "enumeration {}", seen[:6])
    if not case["nerve"]:
        return "ok" if len(cubes) > 1 else "trivial"
    d0 = list(div)
    N = call(nerve_hypercube_cover, div)
    req(div == d0, "argument modified")
    req(N[0] == len(cubes), "number of vertices {}", N[0])
    adj = set(frozenset((i, j)) for i in range(len(cubes)) for j in range(i)
              if all(abs(a - b) <= 1 for a, b in zip(cubes[i], cubes[j])))
    K = ref.clique_complex(adj, len(cubes), len(N) - 1)
    req(len(N) >= 2, "no edges level")
    for d in range(1, len(N)):
        rows = [tuple(int(x) for x in s) for s in N[d]]
        req(all(list(s) == sorted(set(s)) and len(s) == d + 1 for s in rows), "rows of level {}", d)
        req(len(rows) == len(set(rows)), "duplicates at level {}", d)
        req(set(rows) == K[d], "level {}: missing {} extra {}", d, sorted(K[d] - set(rows))[:3], sorted(set(rows) - K[d])[:3])
    big = ref.clique_complex(adj, len(cubes), len(N))[len(N)]
    req(not big, "nerve truncated: has a simplex of dimension {}", len(N))
    return "ok" if len(cubes) > 1 else "trivial"
