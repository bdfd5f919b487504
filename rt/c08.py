"""C08 run-time contract: cubical cover."""
import itertools
import numpy as np
from common import Fail, Skip, req, call, raises, arr
from permaviss.covers.cubical_cover import generate_cover, intersection_covers, corners_hypercube

RULE = ("clouds of 1..14 points in dimension 1..3 (random, on a grid, flat in a "
        "coordinate, repeated, points exactly on cube walls), 1..4 divisions, overlaps "
        "0 .. larger than the cloud; non-trivial: at least two cubes")
TOL = 1e-9


def corners():
    yield "one", dict(X=[[1., 2.]], div=2, ov=.5)
    yield "same", dict(X=[[1., 2.], [1., 2.]], div=3, ov=.5)
    yield "flat", dict(X=[[0., 2.], [1., 2.], [3., 2.]], div=2, ov=1.)
    yield "flat", dict(X=[[5., 0.], [5., 1.], [5., 4.]], div=3, ov=1.)
    yield "line", dict(X=[[float(i)] for i in range(9)], div=4, ov=2.)
    yield "grid", dict(X=[[float(i), float(j)] for i in range(5) for j in range(5)], div=4, ov=1.)
    yield "grid", dict(X=[[float(i), float(j)] for i in range(5) for j in range(3)], div=2, ov=0.)
    yield "grid", dict(X=[[float(i), float(j), float(k)] for i in range(3) for j in range(3) for k in range(2)], div=2, ov=1.)


def gen(rng, tier):
    dim = rng.randint(1, 4)
    n = rng.randint(1, 15)
    k = rng.randint(4)
    if k == 0:
        X = rng.rand(n, dim)
    elif k == 1:
        X = rng.randint(0, 5, size=(n, dim)).astype(float)
    elif k == 2:
        X = rng.randn(n, dim) * rng.choice([1, 10, .1], size=dim) + rng.randint(-5, 6, size=dim)
    else:
        X = rng.rand(n, dim)
        X[:, rng.randint(dim)] = rng.randint(-2, 3)
    div = int(rng.randint(1, 5 if dim < 3 else 3))
    ext = max(float(np.max(np.ptp(X, axis=0))), 1e-3)
    ov = float(rng.choice([0., .25, .5, 1., 1., 2.])) if k == 1 else float(ext * rng.choice([0, .05, .2, .5, 1.2]))
    return ["cube", "lattice", "aniso", "flat"][k], dict(X=X, div=div, ov=ov)


def check(case):
    X = np.array(case["X"], dtype=float)
    n, dim = X.shape
    div, ov = case["div"], case["ov"]
    X0 = X.copy()
    lo, hi = call(corners_hypercube, X)
    req(np.array_equal(lo, X.min(axis=0)) and np.array_equal(hi, X.max(axis=0)), "corners {} {}", lo, hi)
    pc, IN, nerve = call(generate_cover, div, ov, X)
    req(np.array_equal(X, X0), "argument modified")
    ext = X.max(axis=0) - X.min(axis=0)
    side = ext.max() / div
    # number of cubes per dimension, as the documentation fixes it: `div` on
    # the longest side, cubes of that side elsewhere
    nd = []
    for d in range(dim):
        if ext[d] <= 0:
            nd.append([1])
        else:
            q = ext[d] / side
            c = int(np.ceil(q - TOL))
            nd.append(sorted({max(1, c), max(1, int(np.ceil(q)))}))
    grids = [g for g in itertools.product(*nd) if int(np.prod(g)) == nerve[0]]
    req(len(grids) > 0, "number of cubes {} does not fit divisions {}", nerve[0], nd)
    grid = grids[0]
    req(len(IN[0]) == nerve[0] and len(pc[0]) == nerve[0], "cover length")
    # short binary fractions: every order of operations is exact, so that the
    # sides of the cubes belong to them
    exact = all(float(v) * 64 == round(float(v) * 64) and abs(float(v)) < 2 ** 20 for v in
                X.ravel().tolist() + [side, ov]) and side * div == ext.max()
    sets = []
    for c, pos in enumerate(itertools.product(*[range(g) for g in grid])):
        low = X.min(axis=0) + side * np.array(pos) - ov / 2.
        up = low + side + ov
        got = [int(i) for i in IN[0][c]]
        req(got == sorted(set(got)), "identification numbers not increasing: {}", got)
        sets.append(set(got))
        scale = TOL * max(1., np.abs(X).max())
        for i in range(n):
            if exact:
                req((i in sets[-1]) == bool(np.all(X[i] >= low) and np.all(X[i] <= up)), "point {} and the closed cube {}", i, pos)
            if np.all(X[i] > low + scale) and np.all(X[i] < up - scale):
                req(i in sets[-1], "point {} inside cube {} but not listed", i, pos)
            if np.any(X[i] < low - scale) or np.any(X[i] > up + scale):
                req(i not in sets[-1], "point {} outside cube {} but listed", i, pos)
        req(np.array_equal(np.asarray(pc[0][c]).reshape(-1, dim), X[got].reshape(-1, dim)), "coordinates of cube {}", pos)
    for i in range(n):
        # exactly on the boundary of the whole box rounding may lose a point
        # only when the overlap is zero
        if exact or ov > 0 or all(np.min(np.abs(X[i] - X.max(axis=0))) > TOL for _ in [0]):
            req(any(i in s for s in sets), "point {} not covered", i)
    if ov > 0:
        eps = 1e-9 * max(1., np.abs(X).max())
        subsets = [(i, j) for i in range(n) for j in range(i)]
        if n <= 8:
            subsets += list(itertools.combinations(range(n), 3)) + list(itertools.combinations(range(n), 4))
        for s in subsets:
            sp = X[list(s)].max(axis=0) - X[list(s)].min(axis=0)
            if np.all(sp <= ov - eps):
                req(any(set(s) <= t for t in sets), "points {} of spread {} <= overlap in no common cube", s, sp)
    for k in range(1, len(nerve)):
        req(len(IN[k]) == len(nerve[k]) and len(pc[k]) == len(nerve[k]), "nerve level {}", k)
        for s, simplex in enumerate(nerve[k]):
            want = sorted(set.intersection(*[sets[int(v)] for v in simplex]))
            got = [int(i) for i in IN[k][s]]
            req(got == want, "intersection {}: {} expected {}", simplex, got, want)
            req(np.array_equal(np.asarray(pc[k][s]).reshape(-1, dim), X[want].reshape(-1, dim)), "coordinates of {}", simplex)
            if s < 5:
                g2 = [int(i) for i in call(intersection_covers, IN[0], simplex)]
                req(g2 == want, "intersection_covers {}", g2)
    # consistency: cubes that share a point are joined in the nerve
    edges = set(tuple(int(v) for v in e) for e in nerve[1]) if len(nerve) > 1 else set()
    if ov <= side * (1 - 1e-9):
        for a in range(len(sets)):
            for b in range(a):
                inter = sets[a] & sets[b]
                if inter and (b, a) not in edges:
                    # only touching at a shared wall may be listed
                    raise Fail("cubes %d and %d share points %s but are not joined" % (b, a, sorted(inter)))
    return "trivial" if nerve[0] < 2 else "ok"
