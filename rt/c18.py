"""C18 run-time contract: samplers and farthest-point subsampling."""
import numpy as np
from common import req, call, raises
from permaviss.sample_point_clouds import examples as ex

RULE = ("every sampler with random sizes (0 included where meaningful), radii, centres, "
        "dimensions and random states; subsamples of clouds with and without repeated points; "
        "non-trivial: at least two points")


def corners():
    for kind in ("circle", "rcircle", "ball", "sphere", "cube", "grid", "grid3", "torus", "take"):
        for n in (1, 2, 5):
            yield kind, dict(kind=kind, n=n, r=2.5, eps=.3, c=[1.0, -2.0], dim=3, state=n, seed=n,
                             k=n, X=[[float(i * i), float(i)] for i in range(5)], hd=n, vd=3, dd=2, R=4.0)
    yield "torus", dict(kind="torusbad", R=1.0, r=2.0)
    # every first choice, repeated points, more samples than points
    for s in range(30):
        yield "take", dict(kind="take", state=s, seed=None, k=9, X=[[0., 0.], [0., 0.], [3., 1.], [5., 0.], [5., 0.]])
        yield "take", dict(kind="take", state=s % 3, seed=s // 3, k=4, X=[[0., 0.], [1., 7.], [3., 1.], [5., 0.], [4., 4.]])


def gen(rng, tier):
    kind = ["circle", "rcircle", "ball", "sphere", "cube", "grid", "grid3", "torus", "take", "take", "take"][rng.randint(11)]
    n, d = int(rng.randint(1, 30)), int(rng.randint(1, 5))
    X = rng.randint(0, 6, size=(n, d)).astype(float) if rng.rand() < .4 else rng.uniform(-1, 1, size=(n, d))
    if n == 1:
        X = X[:1]
    return kind, dict(kind=kind, n=n, r=float(rng.uniform(.1, 9)), eps=float(rng.uniform(0, 2)),
                      c=rng.uniform(-5, 5, size=2), dim=d, state=int(rng.randint(1 << 30)),
                      seed=None if rng.rand() < .5 else int(rng.randint(1 << 30)),
                      k=int(rng.randint(1, 35)), X=X, hd=int(rng.randint(1, 7)),
                      vd=int(rng.randint(1, 7)), dd=int(rng.randint(1, 7)), R=float(rng.uniform(9, 20)))


def near(a, b, tol=1e-9):
    return np.all(np.abs(np.asarray(a) - b) <= tol * (1 + abs(b) if np.isscalar(b) else 1))


def shape(P, n, d):
    req(np.shape(P) == (n, d), "shape {} instead of {}", np.shape(P), (n, d))
    req(np.all(np.isfinite(P)), "non finite coordinates")


def check(case):
    k = case["kind"]
    if k == "torusbad":
        req(raises(ValueError, ex.torus3D, 3, case["r"], case["R"]), "accepted min_rad > max_rad")
        return "ok"
    np.random.seed(case["state"])
    n = case.get("n")
    triv = "trivial" if n is not None and n < 2 else "ok"
    if k == "circle":
        P = call(ex.circle, n, case["r"])
        shape(P, n, 2)
        req(near(np.hypot(P[:, 0], P[:, 1]), case["r"]), "points off the circle")
        t = np.sort(np.mod(np.arctan2(P[:, 1], P[:, 0]), 2 * np.pi))
        if n > 1:
            g = np.append(np.diff(t), t[0] + 2 * np.pi - t[-1])
            req(np.all(np.abs(g - 2 * np.pi / n) < 1e-6), "points are not evenly spaced")
    elif k == "rcircle":
        c = case["c"]
        P = call(ex.random_circle, n, case["r"], case["eps"], c, case["seed"])
        shape(P, n, 2)
        q = np.hypot(P[:, 0] - c[0], P[:, 1] - c[1])
        tol = 1e-9 * (1 + case["r"])
        req(np.all(q >= case["r"] - tol) and np.all(q <= case["r"] * (1 + case["eps"]) + tol), "points off the annulus")
        if case["seed"] is not None:
            np.random.seed(case["state"] + 1)
            P2 = call(ex.random_circle, n, case["r"], case["eps"], c, case["seed"])
            req(np.array_equal(P, P2), "not reproducible with a seed")
    elif k == "ball":
        P = call(ex.ball, n, case["r"], case["dim"])
        shape(P, n, case["dim"])
        req(np.all(np.linalg.norm(P, axis=1) <= case["r"]), "points outside the ball")
    elif k == "sphere":
        P = call(ex.random_sphere, n, case["r"], case["dim"])
        shape(P, n, case["dim"])
        req(near(np.linalg.norm(P, axis=1), case["r"]), "points off the sphere")
    elif k == "cube":
        P = call(ex.random_cube, n, case["dim"])
        shape(P, n, case["dim"])
        req(np.all(np.abs(P) <= .5), "points outside the unit cube")
    elif k in ("grid", "grid3"):
        ds = [case["hd"], case["vd"]] + ([case["dd"]] if k == "grid3" else [])
        P = call(ex.grid if k == "grid" else ex.grid_tridimensional, *ds)
        shape(P, int(np.prod(ds)), len(ds))
        import itertools
        want = sorted(tuple(x - (m - 1) / 2 for x, m in zip(t, ds)) for t in itertools.product(*[range(m) for m in ds]))
        req(sorted(tuple(float(x) for x in q) for q in P) == want, "not the centred grid")
    elif k == "torus":
        P = call(ex.torus3D, n, case["r"], case["R"])
        shape(P, n, 3)
        q = (np.hypot(P[:, 0], P[:, 1]) - case["R"]) ** 2 + P[:, 2] ** 2
        req(near(np.sqrt(q), case["r"], 1e-8), "points off the torus")
    elif k == "take":
        X = np.array(case["X"], dtype=float)
        X0 = X.copy()
        P = call(ex.take_sample, X, case["k"], case["seed"])
        req(np.array_equal(X, X0), "input modified")
        m = min(len(X), case["k"])
        shape(P, m, X.shape[1])
        # distinct input points: as multisets
        from collections import Counter
        cx, cp = Counter(map(tuple, X)), Counter(map(tuple, P))
        req(all(cp[t] <= cx[t] for t in cp), "a point was returned more often than it occurs")
        D = np.sqrt(((X[:, None, :] - P[None, :, :]) ** 2).sum(axis=2))
        for i in range(1, m):
            near_ = D[:, :i].min(axis=1)
            j = [t for t in range(len(X)) if tuple(X[t]) == tuple(P[i])][0]
            req(near_[j] >= near_.max() - 1e-9, "sample {} is not farthest from the previous ones: {} < {}", i, near_[j], near_.max())
        if case["seed"] is not None:
            for st in range(1, 9):
                np.random.seed(case["state"] + st)
                req(np.array_equal(P, call(ex.take_sample, X, case["k"], case["seed"])), "not reproducible with a seed")
        triv = "ok" if m > 1 else "trivial"
    return triv
