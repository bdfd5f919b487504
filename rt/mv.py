"""Shared by C15-C17: clouds, worker-pool stand-ins, runs of create_MV_ss."""
import contextlib
import importlib
import itertools
import json
import multiprocessing
import multiprocessing.pool
import os
import pickle

import numpy as np
import scipy.spatial.distance as dist

import mvgen
from common import Skip, call, pick_prime

MODS = ("permaviss.spectral_sequence.MV_spectral_seq",
        "permaviss.spectral_sequence.spectral_sequence_class")


class _Res:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


def pool_class(seed, isolate):
    """A pool whose tasks run in an arbitrary order, each (when isolate) on its
    own pickled copy of function and argument, like in separate processes."""
    rng = np.random.RandomState(seed)

    class FakePool(object):
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def _one(self, f, a, k=None):
            if isolate:
                f, a, k = pickle.loads(pickle.dumps((f, a, k)))
            r = f(*a, **(k or {}))
            return pickle.loads(pickle.dumps(r)) if isolate else r

        def _run(self, f, argl):
            argl = list(argl)
            res = [None] * len(argl)
            order = list(rng.permutation(len(argl)))
            for i in order:
                res[i] = self._one(f, argl[i])
            return res, order

        def map(self, f, it, chunksize=None):
            return self._run(f, [(x,) for x in it])[0]

        def imap(self, f, it, chunksize=None):
            return iter(self.map(f, it))

        def imap_unordered(self, f, it, chunksize=None):
            r, o = self._run(f, [(x,) for x in it])
            return iter([r[i] for i in o])

        def starmap(self, f, it, chunksize=None):
            return self._run(f, [tuple(x) for x in it])[0]

        def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
            r = self.map(f, it)
            if callback:
                callback(r)
            return _Res(r)

        def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
            r = self.starmap(f, it)
            if callback:
                callback(r)
            return _Res(r)

        def apply(self, f, args=(), kwds=None):
            return self._one(f, args, kwds)

        def apply_async(self, f, args=(), kwds=None, callback=None, error_callback=None):
            r = self._one(f, args, kwds)
            if callback:
                callback(r)
            return _Res(r)

        def close(self):
            pass

        def join(self):
            pass

        def terminate(self):
            pass
    return FakePool


@contextlib.contextmanager
def pool(kind, seed):
    if kind == "real":
        # two workers instead of one per core
        base = multiprocessing.Pool
        cls = lambda *a, **k: base(2)
    else:
        cls = pool_class(seed, kind == "isolated")
    saved = []
    for m in [importlib.import_module(n) for n in MODS] + (
            [] if kind == "real" else [multiprocessing, multiprocessing.pool]):
        if hasattr(m, "Pool"):
            saved.append((m, m.Pool))
            m.Pool = cls
    try:
        yield
    finally:
        for m, v in saved:
            m.Pool = v


def distances(case):
    X = np.array(case["X"], dtype=float)
    return X, dist.squareform(dist.pdist(X))


def precondition(case):
    X, D = distances(case)
    if not mvgen.separated(list(D.ravel()) + [case["r"]]):
        raise Skip()
    if case["overlap"] < case["r"]:
        raise Skip()
    return X, D


def run(case):
    """Run the real create_MV_ss on a case under its schedule."""
    from permaviss.spectral_sequence.MV_spectral_seq import create_MV_ss
    X = np.array(case["X"], dtype=float)
    with pool(case["pool"], case["sched"]):
        return call(create_MV_ss, X, case["r"], case["max_dim"], case["max_div"],
                    case["overlap"], case["p"])


def mk(X, r, max_dim, max_div, overlap, p, pool="shuffle", sched=0):
    return dict(X=np.asarray(X), r=float(r), max_dim=int(max_dim), max_div=int(max_div),
                overlap=float(overlap), p=int(p), pool=pool, sched=int(sched))


def corners():
    # clouds found by search that reach rarely taken branches, failures included
    for kind, case in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mvcorpus.json"))):
        yield kind, case
    rng = np.random.RandomState(0)
    # a cloud where a lift has an image part but no homology
    P = [[0, 0, .6], [0, 0, -.6]] + [[.53 * a, .53 * b, 0] for a, b in
         [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1)]]
    G = [[-3 + .6, 0, 0], [-3 - .6, 0, 0], [-3, 0, .6], [-3, 0, -.6], [-3, .56, 0]]
    X = np.array(P + G) + rng.uniform(-.003, .003, size=(15, 3))
    X = np.r_[X, [[-5, -5, 0], [5, 5, 0]]]
    yield "lift", mk(X, 1.0, 3, 2, 1.0001, 3)
    yield "lift", mk(X[:10].tolist() + [[-5, -5, 0], [5, 5, 0]], 1.0, 3, 2, 1.0001, 2)
    # spheres split over the cover
    for n, r in ((3, 1.7), (4, 1.7)):
        O = np.concatenate([np.eye(n), -np.eye(n)]) + rng.uniform(-.02, .02, size=(2 * n, n))
        O[:, 0] *= 0.4
        if n == 3:
            yield "octahedron", mk(O, r, 3, 2, r * 1.01, 3)
            yield "octahedron", mk(O, r, 3, 2, r * 1.01, 2)
    # circles, dense and sparse
    for n, r, md in ((12, .7, 2), (16, .55, 2), (7, .9, 2), (12, 1.2, 3)):
        t = np.sort(rng.uniform(0, 2 * np.pi, size=n)) if n > 12 else np.arange(n) * 2 * np.pi / n + rng.uniform(-.05, .05, size=n)
        C = np.c_[np.cos(t), np.sin(t)]
        yield "circle", mk(C, r, md, 3, r * 1.001, 5, sched=n)
    # points of the line, flat clouds, one and two points
    yield "line", mk(np.c_[np.cumsum(rng.uniform(.1, .4, size=12))], .35, 2, 4, .35, 3)
    yield "flat", mk(np.c_[np.cumsum(rng.uniform(.1, .4, size=12)), np.zeros(12)], .35, 2, 4, .36, 3)
    yield "one", mk([[0., 0.]], 1., 2, 2, 1., 2)
    yield "two", mk([[0., 0.], [3., 1.]], 1., 2, 2, 1.1, 7)
    yield "two", mk([[0., 0.], [.3, .1]], 1., 2, 1, 1.1, 7)
    # equal distances
    yield "grid", mk([[i, j] for i in range(3) for j in range(3)], 1.2, 2, 2, 1.2, 3)
    yield "grid", mk([[i, j] for i in range(3) for j in range(3)], 1.6, 2, 2, 1.6, 2, "isolated")
    # the real multiprocessing pool
    t = np.arange(10) * 2 * np.pi / 10 + .03
    yield "pool", mk(np.c_[np.cos(t), np.sin(t) * 1.1], .8, 2, 2, .81, 5, "real")
    r3 = np.random.RandomState(3)
    yield "pool", mk(r3.uniform(-.5, .5, size=(14, 2)), .4, 2, 3, .41, 3, "isolated", 1)


def designed(rng, p, pk, sched):
    """Variations of clouds built to have nonzero differentials on the third
    page and extensions over two columns (bases in mvbase.json)."""
    base = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mvbase.json")))
    name = ["skip", "skip", "skip", "skip", "d3", "d3o", "e3"][rng.randint(7)]
    zd, Z = base[name]["zd"], np.array(base[name]["Z"])
    k = Z.shape[1]
    Y = Z + rng.uniform(-9e-4, 9e-4, size=Z.shape)
    Y[:, :zd] = np.where((abs(Z[:, :zd]) > .5) & (abs(Y[:, :zd]) < .5015), Z[:, :zd], Y[:, :zd])
    Y[:, :zd] = (Y[:, :zd] * rng.choice([-1, 1], size=zd))[:, rng.permutation(zd)]
    X = np.r_[Y, [[-5.] * zd + [0.] * (k - zd)], [[5.] * zd + [0.] * (k - zd)]].round(6)
    X = X[rng.permutation(len(X))]
    md = int(rng.choice([2, 3, 3, 4])) if name == "skip" else 3
    return mk(X, [1.0, 1.0, 1.0, .978][rng.randint(4)], md, 2, 1.0, p, pk, sched)


def gen(rng, tier):
    """-> (kind, case|None)"""
    u = rng.rand()
    pk = ["shuffle", "shuffle", "shuffle", "isolated"][rng.randint(4)]
    sched = int(rng.randint(1 << 30))
    p = pick_prime(rng, big=True)
    big = tier != "quick"
    if u < .03:
        return "designed", designed(rng, p, pk, sched)
    if u < .3:
        k = 1 if rng.rand() < .5 else 2
        n = rng.randint(5, 12 if big else 10) if k == 1 else rng.randint(6, 13 if big else 11)
        r = mvgen.realise(rng, n, k, rng.uniform(.35, .75), .12,
                          None if rng.rand() < .6 else int(rng.randint(2, 7)),
                          [(1, 1, 1), (1, 2, 1), (2, 1, 2)][rng.randint(3)])
        if r is None:
            return "realised", None
        X, mr, ov = r
        # the spatial dimension only feeds 2^dim empty nerve levels: rotate the
        # spare coordinates into fewer dimensions when they have low rank
        Y = X[:, k:]
        U, S, V = np.linalg.svd(Y, full_matrices=False)
        keep = max(1, int(np.sum(S > 1e-9)))
        if k + keep > 7:
            return "realised", None
        X = np.c_[X[:, :k], (Y @ V.T)[:, :keep]]
        md = int(rng.choice([2, 3, 3, 4, 5])) if len(X) <= 9 else int(rng.randint(2, 4))
        case = mk(X, mr, md, 2, ov, p, pk, sched)
        kind = "realised"
    elif u < .55:
        d = int(rng.randint(1, 3))
        n = int(rng.randint(1, 22))
        X = rng.uniform(-.5, .5, size=(n, d)) * np.array([1, rng.choice([1, .5, .05])])[:d]
        r = rng.uniform(.1, .5)
        case = mk(X, r, rng.randint(1, 4), rng.randint(1, 4), r * rng.choice([1, 1.01, 1.3]), p, pk, sched)
        kind = "uniform%d" % d
    elif u < .75:
        n = int(rng.randint(6, 18))
        t = np.arange(n) * 2 * np.pi / n
        X = np.c_[np.cos(t), np.sin(t)] * (1 + rng.uniform(-.1, .1, size=(n, 1)))
        r = 2 * np.sin(np.pi / n) * rng.uniform(1.1, 2.2)
        case = mk(X, r, rng.randint(2, 4), rng.randint(2, 4), r * 1.01, p, pk, sched)
        kind = "circle"
    elif u < .79:
        # many simplices of high dimension on few points
        n, d = int(rng.randint(5, 9)), int(rng.randint(1, 4))
        X = rng.uniform(-.5, .5, size=(n, d)) * np.array([1.] + [.45] * (d - 1))
        r = rng.uniform(.4, .95)
        case = mk(X, r, rng.randint(4, 6), rng.randint(1, 3), r * 1.01, p, pk, sched)
        kind = "deep"
    elif u < .9:
        n = int(rng.randint(6, 12))
        X = rng.uniform(-.5, .5, size=(n, 3)) * np.array([1, rng.choice([1, .4]), .4])
        r = rng.uniform(.3, .6)
        case = mk(X, r, rng.randint(2, 4), 2, r * 1.01, p, pk, sched)
        kind = "uniform3"
    else:
        # lattice points: many equal distances
        d = int(rng.randint(1, 3))
        n = int(rng.randint(2, 14))
        X = np.unique(rng.randint(0, 4, size=(n, d)), axis=0).astype(float)
        r = float(rng.choice([1.1, 1.5, 2.1]))
        case = mk(X, r, 2, rng.randint(1, 4), r, p, pk, sched)
        kind = "lattice"
    return kind, (case if cost(case) else None)


def cost(case):
    """Keep cases small enough for the quick tier."""
    X, D = distances(case)
    import ref
    n = len(X)
    A = D < case["r"]
    if n > 1 and (A.sum() - n) / 2 > 90:
        return False
    K = ref.rips_complex(D, case["r"], case["max_dim"])
    return sum(len(v) for v in K.values()) <= 260
