"""C10 run-time contract: barcode bases."""
import numpy as np
import ref
from common import Fail, Skip, req, call, raises, arr, pick_prime
from permaviss.persistence_algebra.barcode_bases import barcode_basis

RULE = ("0..8 bars with integer, half-integer or real end points (ties, empty and "
        "reversed bars included), with or without coordinates / broken differentials, "
        "radii at, between and outside end points; non-trivial: at least one bar kept")


def corners():
    z = dict(n=0, bars=[], coords=None, prev=None, broken=None, p=3, bad=None)
    yield "empty", dict(z)
    one = dict(n=1, bars=[[0, 1]], coords=None, prev=None, broken=None, p=3, bad=None)
    yield "one", one
    yield "alltrivial", dict(one, n=2, bars=[[1, 1], [3, 2]])
    yield "doc", dict(one, n=4, bars=[[1, 2], [0, 4], [-1, 3], [1, 4]])
    yield "doc", dict(one, n=3, bars=[[0, 2], [0, 1], [1, 3]], broken=[[0, 0, 0], [0, 0, 0], [0, 1, 0]], A=[[1, 1, 1], [0, 2, -1], [0, 1, 1]], p=5)
    for bad in ("coord_rows", "coord_cols", "broken_none", "broken_rows", "broken_cols"):
        yield "bad", dict(one, n=2, bars=[[0, 1], [0, 2]], bad=bad)
        yield "bad", dict(one, n=3, bars=[[0, 1], [0, 2], [3, 1]], bad=bad)


def gen(rng, tier):
    n = rng.randint(0, 9)
    k = rng.randint(3)
    hi = rng.randint(1, 7)
    if k == 0:
        b = rng.randint(-1, hi + 1, size=(n, 2)).astype(float)
    elif k == 1:
        b = rng.randint(0, 2 * hi + 1, size=(n, 2)) / 2.
    else:
        b = np.round(rng.rand(n, 2) * 5, 4)
    q = rng.rand()
    if q < .6:
        b = np.sort(b, axis=1)
    if q < .35:
        b[:, 1] += .5 if k else 1
    p = pick_prime(rng, big=True)
    c = dict(n=n, bars=b, coords=None, prev=None, broken=None, p=p, bad=None)
    w = rng.randint(3)
    if w == 1 and n > 0:
        m = rng.randint(1, 6)
        c["prev"] = int(m)
        c["coords"] = rng.randint(0, p, size=(m, n))
    if w == 2:
        good = [i for i in range(n) if b[i][0] < b[i][1]]
        c["bars"] = b[good]
        c["n"] = len(good)
        m = len(good)
        c["broken"] = rng.randint(0, p, size=(m, m)) * (rng.rand(m, m) < .5)
        c["A"] = rng.randint(-p, 2 * p, size=(m, rng.randint(1, 5)))
    return ["plain", "coords", "broken"][w], c


def radii(bars):
    v = np.unique(bars) if len(bars) else np.array([0.])
    mids = (v[1:] + v[:-1]) / 2 if len(v) > 1 else np.array([])
    return np.concatenate([v, mids, [v[0] - 1, v[-1] + 1]])


def queries(B, bars):
    for r in radii(bars):
        act = [i for i in range(len(bars)) if bars[i][0] <= r < bars[i][1]]
        for name, want in (("active", act), ("birth", [i for i in range(len(bars)) if bars[i][0] == r]),
                           ("death", [i for i in range(len(bars)) if bars[i][1] == r])):
            got = call(getattr(B, name), r)
            req([int(x) for x in got] == want, "{}({}) = {} expected {}", name, r, got, want)
    ch = call(B.changes_list)
    req(np.array_equal(np.asarray(ch).ravel(), np.unique(bars)), "changes_list {}", ch)


def check(case):
    n, p = case["n"], case["p"]
    bars = arr(case["bars"], (n, 2))
    if case["bad"]:
        m = len([b for b in bars if b[0] < b[1]])
        prev = barcode_basis(np.array([[0, 1], [0, 1], [0, 2]]))
        if case["bad"] == "coord_rows":
            f = lambda: barcode_basis(bars, prev, np.ones((2, n)))
        elif case["bad"] == "coord_cols":
            f = lambda: barcode_basis(bars, prev, np.ones((3, n + 1)))
        elif case["bad"] == "broken_none":
            f = lambda: barcode_basis(bars, broken_basis=True)
        elif case["bad"] == "broken_rows":
            f = lambda: barcode_basis(bars, broken_basis=True, broken_differentials=np.zeros((m + 1, m)))
        else:
            f = lambda: barcode_basis(bars, broken_basis=True, broken_differentials=np.zeros((m, m + 1)))
        req(raises(ValueError, f), "ill-shaped data accepted: {}", case["bad"])
        return "ok"
    b0 = bars.copy()
    keep = [i for i in range(n) if bars[i][0] < bars[i][1]]
    coords = broken = None
    if case["coords"] is not None:
        prev = barcode_basis(np.array([[0, i + 1] for i in range(case["prev"])]))
        coords = arr(case["coords"], (case["prev"], n))
        c0 = coords.copy()
        B = call(barcode_basis, bars, prev, coords, store_well_defined=True)
        req([i for i in range(n) if B.well_defined[i]] == keep, "well_defined {}", B.well_defined)
        req(B.prev_basis is prev, "prev_basis lost")
    elif case["broken"] is not None:
        broken = arr(case["broken"], (n, n))
        B = call(barcode_basis, bars, broken_basis=True, broken_differentials=broken.copy())
    elif n == 0:
        B = call(barcode_basis, [])
    else:
        B = call(barcode_basis, bars)
    want = bars[keep].reshape(-1, 2)
    req(B.dim == len(keep), "dim {} expected {}", B.dim, len(keep))
    req(np.array_equal(bars, b0), "given bars modified")
    if n == 0 and case["broken"] is None:
        return "trivial"
    req(np.array_equal(np.asarray(B.barcode).reshape(-1, 2), want), "bars kept {} expected {}", B.barcode, want)
    if coords is not None:
        req(np.array_equal(B.coordinates, c0[:, keep]), "coordinates {}", B.coordinates)
    if case["broken"] is not None:
        req(np.array_equal(B.broken_differentials, broken), "broken differentials {}", B.broken_differentials)
    if len(keep) == 0:
        return "trivial"
    queries(B, want)

    def upd(broken, want):
        A = arr(case["A"], (n, -1))
        for r in radii(want):
            dying = [i for i in range(n) if want[i][1] == r]
            W = A.copy()
            W[dying] = 0
            if dying:
                W = np.mod(W + broken[:, dying] @ A[dying], p)
            got = call(B.update_broken, A.copy(), r, p)
            req(np.array_equal(np.mod(got, p), np.mod(W, p)), "update_broken at {}: {} expected {}", r, got, W)
            if dying:
                req(np.all(np.asarray(got) >= 0) and np.all(np.asarray(got) < p), "update_broken not canonical")
    if broken is not None:
        upd(broken, want)
    order = call(B.sort, send_order=True)
    order = [int(i) for i in order]
    req(sorted(order) == list(range(len(keep))), "order is no permutation {}", order)
    s = want[order]
    req(np.array_equal(B.barcode, s), "sorted bars {} do not follow order {}", B.barcode, order)
    for i in range(len(s) - 1):
        req(s[i][0] < s[i + 1][0] or (s[i][0] == s[i + 1][0] and s[i][1] >= s[i + 1][1]), "not in standard order: {}", s)
    req(bool(B.sorted), "sorted flag not set")
    if coords is not None:
        req(np.array_equal(B.coordinates, c0[:, keep][:, order]), "coordinates not permuted")
    if broken is not None:
        req(np.array_equal(B.broken_differentials, broken[np.ix_(order, order)]), "broken differentials not permuted")
        broken2 = broken[np.ix_(order, order)]
        upd(broken2, s)
    queries(B, s)
    req(call(B.sort) is None, "sort() without send_order returns a value")
    return "ok"
