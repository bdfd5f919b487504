"""C11 run-time contract: persistent homology of a filtered complex."""
import itertools
import numpy as np
import scipy.spatial.distance as dist
import ref
from common import Fail, Skip, req, call, raises, arr, pick_prime, warp
from permaviss.persistence_algebra.PH_classic import persistent_homology
from permaviss.simplicial_complexes.differentials import complex_differentials
from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips

RULE = ("filtered complexes: Vietoris-Rips of clouds / arbitrary metrics with ties and "
        "random face-closed complexes with monotone radii, 1..9 vertices, dimension "
        "1..4, primes up to 13; non-trivial: some edge")


def complex_case(K, max_r, p, rng=None):
    """K: dict dim->dict simplex->radius; simplices of equal radius shuffled."""
    S, R = [], []
    for d in range(1, max(K) + 1):
        items = sorted(K[d].items(), key=lambda t: t[0])
        if rng is not None:
            items = [items[i] for i in rng.permutation(len(items))]
        items.sort(key=lambda t: t[1])
        S.append([list(s) for s, _ in items])
        R.append([r for _, r in items])
    return dict(n=len(K[0]), S=S, R=R, max_r=max_r, p=p)


def corners():
    for p in (2, 3, 5):
        for n in (1, 2, 3, 4, 5, 6):
            D = np.ones((n, n)) - np.eye(n)
            yield "complete", complex_case(ref.rips_complex(D, 1.5, 3), 1.5, p)
        # octahedron, and projective plane (torsion: primes differ)
        D = np.full((6, 6), 1.)
        for i in range(3):
            D[2 * i, 2 * i + 1] = D[2 * i + 1, 2 * i] = 2
        np.fill_diagonal(D, 0)
        yield "octahedron", complex_case(ref.rips_complex(D, 3, 3), 3., p)
        rp2 = [(0, 1, 4), (0, 1, 5), (0, 2, 3), (0, 2, 5), (0, 3, 4), (1, 2, 3), (1, 2, 4), (1, 3, 5), (2, 4, 5), (3, 4, 5)]
        K = {0: {(v,): 0. for v in range(6)}, 1: {}, 2: {s: 2. for s in rp2}}
        for s in rp2:
            for e in itertools.combinations(s, 2):
                K[1][e] = 1.
        yield "rp2", complex_case(K, 5., p)


def gen(rng, tier):
    p = pick_prime(rng, big=True)
    k = rng.randint(3)
    top = rng.randint(1, 5)
    if k == 0:
        n = rng.randint(2, 11)
        D = dist.squareform(dist.pdist(rng.rand(n, rng.randint(1, 4))))
        r = float(np.quantile(D, rng.uniform(.3, 1)) + 1e-3)
    elif k == 1:
        n = rng.randint(2, 10)
        D = rng.randint(1, 5, size=(n, n)).astype(float)
        D = np.tril(D, -1)
        D = D + D.T
        r = float(rng.randint(2, 6))
    if k < 2:
        K = ref.rips_complex(D, r, top)
        if sum(len(v) for v in K.values()) > 350:
            return "skip", None
        return ["rips", "ties"][k], complex_case(K, r, p, rng)
    n = rng.randint(1, 9)
    gens = [sorted(rng.permutation(n)[:rng.randint(1, min(n, 5) + 1)].tolist()) for _ in range(rng.randint(0, 8))]
    K = {0: {(v,): 0. for v in range(n)}}
    for d in range(1, top + 1):
        K[d] = {}
        for g in gens:
            for s in itertools.combinations(g, d + 1):
                if s not in K[d]:
                    base = max(K[d - 1][f] for f in itertools.combinations(s, d))
                    K[d][s] = float(min(9, base + rng.randint(0 if d > 1 else 1, 3)))
    w = warp(rng)
    z = float(w(0.))
    K = {d: {s: float(w(r)) - z for s, r in v.items()} for d, v in K.items()}
    return "general", complex_case(K, float(w(12.)) - z, p, rng)


def check(case):
    n, p, max_r = case["n"], case["p"], case["max_r"]
    C = [n] + [np.array(s, dtype=int) if len(s) else np.array([]) for s in case["S"]]
    R = [np.zeros(n)] + [np.array(r, dtype=float) for r in case["R"]]
    K = {0: {(v,): 0. for v in range(n)}}
    for d in range(1, len(C)):
        K[d] = {tuple(s): r for s, r in zip(case["S"][d - 1], case["R"][d - 1])}
    D = call(complex_differentials, C, p)
    Dc = [d if np.ndim(d) == 0 else np.copy(d) for d in D]
    out = call(persistent_homology, D, R, max_r, p)
    Hom, Im, PreIm = out[0], out[1], out[2]
    for a, b in zip(D, Dc):
        req(np.array_equal(a, b), "differentials modified")
    want = ref.filtered_barcodes(K, max_r, p)
    top = len(C) - 1
    req(len(Hom) == top + 1, "number of degrees {}", len(Hom))
    for d in range(top + 1):
        got = ref.bars_of(Hom[d])
        req(got == [(float(a), float(b)) for a, b in want[d]], "degree {}: bars {} expected {}", d, got, want[d])
        bc = np.asarray(Hom[d].barcode).reshape(-1, 2)
        for i in range(len(bc) - 1):
            # bars are ordered after rounding to a fixed number of decimals
            a, b = bc[i], bc[i + 1]
            req(a[0] < b[0] - 1e-6 or (a[0] < b[0] + 1e-6 and a[1] >= b[1] - 1e-6)
                or (a[0] <= b[0] and b[0] - a[0] <= 1e-6), "degree {} not sorted", d)
    for d in range(top + 1):
        nd = n if d == 0 else len(C[d])
        H = ref.imat(Hom[d].coordinates, p).reshape(nd, -1) if Hom[d].dim else np.zeros((nd, 0), dtype=int)
        hb = np.asarray(Hom[d].barcode).reshape(-1, 2) if Hom[d].dim else np.zeros((0, 2))
        req(H.shape[1] == Hom[d].dim, "coordinates shape")
        dd = ref.imat(Dc[d], p) if d > 0 else np.zeros((0, nd), dtype=int)
        if H.shape[1] and d > 0:
            req(not np.any((dd @ H) % p), "degree {}: a generator is no cycle", d)
        for j in range(H.shape[1]):
            sup = np.nonzero(H[:, j])[0]
            req(len(sup) > 0 and max(R[d][sup]) <= hb[j, 0], "degree {}: generator {} uses simplices born after {}", d, j, hb[j, 0])
        B = np.zeros((nd, 0), dtype=int)
        ib = np.zeros((0, 2))
        if d < top and Im[d].dim:
            B = ref.imat(Im[d].coordinates, p)
            ib = np.asarray(Im[d].barcode)
            P = ref.imat(PreIm[d + 1], p)
            req(P.shape == (len(C[d + 1]), Im[d].dim), "PreIm[{}] shape {}", d + 1, P.shape)
            req(np.array_equal((ref.imat(Dc[d + 1], p) @ P) % p, B), "degree {}: D * PreIm != Im", d)
            for j in range(P.shape[1]):
                sup = np.nonzero(P[:, j])[0]
                req(len(sup) > 0 and max(R[d + 1][sup]) <= ib[j, 0], "PreIm[{}] column {} uses simplices born later", d + 1, j)
        # at every radius: alive classes and boundaries form a basis of cycles
        for r in np.unique(np.concatenate([R[d], R[d + 1] if d < top else []])):
            rows = [i for i in range(nd) if R[d][i] <= r]
            z = len(rows) - (ref.rank(dd[:, rows], p) if d > 0 else 0)
            act = [j for j in range(len(hb)) if hb[j, 0] <= r < hb[j, 1]]
            iact = [j for j in range(len(ib)) if ib[j, 0] <= r]
            req(len(act) + len(iact) == z and ref.rank(np.concatenate([B[:, iact], H[:, act]], axis=1), p) == z,
                "degree {} radius {}: {} classes and {} boundaries do not form a basis of the {} dim. cycles", d, r, len(act), len(iact), z)
    return "trivial" if not case["S"][0] else "ok"
