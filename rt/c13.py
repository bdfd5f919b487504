"""C13 run-time contract: homology of chain complexes of persistence modules."""
import numpy as np
import ref
from common import Fail, Skip, req, call, raises, arr, pick_prime, warp
from permaviss.persistence_algebra.barcode_bases import barcode_basis
from permaviss.persistence_algebra.module_persistence_homology import module_persistence_homology, quotient
from c12 import rand_bars, allowed, rand_morph, act, sub, oracle as image_oracle

RULE = ("chain complexes of 1..4 interval modules with 0..6 bars each: sums of elementary "
        "complexes scrambled by random automorphisms, or generators mapped to random "
        "cycles; gaps between radii from 1e-5 to 100; zero modules included; primes up to 7; quotients of random submodules; "
        "non-trivial: some nonzero differential")


def corners():
    z = []
    yield "zero-codomain", dict(f="hom", bars=[[[0, 2]], z, [[0, 3], [1, 3]]], D=[None, None, None], p=3)
    yield "zero-codomain", dict(f="hom", bars=[z, [[0, 2], [0, 3]], [[0, 3], [1, 3]]], D=[None, None, [[1, 0], [0, 1]]], p=3)
    yield "zero-domain", dict(f="hom", bars=[[[0, 2], [1, 4]], z], D=[None, None], p=2)
    yield "one", dict(f="hom", bars=[[[0, 2], [1, 4]]], D=[None], p=2)
    yield "all-zero", dict(f="hom", bars=[z, z], D=[None, None], p=2)


def elementary(rng, p):
    L = rng.randint(1, 4)
    hi = rng.randint(2, 7)
    bars = [[] for _ in range(L + 1)]
    ent = []
    for _ in range(rng.randint(1, 6)):
        k = rng.randint(0, L + 1)
        a = rng.randint(0, hi)
        b = rng.randint(a + 1, hi + 2)
        if k == 0 or rng.rand() < .3:
            bars[k].append([a, b])
        else:
            d = rng.randint(a + 1, b + 1)
            c = rng.randint(0, a + 1)
            bars[k].append([a, b])
            bars[k - 1].append([c, d])
            ent.append((k, len(bars[k]) - 1, len(bars[k - 1]) - 1, rng.randint(1, p)))
    D = [None] + [np.zeros((len(bars[k - 1]), len(bars[k])), dtype=int) for k in range(1, L + 1)]
    for k, j, i, c in ent:
        D[k][i, j] = c
    # scramble: e_j -> e_j + lam e_i in C_k
    for _ in range(rng.randint(0, 15)):
        k = rng.randint(0, L + 1)
        n = len(bars[k])
        if n < 2:
            continue
        i, j = rng.permutation(n)[:2]
        if not allowed(bars[k][j], bars[k][i]):
            continue
        lam = rng.randint(1, p)
        # new basis vector e_j' = e_j + lam e_i
        if k >= 1:
            D[k][:, j] = (D[k][:, j] + lam * D[k][:, i]) % p
            for r in range(D[k].shape[0]):
                if not allowed(bars[k][j], bars[k - 1][r]):
                    D[k][r, j] = 0
        if k < L:
            # coordinates: x_j e_j + x_i e_i = x_j e_j' + (x_i - lam x_j) e_i
            D[k + 1][i, :] = (D[k + 1][i, :] - lam * D[k + 1][j, :]) % p
            for c in range(D[k + 1].shape[1]):
                if not allowed(bars[k + 1][c], bars[k][i]):
                    D[k + 1][i, c] = 0
    return bars, D


def cycles_complex(rng, p):
    hi = rng.randint(2, 7)
    bars = [rand_bars(rng, rng.randint(1, 6), hi).tolist(), rand_bars(rng, rng.randint(1, 6), hi).tolist()]
    D = [None, rand_morph(rng, bars[1], bars[0], p)]
    for k in range(2, 2 + rng.randint(1, 3)):
        prev = bars[k - 1]
        low = bars[k - 2]
        nb, cols = [], []
        for _ in range(rng.randint(1, 6)):
            r = float(rng.randint(0, hi + 1))
            a, b = act(prev, r), act(low, r)
            if not a:
                continue
            N = ref.nullspace(sub(D[k - 1], b, a), p)
            if N.shape[1] == 0:
                continue
            v = (N @ rng.randint(0, p, size=N.shape[1])) % p
            col = np.zeros(len(prev), dtype=int)
            col[a] = v
            sup = [prev[i][1] for i in range(len(prev)) if col[i]]
            death = max(sup + [r + 1]) + rng.randint(0, 3)
            nb.append([r, float(death)])
            cols.append(col)
        if not nb:
            break
        bars.append(nb)
        D.append(np.array(cols).T)
    return bars, D


def gen(rng, tier):
    p = int([2, 3, 5, 7, 13, 1009][rng.randint(6)])
    if rng.rand() < .5:
        bars, D = elementary(rng, p)
        kind = "elementary"
    else:
        bars, D = cycles_complex(rng, p)
        kind = "cycles"
    w = warp(rng)
    bars = [w(b).tolist() if len(b) else [] for b in bars]
    if rng.rand() < .1 and len(bars) > 1:
        kind = "quotient"
        # quotient of ker by im presented directly
        return kind, dict(f="quot", bars=bars, D=D, p=p)
    return kind, dict(f="hom", bars=bars, D=D, p=p)


def hom_bars(bars, D, k, p):
    """barcode of homology in degree k by the rank oracle"""
    L = len(bars)
    rads = sorted(set(x for b in bars for y in b for x in y))
    if not rads:
        return []
    ck = [act(bars[k], r) for r in rads]

    def ker(i):
        if k == 0 or not len(bars[k - 1]):
            return np.identity(len(ck[i]), dtype=int)
        return ref.nullspace(sub(D[k], act(bars[k - 1], rads[i]), ck[i]), p)

    def im(i):
        if k + 1 >= L or not len(bars[k + 1]):
            return np.zeros((len(ck[i]), 0), dtype=int)
        return sub(D[k + 1], ck[i], act(bars[k + 1], rads[i])) % p

    def rk(i, j):
        if not ck[i] or not ck[j]:
            return 0
        N = ker(i)
        M = np.zeros((len(ck[j]), N.shape[1]), dtype=int)
        for t, x in enumerate(ck[j]):
            if x in ck[i]:
                M[t] = N[ck[i].index(x)]
        I = im(j)
        return ref.rank(np.concatenate([I, M], axis=1), p) - ref.rank(I, p)
    return ref.bars_from_ranks(rads, rk)


def check(case):
    p = case["p"]
    bars = [arr(b, (-1, 2)) for b in case["bars"]]
    L = len(bars)
    D = [0]
    for k in range(1, L):
        sh = (len(bars[k - 1]), len(bars[k]))
        D.append(arr(case["D"][k], sh) if case["D"][k] is not None and len(case["D"][k]) and sh[0] and sh[1]
                 else (np.zeros(sh) if sh[0] and sh[1] else np.array([])))
    Di = [None] + [ref.imat(D[k], p).reshape(len(bars[k - 1]), len(bars[k])) for k in range(1, L)]
    base = [barcode_basis(b if len(b) else []) for b in bars]
    Dc = [np.copy(d) for d in D]
    Hom, Im, PreIm = call(module_persistence_homology, D, base, p)
    req(all(np.array_equal(a, b) for a, b in zip(D, Dc)), "differentials modified")
    req(len(Hom) == L, "length")
    for k in range(L):
        want = hom_bars([b.tolist() for b in bars], Di, k, p)
        got = ref.bars_of(Hom[k])
        req(got == want, "degree {}: bars {} expected {}", k, got, want)
    req(len(Im) == L and len(PreIm) == L, "lists of images and preimages")
    req(Im[L - 1].dim == 0, "image in the top degree")
    for k in range(L - 1):
        # the boundaries of degree k: their barcode, their preimages
        if len(bars[k]) and len(bars[k + 1]):
            want, _, _ = image_oracle(bars[k + 1], bars[k], Di[k + 1], p)
        else:
            want = []
        got = ref.bars_of(Im[k]) if Im[k].dim else []
        req(got == want, "boundaries of degree {}: bars {} expected {}", k, got, want)
        if Im[k].dim:
            ib = np.asarray(Im[k].barcode).reshape(-1, 2)
            Ic = ref.imat(Im[k].coordinates, p)
            P = ref.imat(PreIm[k + 1], p)
            req(P.shape == (len(bars[k + 1]), Im[k].dim), "preimages of degree {} have shape {}", k + 1, P.shape)
            for j in range(Im[k].dim):
                rows = act(bars[k], ib[j][0])
                req(np.array_equal((Di[k + 1][rows] @ P[:, j]) % p, Ic[rows, j]), "degree {}: D * PreIm != Im for bar {}", k, ib[j])
    for k in range(L):
        if Hom[k].dim == 0:
            continue
        hb = np.asarray(Hom[k].barcode).reshape(-1, 2)
        Hc = ref.imat(Hom[k].coordinates, p)
        if not (k == 0 and Hc.size == 0):
            req(Hc.shape == (len(bars[k]), Hom[k].dim), "coordinates of degree {} have shape {}", k, Hc.shape)
        for r in sorted(set(x for b in bars for x in b.ravel().tolist())):
            rows = act(bars[k], r)
            low = act(bars[k - 1], r) if k > 0 else []
            dk = sub(Di[k], low, rows) if k > 0 else np.zeros((0, len(rows)), dtype=int)
            z = len(rows) - (ref.rank(dk, p) if dk.size else 0)
            I = sub(Di[k + 1], rows, act(bars[k + 1], r)) if k + 1 < L else np.zeros((len(rows), 0), dtype=int)
            ah = act(hb, r)
            Ha = sub(Hc, rows, ah)
            # representatives are cycles and, with the boundaries, span the cycles
            if dk.size and Ha.size:
                req(not np.any((dk @ Ha) % p), "degree {} radius {}: representative is no cycle", k, r)
            ri = ref.rank(I, p) if I.size else 0
            both = np.concatenate([I, Ha], axis=1)
            rb = ref.rank(both, p) if both.size else 0
            req(rb == z and len(ah) == z - ri, "degree {} radius {}: representatives and boundaries do not span the cycles ({} of {})", k, r, rb, z)
            # a class is a boundary from the radius where its bar ends
            dead = [j for j in range(len(hb)) if hb[j][1] <= r]
            Hd = sub(Hc, rows, dead)
            if Hd.size and np.any(Hd):
                rd = ref.rank(np.concatenate([I, Hd], axis=1), p)
                req(rd == ri, "degree {} radius {}: a class is not zero where its bar ends", k, r)
    if case["f"] == "quot":
        # quotient of a whole module by the image of the last differential
        k = L - 2
        if len(bars[k]) and Im[k].dim:
            M = barcode_basis(bars[k], base[k], np.identity(len(bars[k])))
            call(M.sort)
            Q = call(quotient, M, Im[k], p)
            want = hom_bars([b.tolist() for b in bars[k:]], [None] + Di[k + 1:], 0, p)
            req(ref.bars_of(Q) == want, "quotient bars {} expected {}", ref.bars_of(Q), want)
            other = barcode_basis(bars[k] + np.array([0, 1]))
            M2 = barcode_basis(bars[k] + np.array([0, 1]), other, np.identity(len(bars[k])))
            req(raises(ValueError, quotient, M2, Im[k], p), "quotient by a submodule of another module was accepted")
    return "ok" if any(d is not None and np.any(d) for d in Di[1:]) else "trivial"
