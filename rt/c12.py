"""C12 run-time contract: image and kernel of a persistence morphism."""
import numpy as np
import ref
from common import Fail, Skip, req, call, raises, arr, pick_prime, warp
from permaviss.persistence_algebra.barcode_bases import barcode_basis
from permaviss.persistence_algebra.image_kernel import image_kernel

RULE = ("interval modules with 1..7 bars on up to 8 radii (ties, nested, equal bars; "
        "gaps between radii from 1e-5 to 100), "
        "random morphisms respecting births and deaths, bases sorted or not, entries "
        "canonical or negative; images modulo the first columns; images in a codomain whose "
        "dying generators are replaced; primes up to 1009; non-trivial: nonzero matrix")


def rand_bars(rng, n, hi):
    b = []
    for _ in range(n):
        a = rng.randint(0, hi)
        b.append([a, rng.randint(a + 1, hi + 2)])
    return np.array(b, float).reshape(n, 2)


def allowed(a, b):
    """is there a nonzero morphism from interval a to interval b"""
    return b[0] <= a[0] < b[1] <= a[1]


def rand_morph(rng, A, B, p, dens=.8):
    F = np.zeros((len(B), len(A)), dtype=int)
    for j in range(len(A)):
        for i in range(len(B)):
            if allowed(A[j], B[i]) and rng.rand() < dens:
                F[i, j] = rng.randint(0, p)
    return F


def corners():
    yield "overwritten", dict(A=[[0, 6], [3, 5]], B=[[0, 4]], F=[[1, 1]], p=2, sa=False, sb=False)
    yield "doc", dict(A=[[1, 8], [1, 5], [2, 5], [4, 8]], B=[[-1, 3], [0, 4], [0, 3.5], [2, 5], [2, 4], [3, 8]],
                      F=[[4, 1, 1, 0], [1, 4, 1, 0], [1, 1, 4, 0], [0, 0, 1, 4], [0, 0, 4, 1], [0, 0, 0, 1]], p=5, sa=False, sb=False)
    yield "zero", dict(A=[[0, 2]], B=[[0, 2]], F=[[0]], p=3, sa=False, sb=False)
    yield "shape", dict(A=[[0, 3], [1, 3]], B=[[0, 2]], F=[[1, 1]], p=3, sa=True, sb=True, shape=True)
    for p in (2, 3, 5):
        yield "id", dict(A=[[0, 2], [1, 3]], B=[[0, 2], [1, 3]], F=[[1, 0], [0, 1]], p=p, sa=True, sb=True)
    # inputs on which the preimages were wrong before 'fix:' commits
    yield "preimage", dict(A=[[4.0, 6.0], [5.0, 8.0], [5.0, 7.0], [4.0, 7.0], [6.0, 8.0]], B=[[2.0, 7.0], [4.0, 7.0]], F=[[0, 0, 5, 5, 7], [0, 2, 1, 8, 5]], p=13, sa=True, sb=False)
    yield "preimage", dict(A=[[2.0, 4.0], [0.0, 3.0], [2.0, 3.0], [0.0, 3.0], [1.0, 3.0]], B=[[1.0, 3.0], [1.0, 3.0]], F=[[67, 0, 74, 0, 96], [50, 0, 60, 0, 85]], p=101, sa=False, sb=True)
    yield "preimage", dict(A=[[4.0, 6.0], [1.0, 6.0], [0.0, 4.0], [1.0, 7.0]], B=[[1.0, 6.0], [0.0, 3.0], [0.0, 6.0]], F=[[0, 0, 0, 0], [0, 0, 1, 1], [1, 0, 0, 1]], p=2, sa=False, sb=False)
    yield "preimage", dict(A=[[1.0, 3.0], [1.0, 2.0], [0.0, 3.0], [0.0, 1.0], [0.0, 2.0]], B=[[0.0, 2.0], [0.0, 2.0], [0.0, 3.0]], F=[[0, 0, 0, 0, 9], [2, 10, 0, 0, 6], [8, 0, 6, 0, 0]], p=11, sa=False, sb=True)
    # the image in a broken basis was not found (RecursionError) before a 'fix:' commit
    yield "broken", dict(A=[[1, 7], [2, 7], [3, 7], [0, 7], [1, 7]], B=[[1, 5], [2, 6], [3, 4], [0, 3], [1, 2]],
                         F=np.identity(5, dtype=int).tolist(), p=101, sa=True, sb=True,
                         E=[[0, 0, 0, 0, 0], [0, 0, 16, 83, 93], [0, 0, 0, 75, 0], [0, 0, 0, 0, 88], [0, 0, 0, 0, 0]])
    for p in (997, 1009):
        yield "large prime", dict(A=[[0, 2], [0, 2]], B=[[0, 2]], F=[[1, 1]], p=p, sa=True, sb=True)


def broken_matrix(rng, B, p):
    """column j: what generator j becomes where its bar ends (generators alive there)"""
    E = np.zeros((len(B), len(B)), dtype=int)
    for j in range(len(B)):
        for i in range(len(B)):
            if B[i][0] <= B[j][1] < B[i][1] and rng.rand() < .6:
                E[i, j] = rng.randint(0, p)
    return E


def gen_broken(rng, p, hi):
    n = rng.randint(1, 7)
    B = rand_bars(rng, n, hi)
    E = broken_matrix(rng, B, p)
    end = float(hi + 2)
    if rng.rand() < .5:      # as in the extension problem: the identity on the generators
        A = B.copy()
        F = np.identity(n, dtype=int)
    else:
        A = rand_bars(rng, rng.randint(1, 7), hi)
        F = np.zeros((n, len(A)), dtype=int)
        for j in range(len(A)):
            for i in range(n):
                if B[i][0] <= A[j][0] < B[i][1] and rng.rand() < .7:
                    F[i, j] = rng.randint(0, p)
    A[:, 1] = end
    return "broken", dict(A=A, B=B, F=F, p=p, sa=bool(rng.rand() < .5), sb=bool(rng.rand() < .5), E=E)


def gen_relative(rng, p, hi):
    """first columns: a basis of a submodule (the image of a random morphism)"""
    B = rand_bars(rng, rng.randint(1, 7), hi)
    N, M = rand_bars(rng, rng.randint(1, 5), hi), rand_bars(rng, rng.randint(1, 6), hi)
    if rng.rand() < .4:
        M[:, 1] = hi + 2
    return "relative", dict(N=N, M=M, B=B, FN=rand_morph(rng, N, B, p), FM=rand_morph(rng, M, B, p), p=p,
                            sa=bool(rng.rand() < .5), sb=bool(rng.rand() < .5))


def gen(rng, tier):
    kind, case = gen_grid(rng, tier)
    w = warp(rng)
    for k in ("A", "B", "N", "M"):
        if k in case:
            case[k] = w(case[k])
    return kind, case


def gen_grid(rng, tier):
    p = pick_prime(rng, big=True)
    t = rng.rand()
    if t < .15:
        return gen_broken(rng, p, rng.randint(2, 8))
    if t < .3:
        return gen_relative(rng, p, rng.randint(2, 8))
    hi = rng.randint(2, 8)
    mx = 6 if rng.rand() < .85 else 8
    A, B = rand_bars(rng, rng.randint(1, mx), hi), rand_bars(rng, rng.randint(1, mx), hi)
    if rng.rand() < .4:      # long domain bars: many allowed entries
        A[:, 1] = hi + 2
    F = rand_morph(rng, A, B, p)
    if rng.rand() < .2:
        F = F - p * (rng.rand(*F.shape) < .5)
    return "random", dict(A=A, B=B, F=F, p=p, sa=bool(rng.rand() < .3), sb=bool(rng.rand() < .3))


def act(b, r):
    return [i for i in range(len(b)) if b[i][0] <= r < b[i][1]]


def sub(M, rows, cols):
    return M[np.ix_(rows, cols)] if len(rows) and len(cols) else np.zeros((len(rows), len(cols)), dtype=int)


def oracle(A, B, F, p):
    rads = sorted(set(np.concatenate([A.ravel(), B.ravel()]).tolist()))
    a = [act(A, r) for r in rads]
    b = [act(B, r) for r in rads]

    def rim(i, j):
        rows = [x for x in b[i] if x in b[j]]
        return ref.rank(sub(F, rows, a[i]), p)

    def rker(i, j):
        N = ref.nullspace(sub(F, b[i], a[i]), p)
        rows = [k for k, x in enumerate(a[i]) if x in a[j]]
        return ref.rank(N[rows], p) if N.size and rows else 0
    return ref.bars_from_ranks(rads, rim), ref.bars_from_ranks(rads, rker), rads


def check_broken(case):
    p = case["p"]
    A0, B0 = arr(case["A"], (-1, 2)), arr(case["B"], (-1, 2))
    F0 = arr(case["F"], (len(B0), len(A0)), int)
    E0 = arr(case["E"], (len(B0), len(B0)), int)
    rads = sorted(set(np.concatenate([A0.ravel(), B0.ravel()]).tolist()))
    rows = [act(B0, r) for r in rads]

    def onward(v, t):
        die = [k for k in range(len(B0)) if B0[k][1] == rads[t]]
        w = v.copy()
        w[die] = 0
        return (w + E0[:, die] @ v[die]) % p
    # image of all generators of A born so far, at each radius
    at, cur = [], np.zeros((len(B0), 0), dtype=int)
    for t, r in enumerate(rads):
        cur = onward(cur, t)
        new = F0[:, [j for j in range(len(A0)) if A0[j][0] == r]] % p
        cur = np.concatenate([cur, new], axis=1)
        at.append(cur)

    def rim(i, j):
        v = at[i]
        for t in range(i + 1, j + 1):
            v = onward(v, t)
        return ref.rank(v[rows[j]], p) if v.size and rows[j] else 0
    want = ref.bars_from_ranks(rads, rim)
    A, B = barcode_basis(A0), barcode_basis(B0, broken_basis=True, broken_differentials=E0.astype(float))
    F = F0.astype(float)
    if case["sa"]:
        F = F[:, call(A.sort, send_order=True)]
    if case["sb"]:
        F = F[call(B.sort, send_order=True)]
    Im, Pre = call(image_kernel, A, B, F, p)
    req(ref.bars_of(Im) == want, "broken codomain: image bars {} expected {}", ref.bars_of(Im), want)
    return "ok" if np.any(E0) else "trivial"


def check_relative(case):
    p = case["p"]
    N0, M0, B0 = [arr(case[k], (-1, 2)) for k in "NMB"]
    FN0, FM0 = arr(case["FN"], (len(B0), len(N0)), int), arr(case["FM"], (len(B0), len(M0)), int)
    B = barcode_basis(B0)
    FN, FM, Bb = FN0, FM0, B0
    if case["sb"]:
        o = call(B.sort, send_order=True)
        FN, FM, Bb = FN[o], FM[o], np.copy(B.barcode)
    sub0 = call(image_kernel, barcode_basis(N0), B, FN.astype(float), p)[0]
    if sub0.dim == 0:
        return "trivial"
    Nb, Nc = np.asarray(sub0.barcode).reshape(-1, 2), ref.imat(sub0.coordinates, p)
    Mb, Mc = M0, ref.imat(FM, p)
    A_M = barcode_basis(M0)
    if case["sa"]:
        Mc = Mc[:, call(A_M.sort, send_order=True)]
        Mb = np.copy(A_M.barcode)
    n = len(Nb)
    A = barcode_basis(np.concatenate([Nb, Mb]))
    F = np.concatenate([Nc, Mc], axis=1)
    Im, Pre = call(image_kernel, A, B, F.astype(float), p, start_index=n, prev_basis=A_M)
    rads = sorted(set(np.concatenate([Nb.ravel(), Mb.ravel(), Bb.ravel()]).tolist()))
    rows = [act(Bb, r) for r in rads]
    imN = [sub(Nc, rows[i], act(Nb, r)) % p for i, r in enumerate(rads)]

    def rel(i, j):
        k = [x for x in range(len(Bb)) if x in rows[j]]
        v = Mc[:, act(Mb, rads[i])].copy()
        v[[x for x in range(len(Bb)) if x not in rows[i]]] = 0
        v = v[rows[j]] % p if rows[j] else np.zeros((0, v.shape[1]), dtype=int)
        a = ref.rank(imN[j], p) if imN[j].size else 0
        b = np.concatenate([imN[j], v], axis=1)
        return (ref.rank(b, p) if b.size else 0) - a
    want = ref.bars_from_ranks(rads, rel)
    req(ref.bars_of(Im) == want, "relative image bars {} expected {}", ref.bars_of(Im), want)
    ib = np.asarray(Im.barcode).reshape(-1, 2)
    Ic = ref.imat(Im.coordinates, p) if Im.dim else np.zeros((len(Bb), 0), dtype=int)
    P = ref.imat(Pre, p) if Im.dim else np.zeros((len(Mb), 0), dtype=int)
    req(Ic.shape == (len(Bb), len(ib)) and P.shape == (len(Mb), len(ib)), "relative image: shapes")
    for i, r in enumerate(rads):
        al = act(ib, r)
        both = np.concatenate([imN[i], sub(Ic, rows[i], al)], axis=1)
        tot = np.concatenate([imN[i], sub(Mc, rows[i], act(Mb, r))], axis=1)
        rn = ref.rank(imN[i], p) if imN[i].size else 0
        rt = ref.rank(tot, p) if tot.size else 0
        rb = ref.rank(both, p) if both.size else 0
        ra = np.concatenate([both, tot], axis=1)
        req(rb == rt == rn + len(al) and (ref.rank(ra, p) if ra.size else 0) == rt,
            "relative image generators at {} do not form a basis", r)
        dead = np.concatenate([imN[i], sub(Ic, rows[i], [j for j in range(len(ib)) if ib[j][1] <= r])], axis=1)
        req((ref.rank(dead, p) if dead.size else 0) == rn, "relative image generator alive after its bar ends, at {}", r)
    for j in range(len(ib)):
        k = act(Bb, ib[j, 0])
        d = np.concatenate([sub(Nc, k, act(Nb, ib[j, 0])), ((Mc[k] @ P[:, j] - Ic[k, j]) % p).reshape(len(k), 1)], axis=1)
        m = sub(Nc, k, act(Nb, ib[j, 0]))
        req((ref.rank(d, p) if d.size else 0) == (ref.rank(m, p) if m.size else 0), "relative preimage of bar {}", ib[j])
    return "ok" if np.any(Mc) else "trivial"


def check(case):
    if "E" in case:
        return check_broken(case)
    if "FN" in case:
        return check_relative(case)
    p = case["p"]
    A0, B0 = arr(case["A"], (-1, 2)), arr(case["B"], (-1, 2))
    F0 = arr(case["F"], (len(B0), len(A0)), int)
    A, B = barcode_basis(A0), barcode_basis(B0)
    F = F0.astype(float)
    if case["sa"]:
        o = call(A.sort, send_order=True)
        F = F[:, o]
    if case["sb"]:
        o = call(B.sort, send_order=True)
        F = F[o]
    Ab, Bb = np.copy(A.barcode), np.copy(B.barcode)
    Fi = ref.imat(F, p)
    Fc = F.copy()
    Im, Ker, Pre = call(image_kernel, A, B, F, p)
    if case.get("shape"):
        req(raises(ValueError, image_kernel, A, B, np.zeros((F.shape[0] + 1, F.shape[1])), p), "too many rows accepted")
        req(raises(ValueError, image_kernel, A, B, np.zeros((F.shape[0], F.shape[1] + 1)), p), "too many columns accepted")
    req(np.array_equal(F, Fc) and np.array_equal(A.barcode, Ab) and np.array_equal(B.barcode, Bb), "arguments modified")
    oi, ok, rads = oracle(Ab, Bb, Fi, p)
    req(ref.bars_of(Im) == oi, "image bars {} expected {}", ref.bars_of(Im), oi)
    req(ref.bars_of(Ker) == ok, "kernel bars {} expected {}", ref.bars_of(Ker), ok)
    ib = np.asarray(Im.barcode).reshape(-1, 2)
    kb = np.asarray(Ker.barcode).reshape(-1, 2)
    Ic = ref.imat(Im.coordinates, p) if Im.dim else np.zeros((len(Bb), 0), dtype=int)
    Kc = ref.imat(Ker.coordinates, p) if Ker.dim else np.zeros((len(Ab), 0), dtype=int)
    P = ref.imat(Pre, p) if Im.dim else np.zeros((len(Ab), 0), dtype=int)
    req(Ic.shape == (len(Bb), len(ib)) and P.shape == (len(Ab), len(ib)), "image coordinates shape")
    req(Kc.shape == (len(Ab), len(kb)), "kernel coordinates shape")
    for j in range(len(ib)):
        rows, cols = act(Bb, ib[j, 0]), act(Ab, ib[j, 0])
        # generators that are dead at the birth of the bar may appear: they are
        # zero there, and map to zero on the rows that are alive
        req(np.array_equal((Fi[rows] @ P[:, j]) % p, Ic[rows, j]), "F * PreIm != Im for bar {}", ib[j])
    for j in range(len(kb)):
        rows, cols = act(Bb, kb[j, 0]), act(Ab, kb[j, 0])
        req(not np.any((sub(Fi, rows, cols) @ Kc[cols, j]) % p), "kernel bar {} does not map to zero", kb[j])
    for r in rads:
        rows, cols = act(Bb, r), act(Ab, r)
        ai, ak = act(ib, r), act(kb, r)
        ri = ref.rank(sub(Fi, rows, cols), p)
        req(len(ai) == ri and ref.rank(np.concatenate([sub(Ic, rows, ai), sub(Fi, rows, cols)], axis=1), p) == ri
            and ref.rank(sub(Ic, rows, ai), p) == ri, "image generators at {} do not form a basis", r)
        rk = len(cols) - ri
        req(len(ak) == rk and ref.rank(sub(Kc, cols, ak), p) == rk, "kernel generators at {} do not form a basis", r)
        req(not np.any((sub(Fi, rows, cols) @ sub(Kc, cols, ak)) % p), "kernel generator not in the kernel at {}", r)
        # a generator is zero from the radius where its bar ends
        req(not np.any(sub(Ic, rows, [j for j in range(len(ib)) if ib[j][1] <= r])), "image generator alive after its bar ends, at {}", r)
        req(not np.any(sub(Kc, cols, [j for j in range(len(kb)) if kb[j][1] <= r])), "kernel generator alive after its bar ends, at {}", r)
    return "trivial" if not np.any(Fi) else "ok"
