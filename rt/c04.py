"""C04 run-time contract: gauss_col_rad and gauss_barcodes."""
import numpy as np
import ref
from common import Fail, Skip, req, call, raises, arr, pick_prime
from permaviss.gauss_mod_p.gauss_mod_p import gauss_col_rad, gauss_barcodes

RULE = ("generators with pairwise distinct pivots (rad) or arbitrary (barcodes), radii "
        "from a small set with ties, targets built as admissible combinations, as "
        "combinations that need a generator born later, or at random; primes up to "
        "13; non-trivial: some target is nonzero")


def corners():
    yield "rad", dict(f="rad", n=2, s=2, t=1, A=[[1, 0, 1], [0, 1, 1]], R=[0, 2, 1], p=2)
    yield "rad", dict(f="rad", n=2, s=2, t=1, A=[[1, 0, 1], [0, 1, 1]], R=[0, 1, 1], p=2)
    yield "rad", dict(f="rad", n=2, s=2, t=2, A=[[1, 0, 6, 4], [0, 2, -3, 0]], R=[0, 1, 1, 0], p=5)
    yield "bar", dict(f="bar", n=2, s=1, t=1, A=[[1, 2], [0, 1]], rb=[[0, 3], [0, 1]], cb=[[0, 3], [1, 3]], p=3)


def gen(rng, tier):
    p = pick_prime(rng, big=True)
    if rng.rand() < .5:
        n = rng.randint(1, 8)
        s = rng.randint(1, n + 1)
        t = rng.randint(0, 5)
        piv = rng.permutation(n)[:s]
        G = np.zeros((n, s), dtype=int)
        for k in range(s):
            G[:piv[k], k] = rng.randint(0, p, size=piv[k])
            G[piv[k], k] = rng.randint(1, p)
        lv = rng.randint(1, 5)
        Rg = rng.randint(0, lv, size=s)
        Rt = rng.randint(0, lv, size=t)
        Tt = np.zeros((n, t), dtype=int)
        for j in range(t):
            c = rng.randint(0, p, size=s)
            if rng.rand() < .8:
                c[Rg > Rt[j]] = 0
            Tt[:, j] = G @ c
            if rng.rand() < .08:
                Tt[:, j] = rng.randint(0, p, size=n)
        A = np.concatenate([G, Tt], axis=1)
        if rng.rand() < .5:
            A = A % p
        elif rng.rand() < .5:
            A = A + p * rng.randint(-2, 3, size=A.shape)
        R = np.concatenate([Rg, Rt]) * 0.5
        if rng.rand() < .3:
            G2 = A.astype(float)
            A = G2
        return "rad", dict(f="rad", n=n, s=s, t=t, A=A, R=R, p=p)
    n, s, t = rng.randint(1, 7), rng.randint(1, 6), rng.randint(0, 4)
    hi = rng.randint(2, 6)

    def bars(k):
        b = rng.randint(0, hi, size=k)
        d = np.array([rng.randint(x + 1, hi + 2) for x in b], dtype=int)
        o = np.lexsort((-d, b))
        return np.stack([b[o], d[o]], axis=1).reshape(k, 2)
    rb, gb, tb = bars(n), bars(s), bars(t)
    G = rng.randint(0, p, size=(n, s)) * (rng.rand(n, s) < .7)
    T = np.zeros((n, t), dtype=int)
    for j in range(t):
        c = rng.randint(0, p, size=s)
        al = (gb[:, 0] <= tb[j, 0]) & (tb[j, 0] < gb[:, 1])
        if rng.rand() < .9:
            c[~al] = 0
        T[:, j] = (G @ c) % p
        dead = ~((rb[:, 0] <= tb[j, 0]) & (tb[j, 0] < rb[:, 1]))
        T[dead, j] = rng.randint(0, p, size=int(dead.sum()))
    return "bar", dict(f="bar", n=n, s=s, t=t, A=np.concatenate([G, T], axis=1), rb=rb,
                       cb=np.concatenate([gb, tb], axis=0), p=p)


def check(case):
    n, s, t, p = case["n"], case["s"], case["t"], case["p"]
    A = arr(case["A"], (n, s + t))
    A0 = A.copy()
    Ai = ref.imat(A, p)
    if case["f"] == "rad":
        R = arr(case["R"], (s + t,))
        R0 = R.copy()
        ok = all(ref.in_span(Ai[:, [k for k in range(s) if R[k] <= R[j]]], Ai[:, j], p)
                 for j in range(s, s + t))
        if not ok:
            req(raises((RuntimeError, ValueError), gauss_col_rad, A, R, s, p),
                "column that is no admissible combination was accepted")
            return
        try:
            Red, T = call(gauss_col_rad, A, R, s, p)
        except (RuntimeError, ValueError) as e:
            raise Fail("admissible combination exists but %s was raised" % type(e).__name__)
        req(np.array_equal(A, A0) and np.array_equal(R, R0), "argument modified")
        req(np.shape(T) == (s + t, s + t), "T shape")
        req(np.shape(Red) == (n, s + t), "Red shape")
        Ti, Ri = ref.imat(T, p), ref.imat(Red, p)
        req(np.array_equal((Ai @ Ti) % p, Ri), "A T != Red")
        req(np.array_equal(Ri[:, :s], Ai[:, :s]) and np.array_equal(Ti[:, :s], np.eye(s + t)[:, :s]), "generators changed")
        req(not np.any(Ri[:, s:]), "columns not reduced to zero")
        req(np.array_equal(Ti[s:, s:], np.eye(t)), "targets combined with each other: {}", T)
        for j in range(s, s + t):
            for k in range(s):
                req(Ti[k, j] == 0 or R[k] <= R[j], "column {} uses generator {} born later", j, k)
        return "trivial" if not np.any(Ai[:, s:]) else "ok"
    rb, cb = arr(case["rb"], (n, 2)), arr(case["cb"], (s + t, 2))
    k0 = (rb.copy(), cb.copy())
    act = lambda b, r: np.nonzero((b[:, 0] <= r) & (r < b[:, 1]))[0]
    ok = True
    for j in range(s, s + t):
        rows, cols = act(rb, cb[j, 0]), act(cb[:s], cb[j, 0])
        if len(rows) and not ref.in_span(Ai[np.ix_(rows, cols)], Ai[rows, j], p):
            ok = False
    if not ok:
        req(raises((RuntimeError, ValueError), gauss_barcodes, A, rb, cb, s, p), "inadmissible column accepted")
        return
    try:
        C = call(gauss_barcodes, A, rb, cb, s, p)
    except (RuntimeError, ValueError) as e:
        raise Fail("admissible combination exists but %s was raised" % type(e).__name__)
    req(np.array_equal(A, A0) and np.array_equal(rb, k0[0]) and np.array_equal(cb, k0[1]), "argument modified")
    req(np.shape(C) == (s, t), "shape {}", np.shape(C))
    Ci = ref.imat(C, p)
    for j in range(s, s + t):
        rows, cols = act(rb, cb[j, 0]), act(cb[:s], cb[j, 0])
        off = [k for k in range(s) if k not in cols]
        req(not np.any(Ci[off, j - s]), "coefficient on a generator that is not alive")
        got = (Ai[np.ix_(rows, np.arange(s))] @ Ci[:, j - s]) % p
        req(np.array_equal(got, Ai[rows, j]), "column {} not reproduced", j)
    return "trivial" if not np.any(Ai[:, s:]) else "ok"
