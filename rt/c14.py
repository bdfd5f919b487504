"""C14 run-time contract: local chain containers."""
import numpy as np
from common import Fail, Skip, req, call, raises, arr, pick_prime
from permaviss.spectral_sequence.local_chains_class import local_chains

RULE = ("families with 1..5 indices, references from 0..6 (possibly empty, different "
        "between operands), coordinates of width 1..5, coefficient matrices, sequences of "
        "operations; non-trivial: some index has references in both operands")


def rnd(rng, N, widths, R, p, dens):
    ref, co = [], []
    for k in range(N):
        if rng.rand() < dens:
            r = np.sort(rng.permutation(R)[:rng.randint(1, R + 1)])
        else:
            r = np.array([], dtype=int)
        ref.append(r)
        co.append(rng.randint(0, p, size=(len(r), widths[k])))
    return ref, co


def corners():
    for bad in ("len", "rows", "nolist", "entry", "entrylist"):
        yield "bad", dict(bad=bad)
    e = dict(bad=None, N=1, w=[2], R=2, p=3, S=[[1, 2], [0, 1]], ns=2)
    yield "disjoint", dict(e, A=[[[0]], [[[1, 2]]]], B=[[[1]], [[[2, 2]]]])
    yield "same", dict(e, A=[[[0, 1]], [[[1, 2], [2, 1]]]], B=[[[0, 1]], [[[2, 2], [0, 1]]]])
    yield "left", dict(e, A=[[[0, 1]], [[[1, 2], [2, 1]]]], B=[[[]], [[]]])
    yield "right", dict(e, B=[[[0, 1]], [[[1, 2], [2, 1]]]], A=[[[]], [[]]])


def gen(rng, tier):
    N, R, p = rng.randint(1, 6), rng.randint(1, 7), pick_prime(rng, big=True)
    w = [int(x) for x in rng.randint(1, 6, size=N)]
    A, B = rnd(rng, N, w, R, p, .8), rnd(rng, N, w, R, p, .8)
    ns = int(rng.randint(1, 5))
    return "random", dict(bad=None, N=N, w=w, R=R, p=p, A=A, B=B, ns=ns, S=rng.randint(0, p, size=(ns, R)))


def mk(d, w, aslists):
    ref, co = [], []
    for k, r in enumerate(d[0]):
        if len(r) == 0:
            ref.append([])
            co.append([])
        else:
            ref.append(np.array(r, dtype=int))
            co.append(arr(d[1][k], (len(r), w[k])))
    return ref, co


def dense(X, N, R, w):
    out = []
    for k in range(N):
        M = np.zeros((R, w[k]))
        for i, r in enumerate(X.ref[k]):
            M[int(r)] += np.asarray(X.coord[k])[i]
        out.append(M)
    return out


def snapshot(X):
    return [np.copy(r) for r in X.ref], [np.copy(c) for c in X.coord]


def same(s, X):
    return (all(np.array_equal(a, b) for a, b in zip(s[0], X.ref))
            and all(np.array_equal(a, b) for a, b in zip(s[1], X.coord)))


def consistent(X):
    for r, c in zip(X.ref, X.coord):
        req(len(r) == np.size(c, 0), "references and coordinates of different length")


def check(case):
    if case["bad"]:
        b = case["bad"]
        if b == "len":
            f = lambda: local_chains([np.array([0])], [])
        elif b == "rows":
            f = lambda: local_chains([np.array([0, 1])], [np.ones((1, 2))])
        elif b == "nolist":
            f = lambda: local_chains("x")
        elif b == "entry":
            f = lambda: local_chains(2).add_entry(0, np.array([0, 1]), np.ones((1, 3)))
        else:
            f = lambda: local_chains(2).add_entry(0, np.array([0, 1]), [])
        req(raises(ValueError, f), "inconsistent data accepted: {}", b)
        return "ok"
    N, R, p, w = case["N"], case["R"], case["p"], case["w"]
    local_chains.p = p
    ra, ca = mk(case["A"], w, False)
    rb, cb = mk(case["B"], w, False)
    A, B = call(local_chains, ra, ca), call(local_chains, rb, cb)
    consistent(A)
    # construction copies
    for k in range(N):
        if len(ca[k]):
            ca[k][0, 0] += 1
            req(np.asarray(A.coord[k])[0, 0] == ca[k][0, 0] - 1, "constructor shares coordinates")
            ca[k][0, 0] -= 1
            ra[k][0] += 1
            req(A.ref[k][0] == ra[k][0] - 1, "constructor shares references")
            ra[k][0] -= 1
    E = call(local_chains, N)
    req(len(E.ref) == N and len(E.coord) == N and all(len(r) == 0 for r in E.ref), "empty family")
    for k in range(N):
        call(E.add_entry, k, ra[k], ca[k])
    req(same(snapshot(A), E), "add_entry")
    call(E.add_entry, 0, [], [])
    req(same(snapshot(A), E), "adding a trivial entry changed the family")
    dA, dB = dense(A, N, R, w), dense(B, N, R, w)
    sA, sB = snapshot(A), snapshot(B)
    C = call(lambda: A + B)
    consistent(C)
    req(same(sA, A) and same(sB, B), "addition modified an operand")
    req(len(C.ref) == N, "length of sum")
    dC = dense(C, N, R, w)
    for k in range(N):
        req(np.array_equal(np.mod(dC[k], p), np.mod(dA[k] + dB[k], p)), "sum at {}: {} expected {}", k, dC[k], dA[k] + dB[k])
        req(len(set(int(x) for x in C.ref[k])) == len(C.ref[k]), "duplicate references in sum")
    S = arr(case["S"], (case["ns"], R))
    Q = call(local_chains.sums, A, S)
    consistent(Q)
    req(same(sA, A), "sums modified its operand")
    dQ = dense(Q, N, max(R, case["ns"]), w)
    for k in range(N):
        want = S @ dA[k] if len(ra[k]) else np.zeros((case["ns"], w[k]))
        req(np.array_equal(np.mod(dQ[k][:case["ns"]], p), np.mod(want, p)), "sums at {}: {} expected {}", k, dQ[k], want)
    cp = call(local_chains.copy_seq, [A, B])
    req(len(cp) == 2 and same(sA, cp[0]) and same(sB, cp[1]), "copy differs")
    call(cp[0].minus)
    req(same(sA, A), "negating a copy changed the original")
    dM = dense(cp[0], N, R, w)
    for k in range(N):
        req(np.array_equal(dM[k], np.mod(-dA[k], p)), "minus at {}: {}", k, dM[k])
    for k in range(N):
        if len(ra[k]):
            cp[0].coord[k][0, 0] += 7
            cp[0].ref[k][0] = 99
    req(same(sA, A), "copy shares state")
    if any(len(a) and len(b) for a, b in zip(ra, rb)):
        return "ok"
    return "trivial"
