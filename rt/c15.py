"""C15 run-time contract: Cech double complex and total-complex representatives."""
import itertools
import numpy as np
import mv
import ref
from common import req, call, Fail

RULE = ("clouds as in C16; every block of the Cech differential entrywise, its square, its "
        "anticommutation with the local boundaries, and the total boundary of every stored "
        "representative; non-trivial: some representative extends to a second column")
TIME_LIMIT = 120
SLOW_IS_SKIP = True
CORNERS_SHARDED = True
corners = mv.corners
gen = mv.gen


def nspx(nerve, n):
    return int(nerve[0]) if n == 0 else (len(nerve[n]) if n < len(nerve) else 0)


def simplices(m, n, k, deg):
    """Local simplices in (n, deg) at nerve simplex k, as global vertex sets."""
    IN = [int(x) for x in m.points_IN[n][k]]
    C = m.subcomplexes[n][k]
    if deg == 0:
        return [frozenset((IN[i],)) for i in range(int(C[0]))]
    if deg >= len(C):
        return []
    return [frozenset(IN[int(v)] for v in s) for s in C[deg]]


def faces(m, n, k):
    """(face index, sign) of the nerve simplex k in dimension n, with the sign
    of the usual simplicial boundary on increasing vertices."""
    s = [int(v) for v in m.nerve[n][k]]
    low = {}
    if n == 1:
        low = {(v,): v for v in range(int(m.nerve[0]))}
    else:
        low = {tuple(sorted(int(v) for v in t)): i for i, t in enumerate(m.nerve[n - 1])}
    order = sorted(range(len(s)), key=lambda i: s[i])
    out = []
    st = sorted(s)
    for i in range(len(st)):
        t = tuple(st[:i] + st[i + 1:])
        out.append((low[t], 1 if i % 2 == 0 else -1))
    return out


def check(case):
    X, D = mv.precondition(case)
    p, md = case["p"], case["max_dim"]
    m = mv.run(case)
    nerve = m.nerve
    ncol = len([n for n in range(len(nerve)) if nspx(nerve, n) > 0])
    S = {}
    for n in range(ncol):
        for k in range(nspx(nerve, n)):
            for d in range(md + 1):
                S[n, k, d] = simplices(m, n, k, d)
                req(len(set(S[n, k, d])) == len(S[n, k, d]), "repeated simplex")
    blocks = {}
    for n in range(1, ncol):
        N = np.asarray(m.nerve_differentials[n])
        for k in range(nspx(nerve, n)):
            fs = faces(m, n, k)
            col = N[:, k] % p
            nz = {i: int(col[i]) for i in np.nonzero(col)[0]}
            req(set(nz) == set(f for f, _ in fs), "nerve differential of column {}, {}", n, k)
            # up to one global sign per simplex
            for d in range(md):
                for f, _ in fs:
                    B = call(m.local_cech_matrix, n, d, k, f, int(N[f, k]))
                    B = ref.imat(B, p)
                    dom, cod = S[n, k, d], S[n - 1, f, d]
                    req(B.shape == (len(cod), len(dom)), "shape of a Cech block")
                    E = np.zeros(B.shape, dtype=np.int64)
                    ix = {s: i for i, s in enumerate(cod)}
                    for j, s in enumerate(dom):
                        req(s in ix, "a simplex of an intersection is missing from a larger set")
                        E[ix[s], j] = (int(N[f, k]) * (-1) ** d) % p
                    req(np.array_equal(B, E), "Cech block ({},{}) {} -> {}: {} expected {}", n, d, k, f, B, E)
                    blocks[n, d, k, f] = B
                    # anticommutation with the vertical differential
                    if d > 0 and len(dom):
                        V1 = ref.imat(m.zero_diff[n][k][d], p)
                        V0 = ref.imat(m.zero_diff[n - 1][f][d], p)
                        Bl = blocks[n, d - 1, k, f]
                        if V1.size and V0.size:
                            req(not ((Bl @ V1 + V0 @ B) % p).any(), "Cech and local boundary do not anticommute at ({},{})", n, d)
    for n in range(2, ncol):
        for d in range(md):
            for k in range(nspx(nerve, n)):
                tot = {}
                for f, _ in faces(m, n, k):
                    for g, _ in faces(m, n - 1, f):
                        M = blocks[n - 1, d, f, g] @ blocks[n, d, k, f]
                        tot[g] = tot.get(g, 0) + M
                for g, M in tot.items():
                    req(not (np.asarray(M) % p).any(), "the Cech differential does not square to zero at ({},{})", n, d)
    # representatives
    ext = False

    def rad(s):
        s = sorted(s)
        return max([D[a][b] for a, b in itertools.combinations(s, 2)] or [0.0])

    def vec(ch, n, d, c):
        """class c of a chain as {nerve simplex: coefficient vector}"""
        out = {}
        for k in range(nspx(nerve, n)):
            r = [int(x) for x in ch.ref[k]]
            if c in r:
                out[k] = ref.imat(np.asarray(ch.coord[k])[r.index(c)], p)
                req(len(out[k]) == len(S[n, k, d]), "length of a chain")
        return out
    for page in range(1, m.no_pages):
        for n in range(ncol):
            for d in range(md):
                h = m.Hom[page][n][d]
                if h.dim == 0:
                    continue
                reps = m.Hom_reps[page][n][d]
                req(len(reps) == min(page, n) + 1, "a class of page {} at ({},{}) has {} components", page + 1, n, d, len(reps))
                for c in range(h.dim):
                    birth = h.barcode[c, 0]
                    cur = [vec(ch, n - i, d + i, c) for i, ch in enumerate(reps)]
                    for i, comp in enumerate(cur):
                        for k, v in comp.items():
                            for s, x in zip(S[n - i, k, d + i], v):
                                req(x == 0 or rad(s) <= birth + 1e-7, "a representative at ({},{}) uses a simplex born at {} after {}", n - i, d + i, rad(s), birth)
                    # total boundary
                    for i in range(len(cur)):
                        for k in range(nspx(nerve, n - i)):
                            dd = d + i
                            acc = np.zeros(len(S[n - i, k, dd - 1]) if dd > 0 else 0, dtype=np.int64)
                            if dd > 0 and k in cur[i]:
                                V = ref.imat(m.zero_diff[n - i][k][dd], p)
                                if V.size:
                                    acc = acc + V @ cur[i][k]
                            if i > 0 and len(acc):
                                for k2, v in cur[i - 1].items():
                                    if (n - i + 1, dd - 1, k2, k) in blocks:
                                        acc = acc + blocks[n - i + 1, dd - 1, k2, k] @ v
                            req(not (acc % p).any(), "page {} class {} at ({},{}): total boundary does not vanish in column {}", page + 1, c, n, d, n - i)
                    if len(cur) > 1 and any(v.any() for v in cur[1].values()):
                        ext = True
    return "ok" if ext else "trivial"
