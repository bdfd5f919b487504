"""Reference mathematics, written independently of the code under check.

Everything here works on plain Python integers / numpy int64 and is used only
as the oracle of run-time contract checks and of counterexample replay.
"""
import itertools
import numpy as np


# ------------------------------------------------------------------ F_p algebra
def imat(M, p):
    """Exact integer matrix mod p, from a possibly float array."""
    M = np.asarray(M)
    if M.dtype == object:
        M = np.array([[int(x) for x in row] for row in M.tolist()])
    if M.size and not np.all(np.equal(np.mod(M, 1), 0)):
        raise ValueError("non integral entries")
    return np.mod(np.rint(M).astype(np.int64), p)


def egcd_inv(a, p):
    return pow(int(a) % p, -1, p)


def rref(M, p):
    """Row reduced echelon form; returns (matrix, pivot columns)."""
    M = imat(M, p).copy()
    if M.ndim != 2:
        M = M.reshape((0, 0)) if M.size == 0 else np.atleast_2d(M)
    rows, cols = M.shape
    piv = []
    r = 0
    for c in range(cols):
        if r == rows:
            break
        nz = np.nonzero(M[r:, c])[0]
        if len(nz) == 0:
            continue
        k = r + nz[0]
        if k != r:
            M[[r, k]] = M[[k, r]]
        M[r] = (M[r] * egcd_inv(M[r, c], p)) % p
        for i in np.nonzero(M[:, c])[0]:
            if i != r:
                M[i] = (M[i] - M[i, c] * M[r]) % p
        piv.append(c)
        r += 1
    return M, piv


def rank(M, p):
    M = np.asarray(M)
    if M.size == 0:
        return 0
    return len(rref(M, p)[1])


def nullspace(M, p):
    """Columns spanning the kernel of M (shape (cols, k))."""
    M = imat(M, p)
    rows, cols = M.shape
    if rows == 0:
        return np.identity(cols, dtype=np.int64)
    E, piv = rref(M, p)
    free = [c for c in range(cols) if c not in piv]
    N = np.zeros((cols, len(free)), dtype=np.int64)
    for k, f in enumerate(free):
        N[f, k] = 1
        for r, c in enumerate(piv):
            N[c, k] = (-E[r, f]) % p
    return N


def in_span(B, v, p):
    """Is the vector v in the column span of B (mod p)?"""
    v = imat(v, p).reshape(-1, 1)
    if not v.any():
        return True
    B = imat(B, p)
    if B.size == 0:
        return False
    return rank(B, p) == rank(np.append(B, v, axis=1), p)


# ------------------------------------------------------------------ complexes
def clique_complex(adj, n, max_dim, weight=None):
    """All cliques of the graph with 2..max_dim+1 vertices, as sorted tuples.

    adj: set of frozenset pairs. Returns dict dim -> set of tuples."""
    out = {0: set((v,) for v in range(n))}
    for d in range(1, max_dim + 1):
        cur = set()
        for s in out[d - 1]:
            for v in range(s[-1] + 1, n):
                if all(frozenset((u, v)) in adj for u in s):
                    cur.add(s + (v,))
        out[d] = cur
    return out


def rips_complex(Dist, max_r, max_dim):
    """dict dim -> dict simplex -> diameter, by brute force."""
    n = len(Dist)
    adj = set(frozenset((i, j)) for i in range(n) for j in range(i)
              if Dist[i][j] < max_r)
    cc = clique_complex(adj, n, max_dim)
    out = {}
    for d, ss in cc.items():
        out[d] = {s: (max(Dist[a][b] for a, b in itertools.combinations(s, 2))
                      if d > 0 else 0.0) for s in ss}
    return out


def rips_barcodes(Dist, max_r, max_dim, p):
    """Barcodes (degree 0..max_dim), as sorted lists of (birth, death)."""
    return filtered_barcodes(rips_complex(Dist, max_r, max_dim), max_r, p)


def filtered_barcodes(K, max_r, p):
    """K: dict dim -> dict simplex -> radius (closed under faces, monotone).

    Plain standard-algorithm reduction on the total boundary matrix with
    dictionaries; no clearing. Essential classes die at max_r."""
    simplices = []
    for d in K:
        for s, r in K[d].items():
            simplices.append((r, d, s))
    simplices.sort()
    index = {s: i for i, (_, _, s) in enumerate(simplices)}
    low_to_col = {}
    cols = {}
    bars = {d: [] for d in range(max(K) + 1)}
    positive = {}
    for i, (r, d, s) in enumerate(simplices):
        col = {}
        if d > 0:
            for k in range(d + 1):
                f = s[:k] + s[k + 1:]
                col[index[f]] = (1 if k % 2 == 0 else p - 1) % p
        while col:
            low = max(col)
            if low not in low_to_col:
                break
            other = cols[low_to_col[low]]
            q = (col[low] * egcd_inv(other[low], p)) % p
            for t, c in other.items():
                v = (col.get(t, 0) - q * c) % p
                if v:
                    col[t] = v
                else:
                    col.pop(t, None)
        if col:
            low = max(col)
            low_to_col[low] = i
            cols[i] = col
            rb, db, _ = simplices[low]
            positive.pop(low, None)
            if rb < r:
                bars[db].append((rb, r))
        else:
            positive[i] = (r, d)
    for i, (r, d) in positive.items():
        if r < max_r:
            bars[d].append((r, max_r))
    return {d: sorted(b) for d, b in bars.items()}


def bars_of(basis):
    """Sorted list of (birth, death) from a barcode_basis."""
    if basis.dim == 0 or len(basis.barcode) == 0:
        return []
    return sorted((float(a), float(b)) for a, b in basis.barcode)


# ---------------------------------------------------- persistence modules (bars)
class PMod:
    """Interval module given by bars; active(r) = alive generators at r."""

    def __init__(self, bars):
        self.bars = [(float(a), float(b)) for a, b in bars]

    def active(self, r):
        return [i for i, (a, b) in enumerate(self.bars) if a <= r < b]


def bars_from_ranks(radii, rk):
    """Barcode of a persistence module from its rank function on the sorted
    critical radii: rk(i, j) = rank of the map from radius i to radius j.
    A bar [radii[i], radii[j]) is counted by inclusion-exclusion."""
    n = len(radii)
    bars = []

    def R(i, j):
        if i < 0 or j >= n:
            return 0
        return rk(i, j)
    for i in range(n):
        for j in range(i + 1, n + 1):
            m = (R(i, j - 1) - R(i - 1, j - 1)
                 - (R(i, j) if j < n else 0) + (R(i - 1, j) if j < n else 0))
            if m < 0:
                raise ValueError("negative multiplicity")
            d = radii[j] if j < n else radii[-1]
            for _ in range(m):
                bars.append((radii[i], d))
    return sorted(bars)
