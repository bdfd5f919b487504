"""Point clouds that realise prescribed flag filtrations over a cubical cover.

`realise` builds points whose first `k` coordinates place them in chosen zones
of a 2^k (or larger) cube cover and whose remaining coordinates make the
pairwise distances equal to prescribed values, so that essentially arbitrary
flag filtrations (with homology in any degree, on any intersection of the
cover) occur as Vietoris-Rips filtrations of actual point clouds."""
import itertools
import numpy as np


def realise(rng, n, k, edge_prob, eps=0.12, levels=None, zone_w=(1, 1, 1)):
    """Return (points, max_r, overlap) or None when not Euclidean."""
    zones = rng.choice([-1, 0, 1], size=(n, k),
                       p=np.array(zone_w) / sum(zone_w))
    X0 = zones * 0.53 + rng.uniform(-0.005, 0.005, size=(n, k))
    vals = None
    if levels:
        vals = np.sort(1 - eps * rng.uniform(0.02, 1, size=levels))
    D2 = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            far = np.any(np.abs(zones[i] - zones[j]) == 2)
            if not far and rng.uniform() < edge_prob:
                d = (rng.choice(vals) if vals is not None
                     else 1 - eps * rng.uniform(0.001, 1))
            else:
                d = 1 + eps * rng.uniform(0.15, 1)
                if far:
                    d = max(d, np.sqrt(np.sum((X0[i] - X0[j]) ** 2)) + 0.05)
            D2[i, j] = D2[j, i] = d * d - np.sum((X0[i] - X0[j]) ** 2)
    J = np.eye(n) - 1.0 / n
    B = -0.5 * J @ D2 @ J
    w, V = np.linalg.eigh(B)
    if w.min() < -1e-9:
        return None
    w = np.clip(w, 0, None)
    Y = V * np.sqrt(w)
    pts = np.concatenate([X0, Y], axis=1)
    # far, isolated points fix the box so that only the first k coordinates
    # are divided
    L = 5.0
    corners = [np.array(list(c) + [0.0] * n)
               for c in itertools.product([-L, L], repeat=k)]
    if k > 1:
        corners = [corners[0], corners[-1]]
    pts = np.concatenate([pts, np.array(corners)], axis=0)
    return pts, 1.0, 1.0001


def separated(values, tol=1e-6):
    """No two distinct values closer than tol."""
    v = np.unique(np.asarray(values, dtype=float))
    return len(v) < 2 or np.min(np.diff(v)) > tol
