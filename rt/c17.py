"""C17 run-time contract: convergence of the pages."""
import numpy as np
import mv
import ref
from common import req

RULE = mv.__doc__.split(":")[0] + (": clouds as in C16; at every radius between events, alive "
        "bars per antidiagonal of the last page against Betti numbers, recorded dimensions, "
        "pages decreasing; non-trivial: some intersection of the cover has homology")
TIME_LIMIT = 120
SLOW_IS_SKIP = True
CORNERS_SHARDED = True
corners = mv.corners
gen = mv.gen


def bars(h):
    return ref.bars_of(h) if hasattr(h, "dim") else []


def alive(bs, r):
    return sum(1 for a, b in bs if a <= r < b)


def check(case):
    X, D = mv.precondition(case)
    m = mv.run(case)
    md, mr = case["max_dim"], case["r"]
    want = ref.rips_barcodes(D, mr, md, case["p"]) if len(X) > 1 else \
        {d: ([(0.0, mr)] if d == 0 else []) for d in range(md + 1)}
    ev = np.unique(np.concatenate([[0.0, mr], D.ravel()]))
    ev = ev[ev <= mr]
    radii = (ev[:-1] + ev[1:]) / 2
    H = m.Hom
    np_ = m.no_pages
    ncol = m.no_columns
    # columns beyond the nerve are empty
    cols = [n for n in range(ncol) if len(H[0][n]) > 0]
    if np_ > 1:
        last = H[np_ - 1]
        for n in range(md):
            for r in radii:
                got = sum(alive(bars(last[c][n - c]), r) for c in cols if 0 <= n - c < md)
                exp = alive(want[n], r)
                req(got == exp, "radius {}, total degree {}: {} bars alive on the last page, Betti {}", r, n, got, exp)
        for k in range(1, np_):
            for c in range(ncol - 1):
                for d in range(md):
                    h = H[k][c][d]
                    req(m.page_dim_matrix[k + 1, d, c] == h.dim, "page {} records {} bars at {},{}: {} stored", k + 1, m.page_dim_matrix[k + 1, d, c], c, d, h.dim)
                    bs = bars(h)
                    req(len(bs) == h.dim, "dimension of basis")
                    prev = bars(H[k - 1][c][d]) if k > 1 else [
                        b for it in H[0][c] for b in bars(it[d])]
                    for r in radii:
                        req(alive(bs, r) <= alive(prev, r), "page {} grows at position {},{} radius {}", k + 1, c, d, r)
    for c in cols:
        for d in range(md):
            tot = sum(it[d].dim for it in H[0][c])
            req(m.page_dim_matrix[1, d, c] == tot, "page 1 records {} bars at {},{}: {} stored", m.page_dim_matrix[1, d, c], c, d, tot)
            fb = m.first_page_barcodes[c][d]
            cat = [tuple(b) for it in H[0][c] for b in (it[d].barcode if it[d].dim else [])]
            req([tuple(b) for b in fb] == cat, "first page barcodes at {},{}", c, d)
    if m.page_dim_matrix[1][:, 1:].any():
        return "ok"
    return "trivial"
