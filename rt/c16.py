"""C16 run-time contract: Mayer-Vietoris result = direct computation."""
import numpy as np
import mv
import ref
from common import req

RULE = ("clouds realising prescribed flag filtrations over a cover, uniform, circular and "
        "lattice clouds (up to ~260 simplices), dimension bound 1..3, 1..4 divisions, primes "
        "2..13, worker pools with shuffled execution order and isolated (pickled) tasks, "
        "real pools for some; non-trivial: some intersection of the cover has homology")
TIME_LIMIT = 120
SLOW_IS_SKIP = True
CORNERS_SHARDED = True
corners = mv.corners
gen = mv.gen


def close(a, b):
    return len(a) == len(b) and all(abs(x[0] - y[0]) < 1e-6 and abs(x[1] - y[1]) < 1e-6
                                    for x, y in zip(a, b))


def rnd(bars):
    return sorted((round(a, 7), round(b, 7)) for a, b in bars)


def check(case):
    X, D = mv.precondition(case)
    m = mv.run(case)
    md = case["max_dim"]
    want = ref.rips_barcodes(D, case["r"], md, case["p"]) if len(X) > 1 else \
        {d: ([(0.0, case["r"])] if d == 0 else []) for d in range(md + 1)}
    PH = m.persistent_homology
    req(len(PH) == md, "result has {} degrees, not {}", len(PH), md)
    for d in range(md):
        got = ref.bars_of(PH[d])
        req(close(rnd(got), rnd(want[d])), "degree {}: bars {} expected {}", d, rnd(got), rnd(want[d]))
    try:
        if m.page_dim_matrix[1][:, 1:].any():
            return "ok"
        return "trivial"
    except AttributeError:
        return "ok"
