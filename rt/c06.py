"""C06 run-time contract: flag complex."""
import itertools
import numpy as np
import ref
from common import Fail, Skip, req, call, raises, arr
from permaviss.simplicial_complexes.flag_complex import flag_complex

RULE = ("graphs on 1..9 vertices with edges in random order, as list or array, int or "
        "float, dimension bounds -2..6; all graphs on 4 vertices; non-trivial: has an edge")


def corners():
    pairs = list(itertools.combinations(range(4), 2))
    for bits in itertools.product([0, 1], repeat=6):
        G = [list(e) for b, e in zip(bits, pairs) if b]
        yield "graph4", dict(G=G, n=4, md=3, how="list")
    for n in (5, 6, 7):
        yield "complete", dict(G=[list(e) for e in itertools.combinations(range(n), 2)], n=n, md=n, how="array")
    for md in (-2, -1, 0, 1):
        yield "bound", dict(G=[[0, 1]], n=2, md=md, how="list")
        yield "bound", dict(G=[], n=3, md=md, how="list")


def gen(rng, tier):
    n = rng.randint(1, 10)
    es = [list(e) for e in itertools.combinations(range(n), 2)]
    pr = rng.choice([.3, .5, .8, 1.])
    es = [e for e in es if rng.rand() < pr]
    es = [es[i] for i in rng.permutation(len(es))]
    return "random", dict(G=es, n=n, md=int(rng.randint(0, 7)), how=["list", "array", "float"][rng.randint(3)])


def check(case):
    n, md = case["n"], case["md"]
    G = [list(e) for e in case["G"]]
    if case["how"] != "list" and len(G):
        G = np.array(G, dtype=float if case["how"] == "float" else int)
    G0 = np.copy(G)
    if md < 0:
        req(raises(ValueError, flag_complex, G, n, md), "negative dimension accepted")
        return "trivial"
    F = call(flag_complex, G, n, md)
    req(np.array_equal(np.array(G), G0), "graph modified")
    req(len(F) == md + 1, "length {}", len(F))
    req(F[0] == n, "F[0] = {}", F[0])
    K = ref.clique_complex(set(frozenset(e) for e in case["G"]), n, md)
    for d in range(1, md + 1):
        rows = [tuple(int(x) for x in s) for s in F[d]]
        req(all(len(s) == d + 1 and list(s) == sorted(set(s)) for s in rows), "dimension {}: rows {}", d, rows[:3])
        req(len(set(rows)) == len(rows), "duplicates in dimension {}", d)
        req(set(rows) == set(K[d]), "dimension {}: missing {} extra {}", d,
            sorted(set(K[d]) - set(rows))[:3], sorted(set(rows) - set(K[d]))[:3])
    return "trivial" if not case["G"] else "ok"
