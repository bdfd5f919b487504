"""Contracts of permaviss.covers.cubical_cover."""
import z3
from pvc import logic as L
from pvc.vals import *
from pvc.vals import fresh, fresh_name
from pvc.engine import contract, Loop, Lem, pow2
from .gauss import V, all_, nat
from .complexes import arg, View, IA, AII, length, INDEX, EDGE, graph_axioms, fl_levels, new_flag

CO = "permaviss.covers.cubical_cover:"
RA = z3.ArraySort(I, RE)


# ------------------------------------------------ corners_hypercube
# extreme(X, n, d, s): row of the minimum (s = 0) or maximum (s = 1) of column d
def ch_post(c):
    res, X = c.result, arg(c, "point_cloud")
    if not isinstance(res, VTuple) or len(res.items) != 2:
        return [("two corners", z3.BoolVal(False))]
    out = []
    i, d = V("i", "d")
    n, m = X.shape
    for nm, v, sg in (("lower", res.items[0], 1), ("upper", res.items[1], -1)):
        v = c.run.snap(v)
        if not isinstance(v, Arr) or v.nd != 1:
            return [("corner is a point", z3.BoolVal(False))]
        out.append((nm + " corner has a coordinate per dimension", v.shape[0] == m))
        out.append((nm + " corner bounds the points", all_([i, d], z3.Implies(
            z3.And(L.inrange(i, n), L.inrange(d, m)), v.elt(d) <= X.elt(i, d) if sg == 1 else v.elt(d) >= X.elt(i, d)), [X.elt(i, d)])))
        w = z3.Function(fresh_name("at"), I, I)
        out.append((nm + " corner is attained", all_([d], z3.Implies(L.inrange(d, m), z3.Exists(
            [i], z3.And(L.inrange(i, n), X.elt(i, d) == v.elt(d)))), None)))
    return out


def cloud(c, nm="point_cloud"):
    n, m = nat(c, "no_points"), nat(c, "dimension")
    return c.run.new(arr_const(nm, [n, m], RE))


def two_corners(c):
    m = arg(c, "point_cloud").shape[1]
    return VTuple([c.run.new(arr_const("min_corner", [m], RE)), c.run.new(arr_const("max_corner", [m], RE))])


contract(CO + "corners_hypercube", params=lambda c: dict(point_cloud=cloud(c)),
         requires=lambda c: [("a point", c["point_cloud"].shape[0] >= 1)], result=two_corners, ensures=ch_post)


# ------------------------------------------------ intersection_covers
# inall(S, N, z, w, x): x is a member of the sets S[z[t]] (of N[.] entries), t < w
INALL = z3.Function("in_all", AII, IA, IA, I, I, B)
INALLW = z3.Function("not_in", AII, IA, IA, I, I, I)
# isin(z, n, x): x is one of the first n entries of z
ISIN = z3.Function("is_in", IA, I, I, B)
ISINW = z3.Function("is_in_at", IA, I, I, I)


def member_axioms(run):
    S, N, z, w, x, t = z3.Const("S", AII), z3.Const("N", IA), z3.Const("zs", IA), z3.Int("w"), z3.Int("x"), z3.Int("t")
    m, at = INALL(S, N, z, w, x), INALLW(S, N, z, w, x)
    ix = lambda t: z[t]
    isin = lambda t: ISIN(S[ix(t)], N[ix(t)], x)
    run.pc.append(all_([S, N, z, w, x], z3.Implies(z3.Not(m), z3.And(0 <= at, at < w, z3.Not(isin(at)))), [m]))
    run.pc.append(all_([S, N, z, w, x, t], z3.Implies(z3.And(m, 0 <= t, t < w), isin(t)), [[m, z[t]]]))
    v, n, k = z3.Const("v", IA), z3.Int("n"), z3.Int("k")
    b, wt = ISIN(v, n, x), ISINW(v, n, x)
    run.pc.append(all_([v, n, x], z3.Implies(b, z3.And(0 <= wt, wt < n, v[wt] == x)), [b]))
    run.pc.append(all_([v, n, x, k], z3.Implies(z3.And(0 <= k, k < n, v[k] == x), b), [[b, v[k]]]))


def filter_hook(kind, a, b, u):
    if kind != "filter" or a.z is None or a.sort != I:
        return []
    x = V("x")
    cond, sel, pos = u.filter
    ia = ISINW(a.z, a.shape[0], x)
    iu = ISIN(u.z, u.shape[0], x)
    return [("members of the filtered list", all_([x], z3.Implies(
        z3.And(ISIN(a.z, a.shape[0], x), cond(ia)), z3.And(L.inrange(pos(ia), u.shape[0]), u.elt(pos(ia)) == x, iu)), [iu]))]


def sets(c, n, nm="points_IN"):
    """a list of n sets of point numbers: increasing 1-D arrays"""
    run = c.run
    z, ln = fresh(nm, AII), fresh("len_" + nm, IA)
    k = V("k")
    run.pc.append(all_([k], ln[k] >= 0, [ln[k]]))
    s = SeqOf(n, lambda k: arr_of(z[k], [ln[k]], I))
    s.shared, s.sets = True, (z, ln)
    return s


def ic_params(c):
    member_axioms(c.run)
    n, w = nat(c, "cubes"), nat(c, "vertices")
    s = sets(c, n)
    c.run.cache["setop hook"] = filter_hook
    return dict(points_IN=c.run.new(s), simplex=c.run.new(arr_const("simplex", [w], I)))


def increasing(v):
    a, b = V("a", "b")
    return all_([a, b], z3.Implies(z3.And(0 <= a, a < b, b < v.shape[0]), v.elt(a) < v.elt(b)), [[v.elt(a), v.elt(b)]])


def ic_req(c):
    S, s = c["points_IN"], c["simplex"]
    t, k, a, b = V("t", "k", "a", "b")
    z, ln = S.sets
    return [("vertices", s.shape[0] >= 1),
            ("cubes of the cover", all_([t], z3.Implies(L.inrange(t, s.shape[0]), L.inrange(s.elt(t), S.n)), [s.elt(t)])),
            ("increasing numbers", all_([k, a, b], z3.Implies(z3.And(L.inrange(k, S.n), 0 <= a, a < b, b < ln[k]), z[k][a] < z[k][b]),
                                        [[z[k][a], z[k][b]]]))]


def ivec1(c, v):
    if isinstance(v, PyList):
        v = Arr([z3.IntVal(0)], lambda i: z3.IntVal(0), I) if not v.items else c.run.models.as_array(c.run, v)
    return v


def ic_set(c, v, w):
    S, s = arg(c, "points_IN"), arg(c, "simplex")
    v = ivec1(c, v)
    if not isinstance(v, Arr) or v.nd != 1 or v.sort != I:
        return [("a list of numbers", z3.BoolVal(False))]
    v = c.run.mat(v)
    z, ln = S.sets
    k, x = V("k", "x")
    m = INALL(z, ln, s.z, w, x)
    return [("increasing", increasing(v)),
            ("only common points", all_([k], z3.Implies(L.inrange(k, v.shape[0]), INALL(z, ln, s.z, w, v.elt(k))), [v.elt(k)])),
            ("all common points", all_([x], z3.Implies(m, ISIN(v.z, v.shape[0], x)), [m]))]


def ic_hints(c):
    S, s, x = arg(c, "points_IN"), arg(c, "simplex"), V("x")
    z, ln = S.sets
    t = s.z[c.it]
    m = lambda w: INALL(z, ln, s.z, w, x)
    return [("in all is in fewer", all_([x], z3.Implies(m(c.it + 1), z3.And(m(c.it), ISIN(z[t], ln[t], x))), [m(c.it + 1)]))]


contract(CO + "intersection_covers", params=ic_params, requires=ic_req,
         result=lambda c: arr_const("common", [nat(c, "len_common")], I, islist=True),
         ensures=lambda c: ic_set(c, c.result, arg(c, "simplex").shape[0]),
         loops={0: Loop(inv=lambda c: ic_set(c, c["points_IN_intersection"], c.it + 1), hints=ic_hints,
                        havoc={"points_IN_intersection": lambda c: c.run.new(arr_const("common", [nat(c, "len_common")], I, islist=True))})})


# ------------------------------------------------ next_hypercube
# succ(p, q, n): the lexicographic successor of the position p in the grid with sides q
# (n coordinates), p itself if there is none; succ_at: the coordinate that is increased, -1 if none
SUCC = z3.Function("succ", IA, IA, I, IA)
SJ = z3.Function("succ_at", IA, IA, I, I)


def succ_axioms(run):
    p, q, n, d = z3.Const("p", IA), z3.Const("q", IA), z3.Int("n"), z3.Int("d")
    s, j = SUCC(p, q, n), SJ(p, q, n)
    run.pc.append(all_([p, q, n], z3.And(-1 <= j, z3.Implies(j >= 0, z3.And(j < n, p[j] < q[j] - 1))), [s, j]))
    run.pc.append(all_([p, q, n, d], z3.Implies(z3.And(j < d, d < n, 0 <= d), p[d] >= q[d] - 1), [[j, p[d]]]))
    run.pc.append(all_([p, q, n, d], s[d] == z3.If(z3.Or(j < 0, d < j), p[d], z3.If(d == j, p[d] + 1, 0)), [s[d]]))


def nh_params(c):
    succ_axioms(c.run)
    n = nat(c, "coordinates")
    return dict(pos=c.run.new(arr_const("pos", [n], I, islist=True)), div=c.run.new(arr_const("div", [n], I, islist=True)))


def nh_post(c):
    p0, q, p = arg(c, "pos"), arg(c, "div"), c["pos"]
    d = V("d")
    n = p0.shape[0]
    if not isinstance(p, Arr) or p.nd != 1:
        return [("position", z3.BoolVal(False))]
    return [("as many coordinates", p.shape[0] == n),
            ("lexicographic successor", all_([d], z3.Implies(L.inrange(d, n), p.elt(d) == SUCC(p0.z, q.z, n)[d]), None))]


def nh0(c):
    p0, q, p = arg(c, "pos"), arg(c, "div"), c["pos"]
    n, d = p0.shape[0], V("d")
    return [("not changed yet", z3.And(p.shape[0] == n, all_([d], z3.Implies(L.inrange(d, n), p.elt(d) == p0.elt(d)), [p.elt(d)]))),
            ("last coordinates are maximal", all_([d], z3.Implies(z3.And(n - c.it <= d, d < n), p0.elt(d) >= q.elt(d) - 1), [p0.elt(d)]))]


def nh1(c):
    p0, q, p, i = arg(c, "pos"), arg(c, "div"), c["pos"], c["i"]
    n, d = p0.shape[0], V("d")
    j = n - i - 1
    return [("successor so far", z3.And(p.shape[0] == n, all_([d], z3.Implies(L.inrange(d, n), p.elt(d) == z3.If(
        d < j, p0.elt(d), z3.If(d == j, p0.elt(d) + 1, z3.If(d >= n - c.it, 0, p0.elt(d))))), [p.elt(d)])))]


def nh_hints(c):
    p0, q = arg(c, "pos"), arg(c, "div")
    n = p0.shape[0]
    i = c["i"]
    return [("coordinate increased", SJ(p0.z, q.z, n) == n - i - 1)]


contract(CO + "next_hypercube", params=nh_params,
         requires=lambda c: [("as many coordinates as sides", c["pos"].shape[0] == c["div"].shape[0])],
         ensures=nh_post, modifies=["pos"],
         loops={0: Loop(inv=nh0), 1: Loop(inv=nh1)})


# ------------------------------------------------ nerve_hypercube_cover
# Positions in the grid with sides q (n of them), numbered lexicographically:
# stride(q, n, i): product of the last i sides; part(q, n, p, i): sum of the last i coordinates of p,
# each times its stride, so part(q, n, p, n) is the number of p; prod(q, i): product of the first i sides;
# at(q, n, i): position number i; lex(a, b, n): a is lexicographically before b;
# adj(q, n, a, b): the positions number a and b differ by at most one in every coordinate
STR = z3.Function("stride", IA, I, I, I)
PART = z3.Function("part", IA, I, IA, I, I)
PROD = z3.Function("prod", IA, I, I)
AT = z3.Function("at", IA, I, I, IA)
LEX = z3.Function("lex", IA, IA, I, B)
LEXF = z3.Function("lex_first", IA, IA, I, I)
LEXQ = z3.Function("lex_earlier", IA, IA, I, I, I)
ADJ = z3.Function("adj", IA, I, I, I, B)
ADJW = z3.Function("adj_not", IA, I, I, I, I)
# step(q, n, a, b): 1 + the position of a minus the position of b
STEP = z3.Function("step", IA, I, I, I, IA)
THREE, ONES = z3.Const("threes", IA), z3.Const("ones", IA)


def idx(q, n, p):
    return PART(q, n, p, n)


def grid_axioms(run):
    q, n, p, d, a, b, f = z3.Const("q", IA), z3.Int("n"), z3.Const("p", IA), z3.Int("d"), z3.Int("a"), z3.Int("b"), z3.Int("f")
    u, v = z3.Const("u", IA), z3.Const("v", IA)
    l, w, e = LEX(u, v, n), LEXF(u, v, n), LEXQ(u, v, n, f)
    run.pc.append(all_([u, v, n], z3.Implies(l, z3.And(0 <= w, w < n, u[w] < v[w])), [l]))
    run.pc.append(all_([u, v, n, d], z3.Implies(z3.And(l, 0 <= d, d < w), u[d] == v[d]), [[l, u[d]], [l, v[d]]]))
    run.pc.append(all_([u, v, n, f], z3.Implies(z3.And(z3.Not(l), 0 <= f, f < n, u[f] < v[f]),
                                                z3.And(0 <= e, e < f, u[e] != v[e])), [e]))
    m, w = ADJ(q, n, a, b), ADJW(q, n, a, b)
    x, y = AT(q, n, a), AT(q, n, b)
    near = lambda d: z3.And(x[d] - y[d] <= 1, y[d] - x[d] <= 1)
    run.pc.append(all_([q, n, a, b, d], z3.Implies(z3.And(m, 0 <= d, d < n), near(d)), [[m, x[d]], [m, y[d]]]))
    run.pc.append(all_([q, n, a, b], z3.Implies(z3.Not(m), z3.And(0 <= w, w < n, z3.Not(near(w)))), [m]))
    run.pc.append(all_([d], THREE[d] == 3, [THREE[d]]))
    run.pc.append(all_([d], ONES[d] == 1, [ONES[d]]))
    s = STEP(q, n, a, b)
    run.pc.append(all_([q, n, a, b, d], s[d] == 1 + x[d] - y[d], [s[d]]))


def in_grid(q, n, p):
    d = V("d")
    return all_([d], z3.Implies(L.inrange(d, n), z3.And(0 <= p(d), p(d) < q[d])), [p(d)] if is_z(p(d)) else None)


def sides_ok(q, n):
    d = V("d")
    return z3.And(n >= 1, all_([d], z3.Implies(L.inrange(d, n), q[d] >= 1), [q[d]]))


def same(n, p, r):
    d = V("d")
    return all_([d], z3.Implies(L.inrange(d, n), p[d] == r[d]), [p[d], r[d]])


def lem_first(q, n):
    d = V("d")
    return Lem("grid_first", z3.Implies(sides_ok(q, n), z3.And(PROD(q, n) == STR(q, n, n), PROD(q, n) >= 1, all_(
        [d], z3.Implies(L.inrange(d, n), AT(q, n, z3.IntVal(0))[d] == 0), [AT(q, n, z3.IntVal(0))[d]]))))


def lem_at(q, n, i):
    """position i lies in the grid and has number i"""
    d = V("d")
    p = AT(q, n, i)
    return Lem("grid_at", z3.Implies(z3.And(sides_ok(q, n), L.inrange(i, STR(q, n, n))), z3.And(
        idx(q, n, p) == i, all_([d], z3.Implies(L.inrange(d, n), z3.And(0 <= p[d], p[d] < q[d])), [p[d]]))))


def lem_number(q, n, p):
    """a position of the grid is the one with its number"""
    d = V("d")
    k = idx(q, n, p)
    return Lem("grid_number", z3.Implies(z3.And(sides_ok(q, n), in_grid(q, n, lambda d: p[d])), z3.And(
        0 <= k, k < STR(q, n, n), all_([d], z3.Implies(L.inrange(d, n), AT(q, n, k)[d] == p[d]), [AT(q, n, k)[d], p[d]]))))


def lem_succ(q, n, p, i):
    d = V("d")
    r = AT(q, n, i + 1)
    return Lem("grid_successor", z3.Implies(z3.And(sides_ok(q, n), 0 <= i, i + 1 < STR(q, n, n), same(n, p, AT(q, n, i))), all_(
        [d], z3.Implies(L.inrange(d, n), SUCC(p, q, n)[d] == r[d]), [r[d], SUCC(p, q, n)[d]])))


def lem_lex(q, n, a, b):
    return Lem("grid_order", z3.Implies(z3.And(sides_ok(q, n), in_grid(q, n, lambda d: a[d]), in_grid(q, n, lambda d: b[d])),
                                        (idx(q, n, a) < idx(q, n, b)) == LEX(a, b, n)))


def lem_cong(q, n, a, b):
    return Lem("number_of_equal", z3.Implies(same(n, a, b), idx(q, n, a) == idx(q, n, b)))


def lem_sum(q, n, a, b, c):
    d = V("d")
    return Lem("number_additive", z3.Implies(all_([d], z3.Implies(L.inrange(d, n), c[d] == a[d] + b[d]), None),
                                             idx(q, n, c) == idx(q, n, a) + idx(q, n, b)))


def nv_params(c):
    graph_axioms(c.run)
    grid_axioms(c.run)
    succ_axioms(c.run)
    n = nat(c, "coordinates")
    return dict(div=c.run.new(arr_const("div", [n], I, islist=True)))


def nv_args(c):
    q = arg(c, "div")
    n = q.shape[0]
    return q.z, n, PROD(q.z, n)


def rows_ok(c, G, upto):
    """rows of the graph: different pairs of adjacent cubes below upto, the smaller first"""
    q, n, N = nv_args(c)
    r, s = V("r", "s")
    a, b = G.elt(r, 0), G.elt(r, 1)
    return [("two cubes per edge", G.shape[1] == 2),
            ("edges join adjacent cubes", all_([r], z3.Implies(L.inrange(r, G.shape[0]), z3.And(
                0 <= a, a < b, b < upto, ADJ(q, n, a, b))), [G.z[r]])),
            ("each edge once", all_([r, s], z3.Implies(z3.And(0 <= r, r < s, s < G.shape[0]), z3.Or(
                G.elt(r, 0) != G.elt(s, 0), G.elt(r, 1) != G.elt(s, 1))), [[G.z[r], G.z[s]]]))]


def edge_in(G, a, b):
    return EDGE(G.z, G.shape[0], a, b)


def all_edges(c, G, upto):
    q, n, N = nv_args(c)
    a, b = V("a", "b")
    return [("adjacent cubes are joined", all_([a, b], z3.Implies(z3.And(0 <= a, a < b, b < upto, ADJ(q, n, a, b)), edge_in(G, a, b)),
                                               [ADJ(q, n, a, b)]))]


def graph_of(c, nm="nerve_graph"):
    G = c[nm]
    if isinstance(G, PyList) and not G.items:
        return Arr([z3.IntVal(0), z3.IntVal(2)], lambda i, j: z3.IntVal(0), I, z=z3.K(I, z3.K(I, z3.IntVal(0))))
    return G


def new_graph(c):
    return c.run.new(arr_const("nerve_graph", [nat(c, "edges"), z3.IntVal(2)], I, islist=True))


def new_vec(nm):
    return lambda c: c.run.new(arr_const(nm, [arg(c, "div").shape[0]], I))


def at_pos(c, p, i):
    q, n, N = nv_args(c)
    d = V("d")
    return [("position of the cube", z3.And(p.shape[0] == n, z3.Implies(i < N, all_(
        [d], z3.Implies(L.inrange(d, n), p.elt(d) == AT(q, n, i)[d]), [p.elt(d), AT(q, n, i)[d]]))))]


def nv1(c):
    G = graph_of(c)
    return rows_ok(c, G, c.it) + all_edges(c, G, c.it) + at_pos(c, c["pos"], c.it)


def step_at(c, s, t):
    q, n, N = nv_args(c)
    d = V("d")
    u = AT(THREE, n, t)
    return [("step to the neighbour", z3.And(s.shape[0] == n, all_([d], z3.Implies(L.inrange(d, n), s.elt(d) + 1 == u[d]), [s.elt(d), u[d]])))]


def nv2(c):
    q, n, N = nv_args(c)
    G, cur, t = graph_of(c), c["current_index"], c.g["t"]
    a = V("a")
    m = ADJ(q, n, a, cur)
    return rows_ok(c, G, cur + 1) + all_edges(c, G, cur) + at_pos(c, c["pos"], cur) + step_at(c, c["neighbour_step"], t) + [
        ("steps before the null step", z3.And(0 <= t, t <= idx(THREE, n, ONES))),
        ("neighbours of the steps done are joined", all_([a], z3.Implies(z3.And(
            0 <= a, a < cur, m, idx(THREE, n, STEP(q, n, a, cur)) < t), edge_in(G, a, cur)), [m]))]


def out_of(c, d):
    q, p, s = arg(c, "div").z, c["pos"], c["neighbour_step"]
    return z3.Or(z3.And(p.elt(d) == 0, s.elt(d) == -1), z3.And(p.elt(d) == q[d] - 1, s.elt(d) == 1))


def nv3(c):
    q, n, N = nv_args(c)
    s, p = c["neighbour_step"], c["pos"]
    d = V("d")
    return [("stride", c["step"] == STR(q, n, c.it)),
            ("number so far", c["neighbour_index"] == c["current_index"] + PART(q, n, s.z, c.it)),
            ("inside so far", all_([d], z3.Implies(L.inrange(d, c.it), z3.Not(out_of(c, d))), [p.elt(d), s.elt(d)]))]


def nv3_init(c):
    q, n, N = nv_args(c)
    s = c["neighbour_step"]
    return [Lem("definition of part", PART(q, n, s.z, z3.IntVal(0)) == 0), Lem("definition of stride", STR(q, n, z3.IntVal(0)) == 1)]


def nv3_body(c):
    q, n, N = nv_args(c)
    s, i = c["neighbour_step"], c.it
    return [Lem("definition of part", PART(q, n, s.z, i + 1) == PART(q, n, s.z, i) + s.elt(n - 1 - i) * STR(q, n, i)),
            Lem("definition of stride", STR(q, n, i + 1) == STR(q, n, i) * q[n - 1 - i])]


def nv4(c):
    """before the coordinate to increase is found"""
    s0, s = c.extra["entry"]["neighbour_step"], c["neighbour_step"]
    q, n, N = nv_args(c)
    d = V("d")
    return [("step not changed yet", z3.And(s.shape[0] == n, all_([d], z3.Implies(L.inrange(d, n), s.elt(d) == s0.elt(d)), [s.elt(d)]))),
            ("last coordinates are maximal", all_([d], z3.Implies(z3.And(n - c.it <= d, d < n), s0.elt(d) >= 1), [s0.elt(d)]))]


def nv5(c):
    s, s0, i = c["neighbour_step"], c.extra["entry"]["neighbour_step"], c["i"]
    q, n, N = nv_args(c)
    d = V("d")
    j = n - i - 1
    return [("next step so far", z3.And(s.shape[0] == n, all_([d], z3.Implies(L.inrange(d, n), s.elt(d) == z3.If(
        d <= j, s0.elt(d), z3.If(d >= n - c.it, -1, s0.elt(d)))), [s.elt(d)])))]


def mention(run, vs, t, pat=None):
    """gives the term a name, so that the solver looks at it"""
    f = z3.Function(fresh_name("m"), t.sort(), B)
    run.pc.append(all_(vs, f(t), pat) if vs else f(t))


def each(vs, lem, pat):
    return Lem(lem.name, all_(vs, lem.f, pat))


def nv1_body(c):
    q, n, N = nv_args(c)
    a = V("a")
    return [lem_at(q, n, c.it), lem_first(THREE, n), lem_number(THREE, n, ONES)] + of_all(c, c.it)


def nv2_body(c):
    q, n, N = nv_args(c)
    t = c.g["t"]
    u = AT(THREE, n, t)
    return [lem_number(THREE, n, ONES), lem_at(THREE, n, t), lem_lex(THREE, n, u, ONES),
            ("the null step is not reached", z3.Implies(t == idx(THREE, n, ONES), z3.BoolVal(False))),
            ("a step back", LEX(u, ONES, n))]


def of_all(c, cur=None):
    """what is known of the cubes a adjacent to the current one"""
    q, n, N = nv_args(c)
    cur, a = c["current_index"] if cur is None else cur, V("a")
    st, pat = STEP(q, n, a, cur), [ADJ(q, n, a, cur)]
    return [each([a], lem_at(q, n, a), pat), each([a], lem_number(THREE, n, st), pat)]


def nv3_exit(c):
    q, n, N = nv_args(c)
    cur, t, s, p = c["current_index"], c.g["t"], c["neighbour_step"], c["pos"]
    a, d = V("a", "d")
    st, pat = STEP(q, n, a, cur), [ADJ(q, n, a, cur)]
    u = AT(THREE, n, t)
    this = z3.And(0 <= a, a < cur, ADJ(q, n, a, cur), idx(THREE, n, st) == t)
    out = of_all(c) + [("the step from an adjacent cube", all_([a, d], z3.Implies(z3.And(this, L.inrange(d, n)), AT(q, n, a)[d] == p.elt(d) + s.elt(d)),
                                                             [[ADJ(q, n, a, cur), AT(q, n, a)[d]]]))]
    if c.extra.get("broke"):
        mention(c.run, [a], AT(q, n, a)[c["i"]], pat)
        return out + [("no cube is missed", all_([a], z3.Not(this), pat))]
    nb = fresh("neighbour", IA)
    c.run.pc.append(all_([d], nb[d] == p.elt(d) + s.elt(d), [nb[d]]))
    ap, k = AT(q, n, cur), idx(q, n, nb)
    mention(c.run, [], LEXQ(nb, ap, n, LEXF(u, ONES, n)))
    return out + [lem_at(q, n, cur), lem_cong(q, n, p.z, ap), lem_sum(q, n, p.z, s.z, nb), ("number of the neighbour", c["neighbour_index"] == k),
                  ("the neighbour is in the grid", in_grid(q, n, lambda d: nb[d])), lem_number(q, n, nb), lem_lex(q, n, nb, ap),
                  ("the neighbour is before", LEX(nb, ap, n)), ("the neighbour is lower", k < cur), ("the neighbour is adjacent", ADJ(q, n, k, cur)),
                  each([a], lem_cong(q, n, AT(q, n, a), nb), pat), ("only this cube", all_([a], z3.Implies(this, a == k), pat))]


def nv2_hints(c):
    q, n, N = nv_args(c)
    t = c.g["t"] - 1
    u = AT(THREE, n, t)
    try:
        c["i"]
    except MissingName:
        return [("some coordinate is not maximal", z3.BoolVal(False))]
    G, G0, cur, nx = graph_of(c), c.extra["body"]["nerve_graph"], c["current_index"], c["neighbour_index"]
    a, b = V("a", "b")
    return [("edges are kept", all_([a, b], z3.Implies(edge_in(G0, a, b), edge_in(G, a, b)), [edge_in(G, a, b)])),
            ("the neighbour is joined", z3.Implies(nx >= 0, edge_in(G, nx, cur))),
            ("coordinate increased", SJ(u, THREE, n) == n - c["i"] - 1), lem_succ(THREE, n, u, t)]


def nv2_exit(c):
    q, n, N = nv_args(c)
    cur, t, a = c["current_index"], c.g["t"], V("a")
    u, st, pat = AT(THREE, n, t), STEP(q, n, a, cur), [ADJ(q, n, a, cur)]
    x, y = AT(q, n, a), AT(q, n, cur)
    mention(c.run, [a], LEXQ(st, ONES, n, LEXF(x, y, n)), pat)
    low = z3.And(0 <= a, a < cur, ADJ(q, n, a, cur))
    return [lem_number(THREE, n, ONES), lem_at(THREE, n, t), lem_lex(THREE, n, u, ONES), ("all steps back are done", t == idx(THREE, n, ONES)),
            lem_at(q, n, cur)] + of_all(c) + [
        each([a], lem_lex(q, n, x, y), pat), each([a], lem_lex(THREE, n, st, ONES), pat),
        ("lower adjacent cubes are a step back", all_([a], z3.Implies(low, LEX(st, ONES, n)), pat)),
        ("lower adjacent cubes are done", all_([a], z3.Implies(low, idx(THREE, n, st) < t), pat))]


def nv1_hints(c):
    q, n, N = nv_args(c)
    return [lem_succ(q, n, c.extra["body"]["pos"].z, c.it - 1)]


def nv_post(c):
    q, n, N = nv_args(c)
    F = c.result
    if not isinstance(F, SeqOf):
        return [("a complex", z3.BoolVal(False))]
    if getattr(c, "call", False):
        F.par, F.posn = fresh("PAR", AII), fresh("POSN", z3.ArraySort(I, AII))
    if getattr(F, "par", None) is None:
        return [("a complex", z3.BoolVal(False))]
    G = F.get(z3.IntVal(1))
    v = View(c, dict(G=G, no_vertices=N, max_dim=F.n - 1), c.g)
    v.old = None
    return [("dimensions up to the largest of a simplex", F.n == pow2(n) + 1), ("edges and triangles", F.n >= 3)] + \
        rows_ok(c, G, N) + all_edges(c, G, N) + fl_levels(v, F, F.n, F.par, F.posn)


def new_nerve(c):
    v = View(c, dict(no_vertices=PROD(arg(c, "div").z, arg(c, "div").shape[0])), c.g)
    v.old = None
    return new_flag(v)


contract(CO + "nerve_hypercube_cover", params=nv_params,
         requires=lambda c: [("a grid", sides_ok(c["div"].z, c["div"].shape[0]))], result=new_nerve, ensures=nv_post,
         loops={0: Loop(inv=lambda c: [("product of the sides", c["number_hypercubes"] == PROD(arg(c, "div").z, c.it))],
                        init_hints=lambda c: [Lem("definition of prod", PROD(arg(c, "div").z, z3.IntVal(0)) == 1)],
                        body_hints=lambda c: [Lem("definition of prod", PROD(arg(c, "div").z, c.it + 1) == PROD(arg(c, "div").z, c.it) * arg(c, "div").elt(c.it))],
                        exit_hints=lambda c: [lem_first(*nv_args(c)[:2])]),
                1: Loop(inv=nv1, body_hints=nv1_body, hints=nv1_hints, havoc={"nerve_graph": new_graph, "pos": new_vec("pos")}),
                2: Loop(inv=nv2, body_hints=nv2_body, hints=nv2_hints, exit_hints=nv2_exit, variant=lambda c: idx(THREE, nv_args(c)[1], ONES) - c.g["t"],
                        havoc={"nerve_graph": new_graph, "neighbour_step": new_vec("neighbour_step")},
                        ghosts={"t": (lambda c: z3.IntVal(0), lambda c: c.g["t"] + 1)}),
                3: Loop(inv=nv3, exit_hints=nv3_exit, init_hints=nv3_init, body_hints=nv3_body),
                4: Loop(inv=nv4, havoc={"neighbour_step": new_vec("neighbour_step")}),
                5: Loop(inv=nv5, havoc={"neighbour_step": new_vec("neighbour_step")})})


# ------------------------------------------------ generate_cover
# the closed cube number i: lower(.., i, d) <= x <= upper(.., i, d) in every coordinate d, where
# lower = corner + side * position - overlap / 2, upper = corner + side * position + side + overlap / 2
LO = z3.Function("lower", RA, RE, RE, IA, I, I, I, RE)
UP = z3.Function("upper", RA, RE, RE, IA, I, I, I, RE)
INC = z3.Function("in_cube", RA, RE, RE, IA, I, I, RA, B)
INCW = z3.Function("not_in_cube", RA, RE, RE, IA, I, I, RA, I)


def cube_axioms(run):
    m, s, o, q, n, i, d, x = (z3.Const("mc", RA), z3.Real("sd"), z3.Real("ov"), z3.Const("q", IA), z3.Int("n"),
                              z3.Int("i"), z3.Int("d"), z3.Const("x", RA))
    a = (m, s, o, q, n, i)
    lo, up = LO(*a, d), UP(*a, d)
    base = m[d] + s * z3.ToReal(AT(q, n, i)[d])
    vs = [m, s, o, q, n, i, d]
    run.pc.append(all_(vs, lo == base - o / 2, [lo]))
    run.pc.append(all_(vs, up == base + s + o / 2, [up]))
    b, w = INC(*a, x), INCW(*a, x)
    inside = lambda d: z3.And(LO(*a, d) <= x[d], x[d] <= UP(*a, d))
    run.pc.append(all_(vs + [x], z3.Implies(z3.And(b, 0 <= d, d < n), inside(d)), [[b, x[d]]]))
    run.pc.append(all_([m, s, o, q, n, i, x], z3.Implies(z3.Not(b), z3.And(0 <= w, w < n, z3.Not(inside(w)))), [b]))


def slots(name, nd, sort, width=None):
    """list of lists (or arrays) of numbers (nd = 1) or points (nd = 2)"""
    from .complexes import keep_list

    def conv(run, v):
        v = run.snap(v)
        if isinstance(v, PyList) and not v.items:
            zero = z3.IntVal(0) if sort == I else z3.RealVal(0)
            sh = [z3.IntVal(0)] * nd
            return Arr(sh, lambda *k: zero, sort, z=z3.K(I, zero) if nd == 1 else z3.K(I, z3.K(I, zero)), islist=True)
        a = run.models.as_array(run, v)
        if a.nd != nd or a.sort != sort:
            raise Unsupported("contents of a cube")
        return keep_list(run, a)

    def havoc(c):
        n = fresh("len_" + name, I)
        c.run.pc.append(n >= 0)
        dims = [fresh("dim%d_%s" % (i, name), IA) for i in range(nd)]
        ls = z3.Function(fresh_name("list_" + name), I, B)
        z = fresh("m_" + name, z3.ArraySort(I, nested(nd, sort)))
        k = V("k")
        for f in dims:
            c.run.pc.append(all_([k], f[k] >= 0, [f[k]]))

        def get(k):
            a = arr_of(z[k], [f[k] for f in dims], sort)
            a.lst = ls(k)
            return a
        s = SeqOf(n, get)
        s.conv, s.shared = conv, False
        if nd == 1:
            s.sets = (z, dims[0])
        return c.run.new(s)
    return havoc


def lst(a):
    from pvc.engine import lst_of
    return lst_of(a)


def gc_params(c):
    graph_axioms(c.run)
    grid_axioms(c.run)
    succ_axioms(c.run)
    member_axioms(c.run)
    cube_axioms(c.run)
    c.run.cache["setop hook"] = filter_hook
    return dict(max_div=fresh("max_div", I), overlap=fresh("overlap", RE), point_cloud=cloud(c))


def gc_req(c):
    X = c["point_cloud"]
    return [("divisions", c["max_div"] >= 1), ("overlap", c["overlap"] >= 0), ("points", z3.And(X.shape[0] >= 1, X.shape[1] >= 1))]


def vec_of(c, nm, sort=I):
    v = c[nm]
    if isinstance(v, PyList):
        if not v.items:
            return Arr([z3.IntVal(0)], lambda i: z3.IntVal(0), I, z=z3.K(I, z3.IntVal(0)), islist=True)
        v = c.run.mat(c.run.models.as_array(c.run, v))
    return v


def gc0(c):
    """numbers of divisions"""
    q, p, mn, mx, s = vec_of(c, "div"), vec_of(c, "pos"), c["min_corner"], c["max_corner"], c["side"]
    d = V("d")
    return [("as many numbers as dimensions so far", z3.And(q.shape[0] == c.it, p.shape[0] == c.it)),
            ("number of cubes so far", c["number_hypercubes"] == PROD(q.z, c.it)),
            ("at the origin", all_([d], z3.Implies(L.inrange(d, c.it), p.elt(d) == 0), [p.elt(d)])),
            ("the divisions reach the far corner", all_([d], z3.Implies(L.inrange(d, c.it), z3.And(
                q.elt(d) >= 1, s * z3.ToReal(q.elt(d)) >= mx.elt(d) - mn.elt(d))), [q.elt(d)]))]


def new_list(nm, sort=I):
    return lambda c: c.run.new(arr_const(nm, [nat(c, "len_" + nm)], sort, islist=True))


def seq(c, nm):
    v = c[nm]
    if isinstance(v, PyList):
        if v.items:
            raise Unsupported("list of cubes")
        e = Arr([z3.IntVal(0)], lambda k: z3.IntVal(0), I, z=z3.K(I, z3.IntVal(0)), islist=True)
        return SeqOf(z3.IntVal(0), lambda k: e)
    return v


def empty_from(S, frm, upto):
    k = V("k")
    return all_([k], z3.Implies(z3.And(frm <= k, k < upto), z3.And(S.get(k).shape[0] == 0, lst(S.get(k)))),
                [S.get(k).shape[0], lst(S.get(k))])


def gc1(c):
    S, P = seq(c, "points_IN"), seq(c, "divided_point_cloud")
    return [("a list per cube", z3.And(S.n == c.it, P.n == c.it, empty_from(S, z3.IntVal(0), c.it), empty_from(P, z3.IntVal(0), c.it)))]


def gq(c):
    q = c["div"]
    return q.z, q.shape[0], PROD(q.z, q.shape[0])


def cube(c, i):
    q, n, N = gq(c)
    return (c["min_corner"].z, c["side"], arg(c, "overlap"), q, n, i)


def grid_known(c):
    q, n, N = gq(c)
    return [("a grid", z3.And(sides_ok(q, n), n == arg(c, "point_cloud").shape[1], c["number_hypercubes"] == N))]


def contents(c, i, S, P, at, upto):
    """the slots of cube i hold the points below upto that lie in it; at[x]: position of x"""
    X = arg(c, "point_cloud")
    a, b, x, d = V("a", "b", "x", "d")
    s, p = S.get(i), P.get(i)
    inc = lambda x: INC(*cube(c, i), X.z[x])
    return [("increasing numbers", all_([a, b], z3.Implies(z3.And(0 <= a, a < b, b < s.shape[0]), s.elt(a) < s.elt(b)), [[s.elt(a), s.elt(b)]])),
            ("only points in the cube", all_([a], z3.Implies(L.inrange(a, s.shape[0]), z3.And(L.inrange(s.elt(a), upto), inc(s.elt(a)))), [s.elt(a)])),
            ("all points in the cube", all_([x], z3.Implies(z3.And(L.inrange(x, upto), inc(x)), z3.And(
                L.inrange(at[x], s.shape[0]), s.elt(at[x]) == x)), [inc(x)])),
            ("as many points", z3.And(p.shape[0] == s.shape[0], z3.Implies(p.shape[0] > 0, p.shape[1] == X.shape[1]))),
            ("their coordinates", all_([a, d], z3.Implies(z3.And(L.inrange(a, s.shape[0]), L.inrange(d, X.shape[1])),
                                                          p.elt(a, d) == X.elt(s.elt(a), d)), [p.elt(a, d)]))]


def all_contents(c, S, P, AT2, upto):
    from .complexes import quant
    i = V("i")
    out = []
    for nm, f in contents(c, i, S, P, AT2[i], arg(c, "point_cloud").shape[0]):
        g = L.inrange(i, upto)
        out.append((nm, quant(i, g, f) if z3.is_quantifier(f) else all_([i], z3.Implies(g, f), [S.get(i).shape[0], P.get(i).shape[0], P.get(i).shape[1]])))
    return out + [("arrays", all_([i], z3.Implies(L.inrange(i, upto), z3.And(z3.Not(lst(S.get(i))), z3.Not(lst(P.get(i))))),
                                  [lst(S.get(i)), lst(P.get(i))]))]


def gc2(c):
    S, P = c["points_IN"], c["divided_point_cloud"]
    q, n, N = gq(c)
    p, d = c["pos"], V("d")
    at = AT(q, n, c.it)
    return grid_known(c) + [("a list per cube", z3.And(S.n == N, P.n == N, empty_from(S, c.it, N), empty_from(P, c.it, N))),
                            ("position of the cube", z3.And(p.shape[0] == n, z3.Implies(c.it < N, all_(
                                [d], z3.Implies(L.inrange(d, n), p.elt(d) == at[d]), [p.elt(d), at[d]]))))] + \
        all_contents(c, S, P, c.g["AT"], c.it)


def gc3(c):
    lo, up, ce, mn = c["lcor"], c["ucor"], c["center"], c["min_corner"]
    q, n, N = gq(c)
    k = V("k")
    cb = cube(c, c["i"])
    return [("coordinates", z3.And(lo.shape[0] == n, up.shape[0] == n, ce.shape[0] == n)),
            ("lower faces so far", all_([k], z3.Implies(L.inrange(k, n), lo.elt(k) == z3.If(k < c.it, LO(*cb, k), mn.elt(k))), [lo.elt(k)])),
            ("upper faces so far", all_([k], z3.Implies(L.inrange(k, n), up.elt(k) == z3.If(k < c.it, UP(*cb, k), mn.elt(k))), [up.elt(k)]))]


def gc3_body(c):
    cb = cube(c, c["i"])
    mention(c.run, [], LO(*cb, c.it))
    mention(c.run, [], UP(*cb, c.it))
    return [("position", c["pos"].elt(c.it) == AT(cb[3], cb[4], c["i"])[c.it])]


def gc4(c):
    S, P, i, E = c["points_IN"], c["divided_point_cloud"], c["i"], c.extra["entry"]
    k = V("k")
    S0, P0 = E["points_IN"], E["divided_point_cloud"]
    same_slot = lambda a, b: z3.And(a.z == b.z, lst(a) == lst(b), *[x == y for x, y in zip(a.shape, b.shape)])
    pats = lambda a: [a.z, lst(a)] + a.shape
    return [("other cubes untouched", z3.And(S.n == S0.n, P.n == P0.n, all_([k], z3.Implies(z3.And(L.inrange(k, S.n), k != i), z3.And(
        same_slot(S.get(k), S0.get(k)), same_slot(P.get(k), P0.get(k)))), pats(S.get(k)) + pats(P.get(k))))),
        ("lists", z3.And(lst(S.get(i)), lst(P.get(i))))] + contents(c, i, S, P, c.g["at"], c.it)


def gc5(c):
    X, q = arg(c, "point_cloud"), gq(c)[0]
    cb = cube(c, c["i"])
    x, k = c["idx_pt"], V("k")
    return [("inside so far", z3.And(c["in_hypercube"], all_([k], z3.Implies(L.inrange(k, c.it), z3.And(
        LO(*cb, k) <= X.elt(x, k), X.elt(x, k) <= UP(*cb, k))), [X.elt(x, k)])))]


def gc5_exit(c):
    X = arg(c, "point_cloud")
    x = c["idx_pt"]
    b = INC(*cube(c, c["i"]), X.z[x])
    if c.extra.get("broke"):
        return [("not in the cube", z3.Not(b))]
    return [("in the cube", b)]


def at_step(c):
    S0, S, i = c.extra["body"]["points_IN"], c["points_IN"], c["i"]
    n0 = S0.get(i).shape[0]
    return z3.If(S.get(i).shape[0] > n0, z3.Store(c.g["at"], c.it, n0), c.g["at"])


def levels(name, nd, sort):
    """list of lists of arrays: get(k).get(r), the entry of simplex r of dimension k"""
    def entry_conv(run, v):
        a = run.models.as_array(run, run.snap(v))
        if a.nd != nd or a.sort != sort:
            raise Unsupported("contents of an intersection")
        return a if a.z is not None else run.mat(a)

    def inner(n, get):
        s = SeqOf(n, get)
        s.conv, s.shared = entry_conv, False
        return s

    def conv(run, v):
        v = run.snap(v)
        if isinstance(v, PyList) and not v.items:
            zero = z3.IntVal(0) if sort == I else z3.RealVal(0)
            zz = z3.K(I, zero) if nd == 1 else z3.K(I, z3.K(I, zero))
            e = Arr([z3.IntVal(0)] * nd, lambda *k: zero, sort, z=zz)
            return inner(z3.IntVal(0), lambda k: e)
        if isinstance(v, SeqOf):
            return inner(v.n, v.get)
        raise Unsupported("level of the cover")

    def havoc(c):
        n = fresh("len_" + name, I)
        c.run.pc.append(n >= 0)
        ln = fresh("number_" + name, IA)
        dims = [fresh("dim%d_%s" % (i, name), AII) for i in range(nd)]
        z = fresh("m_" + name, z3.ArraySort(I, z3.ArraySort(I, nested(nd, sort))))
        k, r = V("k", "r")
        c.run.pc.append(all_([k], ln[k] >= 0, [ln[k]]))
        for f in dims:
            c.run.pc.append(all_([k, r], f[k][r] >= 0, [f[k][r]]))
        s = SeqOf(n, lambda k: inner(ln[k], lambda r: arr_of(z[k][r], [f[k][r] for f in dims], sort)))
        s.conv, s.shared = conv, False
        return c.run.new(s)
    return havoc


def level_seq(c, nm):
    v = c[nm]
    if isinstance(v, PyList):
        its = [c.run.snap(x) for x in v.items]
        if len(its) != 1 or not isinstance(its[0], SeqOf):
            raise Unsupported("levels of the cover")
        return SeqOf(z3.IntVal(1), lambda k: its[0])
    return v


def level_ok(c, k, LS, LP, F, upto):
    """the entries of the first upto simplices of dimension k"""
    X = arg(c, "point_cloud")
    z, ln = c["points_IN"].sets
    m = F.get(k)
    r, a, b, x, d = V("r", "a", "b", "x", "d")
    s, p = LS.get(r), LP.get(r)
    inall = lambda x: INALL(z, ln, m.z[r], k + 1, x)
    g = L.inrange(r, upto)
    return [("increasing numbers of an intersection", all_([r, a, b], z3.Implies(z3.And(g, 0 <= a, a < b, b < s.shape[0]), s.elt(a) < s.elt(b)),
                                                            [[s.elt(a), s.elt(b)]])),
            ("only common points", all_([r, a], z3.Implies(z3.And(g, L.inrange(a, s.shape[0])), z3.And(L.inrange(s.elt(a), X.shape[0]), inall(s.elt(a)))), [s.elt(a)])),
            ("all common points", all_([r, x], z3.Implies(z3.And(g, inall(x)), ISIN(s.z, s.shape[0], x)), [inall(x)])),
            ("as many common points", all_([r], z3.Implies(g, z3.And(p.shape[0] == s.shape[0], p.shape[1] == X.shape[1])), [p.shape[0], s.shape[0], p.shape[1]])),
            ("coordinates of the common points", all_([r, a, d], z3.Implies(z3.And(g, L.inrange(a, s.shape[0]), L.inrange(d, X.shape[1])),
                                                                            p.elt(a, d) == X.elt(s.elt(a), d)), [p.elt(a, d)]))]


def first_level(c, LS, LP):
    """entry 0: the cubes"""
    S, P = c["points_IN"], c["divided_point_cloud"]
    k = V("k")
    zero = z3.IntVal(0)
    same_slot = lambda a, b: z3.And(a.z == b.z, *[x == y for x, y in zip(a.shape, b.shape)])
    pats = lambda a: [a.z] + a.shape
    a, b = LS.get(zero), LP.get(zero)
    return [("first the cubes", z3.And(a.n == S.n, b.n == P.n, all_([k], z3.Implies(L.inrange(k, S.n), z3.And(
        same_slot(a.get(k), S.get(k)), same_slot(b.get(k), P.get(k)))), pats(a.get(k)) + pats(b.get(k)))))]


def gc_levels(c, LS, LP, upto):
    from .complexes import quant
    F = c["nerve"]
    k = V("k")
    out = first_level(c, LS, LP)
    out.append(("an entry per simplex", all_([k], z3.Implies(z3.And(1 <= k, k < upto), z3.And(
        LS.get(k).n == F.get(k).shape[0], LP.get(k).n == F.get(k).shape[0])), [LS.get(k).n, LP.get(k).n, F.get(k).shape[0]])))
    for nm, f in level_ok(c, k, LS.get(k), LP.get(k), F, F.get(k).shape[0]):
        out.append((nm, quant(k, z3.And(1 <= k, k < upto), f)))
    return out


def gc6(c):
    LS, LP = level_seq(c, "nerve_points_IN"), level_seq(c, "nerve_point_cloud")
    return [("levels so far", z3.And(LS.n == c.it + 1, LP.n == c.it + 1))] + gc_levels(c, LS, LP, c.it + 1)


def gc7(c):
    LS, LP, k = c["nerve_points_IN"], c["nerve_point_cloud"], c["k"]
    a, b = LS.get(k + 1), LP.get(k + 1)
    return [("levels so far", z3.And(LS.n == k + 2, LP.n == k + 2))] + gc_levels(c, LS, LP, k + 1) + \
        [("entries so far", z3.And(a.n == c.it, b.n == c.it))] + level_ok(c, k + 1, a, b, c["nerve"], c.it)


LH = {"nerve_points_IN": levels("nerve_points_IN", 1, I), "nerve_point_cloud": levels("nerve_point_cloud", 2, RE)}
KEEP = ("points_IN", "divided_point_cloud", "nerve")
SH = {"points_IN": slots("points_IN", 1, I), "divided_point_cloud": slots("divided_point_cloud", 2, RE)}
NOPOS = z3.K(I, z3.IntVal(0))


def gc0_body(c):
    q, i = vec_of(c, "div"), c.it
    return []


def gc0_hints(c):
    """c.it: already the next one"""
    q, q0 = c["div"], vec_of(c.extra["body_ctx"], "div") if "body_ctx" in c.extra else c.extra["body"]["div"]
    i = c.it - 1
    return [Lem("prod_of_equal", z3.Implies(same(i, q0.z, q.z), PROD(q0.z, i) == PROD(q.z, i))),
            Lem("definition of prod", PROD(q.z, i + 1) == PROD(q.z, i) * q.z[i])]


# home(.., l, u): a cube that contains the box l <= x <= u
HOME = z3.Function("home", RA, RE, RE, IA, I, RA, RA, I)


def small_box(n, mn, mx, o, l, u):
    d = V("d")
    return all_([d], z3.Implies(L.inrange(d, n), z3.And(mn[d] <= l[d], l[d] <= u[d], u[d] <= mx[d], u[d] - l[d] <= o)), [l[d], u[d]])


def lem_cover(c):
    """grid_cover: cubes of a grid reaching the far corner, enlarged by half the overlap on each
    side, contain every box of the bounding box that is at most as wide as the overlap"""
    q, n, N = gq(c)
    mn, mx, s, o = c["min_corner"].z, c["max_corner"].z, c["side"], arg(c, "overlap")
    l, u, d, e = z3.Const("l", RA), z3.Const("u", RA), z3.Int("d"), z3.Int("e")
    h = HOME(mn, s, o, q, n, l, u)
    cb = (mn, s, o, q, n, h)
    reach = all_([e], z3.Implies(L.inrange(e, n), s * z3.ToReal(q[e]) >= mx[e] - mn[e]), [q[e]])
    inbox = all_([d], z3.Implies(L.inrange(d, n), z3.And(LO(*cb, d) <= l[d], u[d] <= UP(*cb, d))), [l[d], u[d], LO(*cb, d), UP(*cb, d)])
    return Lem("grid_cover", z3.Implies(z3.And(s >= 0, o >= 0, sides_ok(q, n), reach), all_(
        [l, u], z3.Implies(small_box(n, mn, mx, o, l, u), z3.And(L.inrange(h, N), inbox)), [h])))


def gc_post(c):
    res = c.result
    if not isinstance(res, VTuple) or len(res.items) != 3:
        return [("coordinates, numbers and nerve", z3.BoolVal(False))]
    LP, LS, F = [c.run.snap(x) for x in res.items]
    X, o = arg(c, "point_cloud"), arg(c, "overlap")
    if F is not c["nerve"] or not isinstance(LS, SeqOf) or not isinstance(LP, SeqOf):
        raise Unsupported("result of generate_cover")
    q, n, N = gq(c)
    S, P, mn, mx, s = c["points_IN"], c["divided_point_cloud"], c["min_corner"], c["max_corner"], c["side"]
    l, u, x, d, i = z3.Const("l", RA), z3.Const("u", RA), z3.Int("x"), z3.Int("d"), z3.Int("i")
    h = HOME(mn.z, s, o, q, n, l, u)
    D, at = fresh("widest", I), lambda d: mx.elt(d) - mn.elt(d)
    inside = all_([d], z3.Implies(L.inrange(d, n), z3.And(l[d] <= X.elt(x, d), X.elt(x, d) <= u[d])), [X.elt(x, d)])
    h1 = HOME(mn.z, s, o, q, n, X.z[x], X.z[x])
    return grid_known(c) + [
        ("the side divides the widest extent", all_([d], z3.Implies(L.inrange(d, n), s * z3.ToReal(arg(c, "max_div")) >= at(d)), None)),
        ("the side divides an extent", z3.Exists([d], z3.And(L.inrange(d, n), s * z3.ToReal(arg(c, "max_div")) == at(d)))),
        ("cubes reach the far corner", all_([d], z3.Implies(L.inrange(d, n), s * z3.ToReal(q[d]) >= at(d)), None)),
        ("a list per cube", z3.And(S.n == N, P.n == N)),
        ("a level per dimension of the nerve", z3.And(LS.n == F.n, LP.n == F.n)),
        ("a vertex of the nerve per cube", F.head == N),
        ("every point lies in a cube", all_([x], z3.Implies(L.inrange(x, X.shape[0]), z3.And(
            L.inrange(h1, N), INC(*cube(c, h1), X.z[x]), ISIN(S.get(h1).z, S.get(h1).shape[0], x))), [h1])),
        ("small sets lie in a common cube", all_([l, u, x], z3.Implies(z3.And(
            small_box(n, mn.z, mx.z, o, l, u), L.inrange(x, X.shape[0]), inside), z3.And(
                L.inrange(h, N), ISIN(S.get(h).z, S.get(h).shape[0], x))), [[h, X.z[x]]]))] + \
        all_contents(c, S, P, c.g["AT"], N) + gc_levels(c, LS, LP, F.n)


def gc_hints(c):
    return [lem_cover(c)]


contract(CO + "generate_cover", params=gc_params, requires=gc_req, ensures=gc_post, hints=gc_hints,
         loops={0: Loop(inv=gc0, havoc={"div": new_list("div"), "pos": new_list("pos")}, hints=gc0_hints,
                        init_hints=lambda c: [Lem("definition of prod", PROD(vec_of(c, "div").z, z3.IntVal(0)) == 1)]),
                1: Loop(inv=gc1, havoc=SH),
                2: Loop(inv=gc2, havoc=dict(SH, pos=new_list("pos")), init_hints=lambda c: [lem_first(*gq(c)[:2])],
                        body_hints=lambda c: [lem_at(gq(c)[0], gq(c)[1], c.it)],
                        hints=lambda c: [lem_succ(gq(c)[0], gq(c)[1], c.extra["body"]["pos"].z, c.it - 1)],
                        ghosts={"AT": (lambda c: z3.K(I, NOPOS), lambda c: z3.Store(c.g["AT"], c.it, c.extra["inner"]["at"]))}),
                3: Loop(inv=gc3, body_hints=gc3_body),
                4: Loop(inv=gc4, havoc=SH, ghosts={"at": (lambda c: NOPOS, at_step)}),
                5: Loop(inv=gc5, exit_hints=gc5_exit),
                6: Loop(inv=gc6, havoc=LH, keep=KEEP),
                7: Loop(inv=gc7, havoc=LH, keep=KEEP)})
