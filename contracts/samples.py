"""Contracts of permaviss.sample_point_clouds.examples (over the real numbers)."""
import z3
from pvc import logic as L
from pvc.vals import *
from pvc.vals import fresh, fresh_name
from pvc.models import fcos, fsin, incr_unique
from pvc.engine import contract, Loop, Lem
from .gauss import V, all_, nat

SA = "permaviss.sample_point_clouds.examples:"
AR_ = z3.ArraySort(I, RE)


def cloud(w):
    def havoc(c):
        n = fresh("len_cloud", I)
        c.run.pc.append(n >= 0)
        return c.run.new(arr_const("cloud", [n, w(c) if callable(w) else z3.IntVal(w)], RE, islist=True))
    return havoc


def rows(c, v, w):
    v = c.run.snap(v)
    if isinstance(v, PyList) and not v.items:
        return Arr([z3.IntVal(0), w], lambda i, j: z3.RealVal(0), RE)
    if not isinstance(v, Arr):
        v = c.run.models.as_array(c.run, v)
    if v.nd != 2:
        raise Unsupported("cloud")
    return v


def real(x):
    return x if x.sort() == RE else z3.ToReal(x)


def spec(pred, w, count=None):
    """(invariant, postcondition): `w` columns and pred(c, point) for every row"""
    W = (lambda c: w(c)) if callable(w) else (lambda c: z3.IntVal(w))

    def body(c, a, n):
        i = V("i")
        return [("number of points", a.shape[0] == n), ("dimension", a.shape[1] == W(c)),
                ("points in the set", all_([i], z3.Implies(L.inrange(i, n), pred(c, lambda j: real(a.elt(i, j)), a, i)),
                                           None))]

    def inv(c):
        return body(c, rows(c, c["point_cloud"], W(c)), c.it)

    def post(c):
        a = c.result
        if not isinstance(a, Arr) or a.nd != 2:
            return [("a matrix of points", z3.BoolVal(False))]
        return body(c, a, count(c) if count else c.old["no_points"])
    return inv, post


def par(c, x):
    return c.old[x] if c.old is not None else c[x]


def pos_points(c):
    return ("at least one point", c["no_points"] >= 1)


# ------------------------------------------------ circle
def on_circle(c, pt, a, i):
    r = par(c, "radius")
    return pt(0) * pt(0) + pt(1) * pt(1) == r * r


inv, post = spec(on_circle, 2)


contract(SA + "circle", params=lambda c: dict(no_points=fresh("no_points", I), radius=fresh("radius", RE)),
         requires=lambda c: [pos_points(c)], ensures=post,
         loops={0: Loop(inv=inv, havoc={"point_cloud": cloud(2)})})


# ------------------------------------------------ random_circle
def in_annulus(c, pt, a, i):
    r, e, ctr = par(c, "radius"), par(c, "epsilon"), par(c, "center")
    x, y = pt(0) - real(ctr.elt(0)), pt(1) - real(ctr.elt(1))
    d = x * x + y * y
    return z3.And(r * r <= d, d <= (r * (1 + e)) * (r * (1 + e)))


rinv, rpost = spec(in_annulus, 2)


def rc_params(c):
    run = c.run
    given = run.fork(label="seed")
    run.cache["seed given"] = given
    return dict(no_points=fresh("no_points", I), radius=fresh("radius", RE), epsilon=fresh("epsilon", RE),
                center=run.new(arr_const("center", [z3.IntVal(2)], RE, islist=True)),
                seed=fresh("seed", I) if given else NONE)


def rc_hints(c):
    r, e = par(c, "radius"), par(c, "epsilon")
    out = []
    a = rows(c, c["point_cloud"], z3.IntVal(2))
    rad = c["random_rad"] if "random_rad" in c.frame.env else None
    if rad is not None:
        out.append(("radius drawn from the annulus", z3.And(r <= rad, rad <= r * (1 + e))))
        out.append(Lem("square_mono", z3.Implies(z3.And(0 <= r, r <= rad), r * r <= rad * rad)))
        out.append(Lem("square_mono", z3.Implies(z3.And(0 <= rad, rad <= r * (1 + e)), rad * rad <= (r * (1 + e)) * (r * (1 + e)))))
    return out


contract(SA + "random_circle", params=rc_params, ensures=rpost,
         requires=lambda c: [pos_points(c), ("radius and noise not negative", z3.And(c["radius"] >= 0, c["epsilon"] >= 0))],
         loops={0: Loop(inv=rinv, hints=rc_hints, havoc={"point_cloud": cloud(2)})})


# ------------------------------------------------ random_cube
def in_cube(c, pt, a, i):
    j = V("j")
    x = real(a.elt(i, j))
    return z3.ForAll([j], z3.Implies(L.inrange(j, a.shape[1]), z3.And(x >= z3.RealVal("-1/2"), x < z3.RealVal("1/2"))))


def dimw(c):
    return par(c, "dim")


def point(c):
    n = fresh("len_point", I)
    c.run.pc.append(n >= 0)
    return c.run.new(arr_const("point", [n], RE, islist=True))


def vec(c, v):
    v = c.run.snap(v)
    if isinstance(v, PyList) and not v.items:
        return Arr([z3.IntVal(0)], lambda i: z3.RealVal(0), RE)
    return v


cinv, cpost = spec(in_cube, dimw)


def cube_inner(c):
    v = vec(c, c["point"])
    j = V("j")
    return [("coordinates so far", v.shape[0] == c.it),
            ("in the unit interval", all_([j], z3.Implies(L.inrange(j, v.shape[0]), z3.And(
                v.elt(j) >= z3.RealVal("-1/2"), v.elt(j) < z3.RealVal("1/2"))), [v.elt(j)] if v.z is not None else None))]


contract(SA + "random_cube", params=lambda c: dict(no_points=fresh("no_points", I), dim=fresh("dim", I)),
         requires=lambda c: [pos_points(c), ("dimension", c["dim"] >= 1)], ensures=cpost,
         loops={0: Loop(inv=cinv, havoc={"point_cloud": cloud(dimw), "point": point}),
                1: Loop(inv=cube_inner, havoc={"point": point})})


# ------------------------------------------------ ball, random_sphere
def zrow(c, a, i):
    """row i of the cloud as an array term"""
    m = c.run.mat(a)
    return m.z[i]


def in_ball(c, pt, a, i):
    return L.rnorm(zrow(c, a, i), par(c, "dim")) < par(c, "radius")


def on_sphere(c, pt, a, i):
    return L.rnorm(zrow(c, a, i), par(c, "dim")) == par(c, "radius")


def norm_ext(c, z, a):
    """the norm only depends on the first dim entries"""
    d = par(c, "dim")
    j = V("j")
    return Lem("norm_ext", z3.Implies(z3.ForAll([j], z3.Implies(L.inrange(j, d), z[j] == real(a.elt(j)))),
                                      L.rnorm(z, d) == L.rnorm(c.run.mat(a).z, d)))


binv, bpost = spec(in_ball, dimw)


def last_row_norm(c):
    """the norm computed in this iteration is that of the row appended"""
    a = rows(c, c["point_cloud"], dimw(c))
    out = []
    for n, v in c.run.cache.get("norms", []):
        out.append(norm_ext(c, zrow(c, a, c.it - 1), v))
    return out


def ball_inner(c):
    v = vec(c, c["point"])
    return [("coordinates so far", v.shape[0] == c.it)]


def ball_while(c):
    a = rows(c, c["point_cloud"], dimw(c))
    n = c["n"]
    ok = c["valid_point"]
    i = V("i")
    return [("one point more once accepted", a.shape[0] == z3.If(ok, n + 1, n)), ("dimension", a.shape[1] == dimw(c)),
            ("points in the ball", all_([i], z3.Implies(L.inrange(i, a.shape[0]), in_ball(c, None, a, i)), None))]


def while_hints(c):
    a = rows(c, c["point_cloud"], dimw(c))
    return [norm_ext(c, zrow(c, a, c["n"]), v) for n, v in c.run.cache.get("norms", [])]


contract(SA + "ball", params=lambda c: dict(no_points=fresh("no_points", I), radius=fresh("radius", RE), dim=fresh("dim", I)),
         requires=lambda c: [pos_points(c), ("dimension", c["dim"] >= 1)], ensures=bpost,
         loops={0: Loop(inv=binv, havoc={"point_cloud": cloud(dimw), "point": point}),
                1: Loop(inv=ball_while, hints=while_hints, havoc={"point_cloud": cloud(dimw), "point": point}),
                2: Loop(inv=ball_inner, havoc={"point": point})})


def sph_params(c):
    c.run.cache["norm positive"] = True
    return dict(no_points=fresh("no_points", I), radius=fresh("radius", RE), dim=fresh("dim", I))


sinv, spost = spec(on_sphere, dimw)


def sph_scale_inv(c):
    """coordinates below d are rescaled, the others as the loop found them"""
    v, e = vec(c, c["point"]), c.extra["entry"]["point"]
    e = vec(c, e)
    r, n = par(c, "radius"), c["norm"]
    j = V("j")
    return [("coordinates rescaled in order", z3.And(v.shape[0] == e.shape[0], e.shape[0] == dimw(c), all_([j], z3.Implies(
        L.inrange(j, v.shape[0]), v.elt(j) == z3.If(j < c.it, r * e.elt(j) / n, e.elt(j))), None)))]


def sph_hints(c):
    a = rows(c, c["point_cloud"], dimw(c))
    z, d, r = zrow(c, a, c.it - 1), par(c, "dim"), par(c, "radius")
    j = V("j")
    out = []
    for n, v in c.run.cache.get("norms", []):
        m = c.run.mat(v).z
        out.append(Lem("norm_scale", z3.Implies(
            z3.And(L.rnorm(m, d) > 0, r >= 0, z3.ForAll([j], z3.Implies(L.inrange(j, d), z[j] == r * m[j] / L.rnorm(m, d)))),
            L.rnorm(z, d) == r)))
    return out


contract(SA + "random_sphere", params=sph_params, ensures=spost,
         requires=lambda c: [pos_points(c), ("dimension", c["dim"] >= 1), ("radius not negative", c["radius"] >= 0)],
         loops={0: Loop(inv=sinv, hints=sph_hints, havoc={"point_cloud": cloud(dimw), "point": point}),
                1: Loop(inv=ball_inner, havoc={"point": point}),
                2: Loop(inv=sph_scale_inv, havoc={"point": point})})


# ------------------------------------------------ torus
TORUS = z3.Function("in_torus", RE, RE, RE, RE, RE, B)


def on_torus(c, pt, a, i):
    R, r = real(par(c, "max_rad")), real(par(c, "min_rad"))
    return TORUS(pt(0), pt(1), pt(2), R, r)


tinv, tpost = spec(on_torus, 3)


def torus_hints(c):
    """in_torus(x, y, z, R, r): (sqrt(x^2 + y^2) - R)^2 + z^2 = r^2; by the lemma
    torus_point it holds for ((R + r cos t) cos u, (R + r cos t) sin u, r sin t)"""
    a = rows(c, c["point_cloud"], z3.IntVal(3))
    R, r = real(par(c, "max_rad")), real(par(c, "min_rad"))
    x, y, z = [real(a.elt(c.it - 1, k)) for k in range(3)]
    out = []
    ang = list(c.run.cache.get("angles", {}).values())
    for t in ang:
        q = R + r * fcos(t)
        for u in ang:
            if not u.eq(t):
                out.append(Lem("torus_point", z3.Implies(z3.And(r >= 0, r <= R, x == q * fcos(u), y == q * fsin(u), z == r * fsin(t)),
                                                         TORUS(x, y, z, R, r))))
    return out


contract(SA + "torus3D", params=lambda c: dict(no_points=fresh("no_points", I), min_rad=fresh("min_rad", RE), max_rad=fresh("max_rad", RE)),
         requires=lambda c: [pos_points(c), ("radii not negative", c["min_rad"] >= 0)],
         raises={"ValueError": lambda c: par(c, "min_rad") > par(c, "max_rad")},
         ensures=tpost,
         loops={0: Loop(inv=tinv, hints=torus_hints, havoc={"point_cloud": cloud(3)})})


# ------------------------------------------------ grids
def shift(d):
    return z3.ToReal(d) / 2 - z3.RealVal("1/2")


def g2(c, a, i0, j0):
    """rows of the complete lines below i0 and of line i0 up to j0"""
    h, v = par(c, "hdiv"), par(c, "vdiv")
    i, j = V("i", "j")
    ok = z3.And(0 <= i, L.inrange(j, v), z3.Or(i < i0, z3.And(i == i0, j < j0)))
    return [("number of points", a.shape[0] == i0 * v + j0), ("dimension", a.shape[1] == 2),
            ("nodes in order", z3.ForAll([i, j], z3.Implies(ok, z3.And(
                real(a.elt(i * v + j, 0)) == z3.ToReal(i) - shift(h), real(a.elt(i * v + j, 1)) == z3.ToReal(j) - shift(v)))))]


def lin_lemma(c, v, i0, j0):
    """positions i v + j are distinct and increase (lemma row_major)"""
    i, j = V("i", "j")
    return Lem("row_major", all_([i, j], z3.Implies(
        z3.And(0 <= i0, 0 <= j0, 0 <= i, L.inrange(j, v), z3.Or(i < i0, z3.And(i == i0, j < j0))),
        z3.And(0 <= i * v + j, i * v + j < i0 * v + j0)), [i * v + j]))


def res2(c, f):
    a = c.result
    if not isinstance(a, Arr) or a.nd != 2:
        return [("a matrix of points", z3.BoolVal(False))]
    return f(a)


contract(SA + "grid", params=lambda c: dict(hdiv=fresh("hdiv", I), vdiv=fresh("vdiv", I)),
         requires=lambda c: [("at least one node", z3.And(c["hdiv"] >= 1, c["vdiv"] >= 1))],
         ensures=lambda c: res2(c, lambda a: g2(c, a, c.old["hdiv"], z3.IntVal(0))),
         loops={0: Loop(inv=lambda c: g2(c, rows(c, c["point_cloud"], z3.IntVal(2)), c.it, z3.IntVal(0)),
                        havoc={"point_cloud": cloud(2)}),
                1: Loop(inv=lambda c: g2(c, rows(c, c["point_cloud"], z3.IntVal(2)), c["i"], c.it),
                        hints=lambda c: [lin_lemma(c, par(c, "vdiv"), c["i"], c.it - 1)],
                        havoc={"point_cloud": cloud(2)})})


# ------------------------------------------------ grid_tridimensional
POS = z3.Function("pos3", I, I, I, I)      # pos3(i, j, k) = (i vdiv + j) ddiv + k


def g3_params(c):
    h, v, d = fresh("hdiv", I), fresh("vdiv", I), fresh("ddiv", I)
    i, j, k = V("i", "j", "k")
    c.run.pc.append(all_([i, j, k], POS(i, j, k) == (i * v + j) * d + k, [POS(i, j, k)]))
    return dict(hdiv=h, vdiv=v, ddiv=d)


def g3(c, a, i0, j0, k0):
    h, v, d = par(c, "hdiv"), par(c, "vdiv"), par(c, "ddiv")
    i, j, k = V("i", "j", "k")
    ok = z3.And(0 <= i, L.inrange(j, v), L.inrange(k, d),
                z3.Or(i < i0, z3.And(i == i0, z3.Or(j < j0, z3.And(j == j0, k < k0)))))
    t = lambda m: real(a.elt(POS(i, j, k), m))
    return [("number of points", a.shape[0] == (i0 * v + j0) * d + k0), ("dimension", a.shape[1] == 3),
            ("nodes in order", all_([i, j, k], z3.Implies(ok, z3.And(
                t(0) == z3.ToReal(i) - shift(h), t(1) == z3.ToReal(j) - shift(v), t(2) == z3.ToReal(k) - shift(d))), [POS(i, j, k)]))]


def lin3(c, i0, j0, k0):
    v, d = par(c, "vdiv"), par(c, "ddiv")
    i, j, k = V("i", "j", "k")
    x = POS(i, j, k)
    return Lem("row_major_3", all_([i, j, k], z3.Implies(
        z3.And(0 <= i0, 0 <= j0, 0 <= k0, 0 <= i, L.inrange(j, v), L.inrange(k, d), z3.Or(i < i0, z3.And(i == i0, z3.Or(j < j0, z3.And(j == j0, k < k0))))),
        z3.And(0 <= x, x < (i0 * v + j0) * d + k0)), [x]))


def c3(c):
    return rows(c, c["point_cloud"], z3.IntVal(3))


contract(SA + "grid_tridimensional", params=g3_params,
         requires=lambda c: [("at least one node", z3.And(c["hdiv"] >= 1, c["vdiv"] >= 1, c["ddiv"] >= 1))],
         ensures=lambda c: res2(c, lambda a: g3(c, a, c.old["hdiv"], z3.IntVal(0), z3.IntVal(0))),
         loops={0: Loop(inv=lambda c: g3(c, c3(c), c.it, z3.IntVal(0), z3.IntVal(0)), havoc={"point_cloud": cloud(3)}),
                1: Loop(inv=lambda c: g3(c, c3(c), c["i"], c.it, z3.IntVal(0)), havoc={"point_cloud": cloud(3)}),
                2: Loop(inv=lambda c: g3(c, c3(c), c["i"], c["j"], c.it),
                        hints=lambda c: [lin3(c, c["i"], c["j"], c.it - 1)],
                        havoc={"point_cloud": cloud(3)})})


# ------------------------------------------------ take_sample
MIND = z3.Function("min_dist", z3.ArraySort(I, I), I, I, RE)
ARGD = z3.Function("argmin_dist", z3.ArraySort(I, I), I, I, I)


def ts_params(c):
    run = c.run
    given = run.fork(label="seed")
    run.cache["seed given"] = given
    n, d = fresh("n", I), fresh("d", I)
    run.pc.append(z3.And(n >= 1, d >= 1))
    P = arr_const("point_cloud", [n, d], RE)
    # min_dist(s, x, j): least distance of point x to the points at s[0], ..., s[j-1]
    s = z3.Const("s", z3.ArraySort(I, I))
    x, j, i = V("x", "j", "i")
    D = lambda y: L.rdist(P.z[x], P.z[y], d)
    N = lambda y: z3.If(y < 0, y + n, y)
    m, q = MIND(s, x, j), ARGD(s, x, j)
    run.pc.append(all_([s, x, j], z3.Implies(j >= 1, z3.And(0 <= q, q < j, m == D(N(s[q])))), [m]))
    run.pc.append(all_([s, x, j, i], z3.Implies(z3.And(0 <= i, i < j), m <= D(N(s[i]))), [[m, s[i]]]))
    return dict(point_cloud=run.new(P), no_samples=fresh("no_samples", I),
                seed=fresh("seed", I) if given else NONE)


def intlist(name):
    def havoc(c):
        n = fresh("len_" + name, I)
        c.run.pc.append(n >= 0)
        return c.run.new(arr_const(name, [n], I, islist=True))
    return havoc


def ts_state(c, pts, m):
    """positions chosen (a negative one counts from the end): distinct, in range,
    their points collected, each farthest from the earlier ones"""
    P = par(c, "point_cloud")
    n, d = P.shape
    s = vec(c, c["selection"])
    if isinstance(s, PyList):
        s = c.run.mat(c.run.models.as_array(c.run, s))
    N = lambda j: z3.If(s.elt(j) < 0, s.elt(j) + n, s.elt(j))
    D = lambda x, y: L.rdist(P.z[x], P.z[y], d)
    i, j, k, x, q = V("i", "j", "k", "x", "q")
    one = [s.elt(j)] if s.z is not None else None
    return [("points chosen", z3.And(s.shape[0] == m, pts.shape[0] == m, pts.shape[1] == d)),
            ("positions in range", all_([j], z3.Implies(L.inrange(j, m), z3.And(s.elt(j) >= -1, s.elt(j) < n, z3.Implies(j > 0, s.elt(j) >= 0))), one)),
            ("distinct", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), N(i) != N(j)))),
            ("the points at these positions", z3.ForAll([j, k], z3.Implies(z3.And(L.inrange(j, m), L.inrange(k, d)), pts.elt(j, k) == P.elt(N(j), k)))),
            ("each farthest from the earlier ones", all_([j, x], z3.Implies(z3.And(1 <= j, j < m, L.inrange(x, n)),
                                                                           MIND(s.z, x, j) <= MIND(s.z, N(j), j)), [MIND(s.z, x, j)]))]


def ts_inv(c):
    return ts_state(c, rows(c, c["point_selection"], par(c, "point_cloud").shape[1]), c.it + 1)


def ts_post(c):
    a = c.result
    if not isinstance(a, Arr) or a.nd != 2:
        return [("a matrix of points", z3.BoolVal(False))]
    n, k = par(c, "point_cloud").shape[0], c.old["no_samples"]
    return [("number of points", a.shape[0] == z3.If(k < n, k, n))] + ts_state(c, a, a.shape[0])


def pigeonhole(c, s, m, n):
    """m < n distinct numbers leave out one below n"""
    i, j, x = V("i", "j", "x")
    w = fresh("left_out", I)
    c.run.cache["terms"] = [w]
    return Lem("pigeonhole", z3.Implies(z3.And(m < n, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), s(i) != s(j)))),
                                        z3.And(L.inrange(w, n), z3.ForAll([j], z3.Implies(L.inrange(j, m), s(j) != w)))))


def ts_begin(c):
    P = par(c, "point_cloud")
    n = P.shape[0]
    s = vec(c, c["selection"])
    c.run.cache["ts"] = s.z
    return [pigeonhole(c, lambda j: z3.If(s.elt(j) < 0, s.elt(j) + n, s.elt(j)), c.it + 1, n)]


def ts_hints(c):
    """the distances computed are min_dist; appending does not change it for the earlier ones"""
    P = par(c, "point_cloud")
    n = P.shape[0]
    s = vec(c, c["selection"])
    ns, rest = c.run.snap(c["not_selected"]), c.run.snap(c["rest_Dist"])
    i, j, x = V("i", "j", "x")
    s0 = c.run.cache["ts"]
    if not hasattr(ns, "setop"):
        return []
    ina, inb, idx = ns.setop
    m = c.it
    w = c.run.cache["terms"][0]
    return [Lem("definition of min_dist", all_([x, j], z3.Implies(j <= m, MIND(s.z, x, j) == MIND(s0, x, j)), [MIND(s.z, x, j)])),
            ("distances to the chosen points", all_([i], z3.Implies(L.inrange(i, ns.shape[0]), rest.elt(i) == MIND(s0, ns.elt(i), m)), [rest.elt(i)])),
            ("the largest of these", all_([i], z3.Implies(L.inrange(i, ns.shape[0]), z3.And(
                rest.elt(i) <= MIND(s0, s.elt(m), m), z3.Implies(ns.elt(i) < s.elt(m), rest.elt(i) < MIND(s0, s.elt(m), m)))), [ns.elt(i)])),
            ("the new position is not the first one counted from the end", z3.Not(z3.And(s.elt(0) == -1, s.elt(m) == n - 1))),
            ("chosen or not", all_([x], z3.Implies(L.inrange(x, n), z3.Or(inb(x), z3.And(L.inrange(idx(x), ns.shape[0]), ns.elt(idx(x)) == x, rest.elt(idx(x)) == MIND(s0, x, m)))), [MIND(s0, x, m)])),
            ("distance zero to the chosen", all_([x], z3.Implies(z3.And(L.inrange(x, n), inb(x)), MIND(s0, x, m) <= 0), [inb(x)])),
            ("the new point is farthest", all_([x], z3.Implies(L.inrange(x, n), MIND(s0, x, m) <= MIND(s0, s.elt(m), m)), [MIND(s0, x, m)]))]


contract(SA + "take_sample", params=ts_params, ensures=ts_post,
         requires=lambda c: [("at least one sample", c["no_samples"] >= 1)],
         loops={0: Loop(inv=ts_inv, body_hints=ts_begin, hints=ts_hints, havoc={"selection": intlist("selection"), "point_selection": cloud(lambda c: par(c, "point_cloud").shape[1])})})
