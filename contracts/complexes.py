"""Contracts of permaviss.simplicial_complexes."""
import z3
from pvc import logic as L
from pvc.vals import *
from pvc.vals import fresh, fresh_name
from pvc.engine import contract, Loop, Lem
from .gauss import V, all_, nat

DI = "permaviss.simplicial_complexes.differentials:"
FL = "permaviss.simplicial_complexes.flag_complex:"
VR = "permaviss.simplicial_complexes.vietoris_rips:"
AII = z3.ArraySort(I, z3.ArraySort(I, I))
IA = z3.ArraySort(I, I)


# ------------------------------------------------ lists [number, matrix, matrix, ...]
def conv_mat(run, v):
    v = run.snap(v)
    if isinstance(v, PyList) and not v.items:
        a = Arr([z3.IntVal(0), z3.IntVal(0)], lambda k, j: z3.IntVal(0), I)
        a.eml = True
        return a
    a = run.models.as_array(run, v)
    if a.nd != 2 or a.sort != I:
        raise Unsupported("matrix of a complex")
    if a.z is None:
        e = getattr(a, "eml", False)
        a = copy_arr_z(run.mat(a))
        a.eml = e
    return a


def copy_arr_z(a):
    r = Arr(a.shape, a._elt, a.sort, z=a.z, zt=a.zt)
    return r


def cpx(n, head, rows, cols, z, eml=True):
    def get(k):
        a = arr_of(z[k], [rows(k), cols(k)], I)
        a.eml = eml
        return a
    s = SeqOf(n, get)
    s.conv, s.shared, s.head = conv_mat, False, head
    return s


def new_cpx(name, head=None):
    def havoc(c):
        n = fresh("len_" + name, I)
        c.run.pc.append(n >= 0)
        r = z3.Function(fresh_name("rows_" + name), I, I)
        w = z3.Function(fresh_name("cols_" + name), I, I)
        z = fresh("m_" + name, z3.ArraySort(I, AII))
        s = cpx(n, head(c) if head else VOpaque("head"), r, w, z)
        k = V("k")
        c.run.pc.append(all_([k], z3.And(r(k) >= 0, w(k) >= 0), [r(k), w(k)]))
        return c.run.new(s)
    return havoc


def length(v):
    return z3.IntVal(len(v.items)) if isinstance(v, PyList) else v.n


# ------------------------------------------------ complex_differentials
# omitted(c, s, d): the q such that c (length d) is s (length d + 1) without entry q, or -1
OMIT = z3.Function("omitted", IA, IA, I, I)


def incr(z, n):
    a, b = V("a", "b")
    return all_([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), z[a] < z[b]), [[z[a], z[b]]])


def facet_lemmas(kind, a, b, u):
    """facet_intersection: increasing c, s of lengths d, d + 1 have d common entries iff
    c is s without an entry; facet_difference: this entry is then the only one of s not in c"""
    out = []
    if a.z is None or b.z is None:
        return out
    if kind == "inter":
        for c, s in ((a, b), (b, a)):
            d = c.shape[0]
            out.append(Lem("facet_intersection", z3.Implies(z3.And(s.shape[0] == d + 1, incr(c.z, d), incr(s.z, d + 1)),
                                                            (u.shape[0] == d) == (OMIT(c.z, s.z, d) >= 0))))
    if kind == "diff":
        s, c, d = a, b, b.shape[0]
        q = OMIT(c.z, s.z, d)
        out.append(Lem("facet_difference", z3.Implies(z3.And(s.shape[0] == d + 1, incr(c.z, d), incr(s.z, d + 1), q >= 0),
                                                      z3.And(u.shape[0] == 1, u.elt(0) == s.z[q]))))
    return out


def cd_params(c):
    run = c.run
    n0, dim, p = nat(c, "n0"), fresh("dim", I), fresh("p", I)
    rows = z3.Function(fresh_name("rows_C"), I, I)
    z = fresh("C", z3.ArraySort(I, AII))
    k, i, a, b = V("k", "i", "a", "b")
    run.pc.append(dim >= 1)
    run.pc.append(all_([k], rows(k) >= 0, [rows(k)]))
    run.cache["setop hook"] = facet_lemmas
    cz, sz, d = z3.Const("c", IA), z3.Const("s", IA), V("d")
    q = OMIT(cz, sz, d)
    run.pc.append(all_([cz, sz, d], z3.And(-1 <= q, q <= d), [q]))
    C = cpx(dim + 1, n0, rows, lambda k: k + 1, z)
    return dict(C=run.new(C), p=p)


def cd_req(c):
    C = c["C"]
    k, i, a, b = V("k", "i", "a", "b")
    m = C.get(k)
    e = C.get(z3.IntVal(1))
    return [("modulus", c["p"] >= 2),
            ("simplices are rows of increasing vertices", all_([k, i, a, b], z3.Implies(
                z3.And(1 <= k, k < C.n, L.inrange(i, m.shape[0]), 0 <= a, a < b, b < k + 1), m.elt(i, a) < m.elt(i, b)),
                [[m.elt(i, a), m.elt(i, b)]])),
            ("edges join vertices", all_([i, a], z3.Implies(z3.And(L.inrange(i, e.shape[0]), L.inrange(a, z3.IntVal(2))),
                                                            L.inrange(e.elt(i, a), C.head)), [e.elt(i, a)]))]


def coef(C, p, d, j, i):
    """coefficient of the face j in the boundary of the d-simplex i"""
    q = OMIT(C.get(d - 1).z[j], C.get(d).z[i], d)
    return z3.If(q >= 0, z3.If(q % 2 == 0, z3.IntVal(1), p - 1), z3.IntVal(0))


def coef1(C, p, v, i):
    e = C.get(z3.IntVal(1))
    return z3.If(v == e.elt(i, 0), z3.IntVal(1), z3.If(v == e.elt(i, 1), p - 1, z3.IntVal(0)))


def arg(c, nm):
    return c.old[nm] if c.old is not None else c[nm]


def d1_done(c, D, upto=None):
    """the first differential is right in the columns below upto (all of them), zero in the others"""
    C, p = arg(c, "C"), arg(c, "p")
    m = D.get(z3.IntVal(1))
    e = C.get(z3.IntVal(1))
    v, i = V("v", "i")
    val = coef1(C, p, v, i)
    if upto is not None:
        val = z3.If(i < upto, val, 0)
    return [("shape of the first differential", z3.And(m.shape[0] == C.head, m.shape[1] == e.shape[0])),
            ("first differential", all_([v, i], z3.Implies(z3.And(L.inrange(v, C.head), L.inrange(i, e.shape[0])), m.elt(v, i) == val),
                                        None))]


def dk_done(c, D, upto):
    C, p = arg(c, "C"), arg(c, "p")
    k, j, i = V("k", "j", "i")
    m = D.get(k)
    return [("shapes", all_([k], z3.Implies(z3.And(2 <= k, k < upto), z3.And(
        m.shape[0] == C.get(k - 1).shape[0], m.shape[1] == C.get(k).shape[0])), None)),
        ("boundary coefficients", z3.ForAll([k, j, i], z3.Implies(
            z3.And(2 <= k, k < upto, L.inrange(j, C.get(k - 1).shape[0]), L.inrange(i, C.get(k).shape[0])),
            m.elt(j, i) == coef(C, p, k, j, i))))]


def head_ok(c, D):
    return ("number of vertices first", D.head == arg(c, "C").head if is_z(D.head) else z3.BoolVal(False))


def cd_post(c):
    D = c.result
    C = arg(c, "C")
    if not isinstance(D, SeqOf) or not hasattr(D, "head"):
        return [("list of differentials", z3.BoolVal(False))]
    return [("length", D.n == C.n), head_ok(c, D)] + d1_done(c, D) + dk_done(c, D, C.n)


def in_d(c):
    """state while the columns of the differential d are computed"""
    D, C = c["D"], arg(c, "C")
    return [("length", D.n == C.n), head_ok(c, D)] + d1_done(c, D) + dk_done(c, D, c["d"])


def dd(c, done, part=None):
    """the differential d: columns below done right, part: (column, f(row)) of a partial one, others zero"""
    D, C, d, p = c["D"], arg(c, "C"), c["d"], arg(c, "p")
    m = D.get(d)
    r, i = V("r", "i")
    val = z3.If(i < done, coef(C, p, d, r, i), z3.If(i == part[0], part[1](r), 0) if part else 0)
    return [("shape", z3.And(m.shape[0] == C.get(d - 1).shape[0], m.shape[1] == C.get(d).shape[0])),
            ("columns", z3.ForAll([r, i], z3.Implies(z3.And(L.inrange(r, C.get(d - 1).shape[0]), L.inrange(i, C.get(d).shape[0])),
                                                     m.elt(r, i) == val)))]


def ints(name):
    def havoc(c):
        n = fresh("len_" + name, I)
        c.run.pc.append(n >= 0)
        return c.run.new(arr_const(name, [n], I, islist=True))
    return havoc


def ivec(c, nm):
    v = c[nm]
    if isinstance(v, PyList):
        return Arr([z3.IntVal(0)], lambda i: z3.IntVal(0), I) if not v.items else c.run.mat(c.run.models.as_array(c.run, v))
    return v


def faces_state(c, upto, pos):
    """im lists the faces below upto, pos(j) the place of j in it; signs their signs"""
    C, d, i = arg(c, "C"), c["d"], c["i"]
    im, sg = ivec(c, "im"), ivec(c, "signs")
    om = lambda j: OMIT(C.get(d - 1).z[j], C.get(d).z[i], d)
    k, j = V("k", "j")
    n = im.shape[0]
    return [("lists of equal length", sg.shape[0] == n),
            ("only faces", all_([k], z3.Implies(L.inrange(k, n), z3.And(
                L.inrange(im.elt(k), upto), om(im.elt(k)) >= 0, pos[im.elt(k)] == k,
                sg.elt(k) == z3.If(om(im.elt(k)) % 2 == 0, 1, -1))), [im.elt(k)] if im.z is not None else None)),
            ("all faces", all_([j], z3.Implies(z3.And(L.inrange(j, upto), om(j) >= 0), z3.And(
                L.inrange(pos[j], n), im.elt(pos[j]) == j)), [om(j), pos[j]]))]


def pos_step(c):
    n0 = c.extra["body"]["im"]
    n0 = z3.IntVal(len(n0.items)) if isinstance(n0, PyList) else n0.shape[0]
    n1 = ivec(c, "im").shape[0]
    return z3.If(n1 > n0, z3.Store(c.g["pos"], c.it, n0), c.g["pos"])


def l4_hints(c):
    C, d, i, j = arg(c, "C"), c["d"], c["i"], c.it - 1
    om = OMIT(C.get(d - 1).z[j], C.get(d).z[i], d)
    return [("position of the omitted vertex", z3.Implies(om >= 0, k == om)) for k in c.run.cache.get("searches", [])]


def l5_inv(c):
    C, d, i, p = arg(c, "C"), c["d"], c["i"], arg(c, "p")
    pos = c.g["pos"]
    om = lambda j: OMIT(C.get(d - 1).z[j], C.get(d).z[i], d)
    return in_d(c) + dd(c, i, (i, lambda r: z3.If(z3.And(om(r) >= 0, pos[r] < c.it), coef(C, p, d, r, i), 0)))


DH = {"D": new_cpx("D", lambda c: arg(c, "C").head)}

contract(DI + "complex_differentials", params=cd_params, requires=cd_req, ensures=cd_post,
         loops={0: Loop(inv=lambda c: [("length", length(c["D"]) == c.it)], havoc={"D": new_cpx("D")}),
                1: Loop(inv=lambda c: [("length", c["D"].n == arg(c, "C").n), head_ok(c, c["D"])] + d1_done(c, c["D"], c.it),
                        havoc=DH),
                2: Loop(inv=lambda c: [("length", c["D"].n == arg(c, "C").n), head_ok(c, c["D"])] + d1_done(c, c["D"]) +
                        dk_done(c, c["D"], c.it + 2), havoc=DH),
                3: Loop(inv=lambda c: in_d(c) + dd(c, c.it), havoc=dict(DH, im=ints("im"), signs=ints("signs"))),
                4: Loop(inv=lambda c: faces_state(c, c.it, c.g["pos"]), ghosts={"pos": (lambda c: z3.K(I, z3.IntVal(-1)), pos_step)},
                        hints=l4_hints, havoc={"im": ints("im"), "signs": ints("signs")}),
                5: Loop(inv=l5_inv, havoc=DH)})


# ------------------------------------------------ graphs
# edge(G, n, a, b): one of the first n rows of G is (a, b)
EDGE = z3.Function("edge", AII, I, I, I, B)
EW = z3.Function("edge_row", AII, I, I, I, I)
# index(z, n, x): a position below n of x in z, if there is one
INDEX = z3.Function("index", IA, I, I, I)
# common(G, m, z, w, n): n is joined by edges (n, z[t]) to the first w entries of z (w >= 1)
CN = z3.Function("common", AII, I, IA, I, I, B)
CNW = z3.Function("not_common", AII, I, IA, I, I, I)


def graph_axioms(run):
    g, m, a, b, e = z3.Const("g", AII), z3.Int("m"), z3.Int("a"), z3.Int("b"), z3.Int("e")
    ed, w = EDGE(g, m, a, b), EW(g, m, a, b)
    run.pc.append(all_([g, m, a, b, e], z3.Implies(z3.And(0 <= e, e < m, g[e][0] == a, g[e][1] == b), ed), [[ed, g[e]]]))
    run.pc.append(all_([g, m, a, b], z3.Implies(ed, z3.And(0 <= w, w < m, g[w][0] == a, g[w][1] == b)), [ed, w]))
    z, n, x, k = z3.Const("z", IA), z3.Int("n"), z3.Int("x"), z3.Int("k")
    ix = INDEX(z, n, x)
    run.pc.append(all_([z, n, x, k], z3.Implies(z3.And(0 <= k, k < n, z[k] == x), z3.And(0 <= ix, ix < n, z[ix] == x)),
                       [[ix, z[k]]]))
    w, t = z3.Int("w"), z3.Int("t")
    cn = CN(g, m, z, w, x)
    wt = CNW(g, m, z, w, x)
    run.pc.append(all_([g, m, z, w, x, t], z3.Implies(z3.And(cn, 0 <= t, t < w), EDGE(g, m, x, z[t])), [[cn, z[t]]]))
    run.pc.append(all_([g, m, z, w, x], z3.Implies(z3.Not(cn), z3.And(0 <= wt, wt < w, z3.Not(EDGE(g, m, x, z[wt])))), [cn]))


def is_graph(G):
    i = V("i")
    return all_([i], z3.Implies(L.inrange(i, G.shape[0]), G.elt(i, 0) < G.elt(i, 1)), [G.z[i]])


def ln_params(c):
    graph_axioms(c.run)
    n = nat(c, "edges")
    return dict(G=c.run.new(arr_const("G", [n, z3.IntVal(2)], I)), u=fresh("u", I))


def ln_state(c, v, src, at, upto):
    G, u = arg(c, "G"), arg(c, "u")
    k, e = V("k", "e")
    n = v.shape[0]
    return [("only neighbours", all_([k], z3.Implies(L.inrange(k, n), z3.And(
        L.inrange(src[k], upto), G.elt(src[k], 0) == v.elt(k), G.elt(src[k], 1) == u)), [v.elt(k)] if v.z is not None else None)),
        ("all neighbours", all_([e], z3.Implies(z3.And(L.inrange(e, upto), G.elt(e, 1) == u), z3.And(
            L.inrange(at[e], n), v.elt(at[e]) == G.elt(e, 0))), [G.z[e]]))]


def grown(c, nm):
    n0 = c.extra["body"][nm]
    n0 = z3.IntVal(len(n0.items)) if isinstance(n0, PyList) else n0.shape[0]
    return ivec(c, nm).shape[0] > n0, n0


def nb_set(N, G, member):
    """N: increasing, its members the x with member(x)"""
    k, x, a, b = V("k", "x", "a", "b")
    n = N.shape[0]
    ix = INDEX(N.z, n, x)
    m = member(x)
    return [("increasing", all_([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), N.elt(a) < N.elt(b)), [[N.elt(a), N.elt(b)]])),
            ("only neighbours", all_([k], z3.Implies(L.inrange(k, n), member(N.elt(k))), [N.elt(k)])),
            ("all neighbours", all_([x], z3.Implies(m, z3.And(L.inrange(ix, n), N.elt(ix) == x)), [m]))]


def ln_post(c):
    N, G, u = c.result, arg(c, "G"), arg(c, "u")
    if isinstance(N, PyList) or not isinstance(N, Arr) or N.nd != 1:
        return [("a list of vertices", z3.BoolVal(False))]
    if N.sort == RE:
        N0 = N
        N = Arr(N.shape, lambda i: z3.ToInt(N0.elt(i)), I)
    N = c.run.mat(N)
    return nb_set(N, G, lambda x: EDGE(G.z, G.shape[0], x, u))


def ln_hints(c):
    """for the rows of G used as witnesses"""
    N, G, u = c.result, arg(c, "G"), arg(c, "u")
    out = []
    return out


contract(FL + "_lower_neighbours", params=ln_params,
         requires=lambda c: [("edges with the smaller vertex first", is_graph(c["G"]))],
         result=lambda c: arr_const("N", [nat(c, "len_N")], I), ensures=ln_post,
         loops={0: Loop(inv=lambda c: ln_state(c, ivec(c, "lower_neighbours"), c.g["src"], c.g["at"], c.it),
                        havoc={"lower_neighbours": ints("lower_neighbours")},
                        ghosts={"src": (lambda c: z3.K(I, z3.IntVal(0)),
                                        lambda c: z3.Store(c.g["src"], grown(c, "lower_neighbours")[1], c.it)),
                                "at": (lambda c: z3.K(I, z3.IntVal(0)),
                                       lambda c: z3.Store(c.g["at"], c.it, grown(c, "lower_neighbours")[1]))})})


# ------------------------------------------------ flag_complex
def slot_get(a, k):
    """slots above 1 hold the empty list as long as there is no simplex, then a matrix"""
    a = copy_arr_z(a)
    a.eml, a.exact = True, zint(k) >= 2
    return a


def nonempty_at(run, v, i):
    if not (getattr(v, "eml", False) and z3.is_int_value(z3.simplify(v.shape[0]))):
        run.oblige("only matrices with rows replace the empty list", z3.Implies(i >= 2, v.shape[0] > 0))


def new_flag(c):
    ref = new_cpx("F", lambda c: arg(c, "no_vertices"))(c)
    s = c.run.heap[ref.id]
    g0 = s.get
    s.get = lambda k: slot_get(g0(k), k)
    s.conv_at, s.wrapget = nonempty_at, slot_get
    return ref


def fl_params(c):
    graph_axioms(c.run)
    c.run.cache["setop hook"] = inter_hook
    n = nat(c, "edges")
    return dict(G=c.run.new(arr_const("G", [n, z3.IntVal(2)], I)), no_vertices=nat(c, "no_vertices"), max_dim=fresh("max_dim", I))


def cnb(c, low, q, n, d):
    """n is a common lower neighbour of the d-simplex q"""
    G = arg(c, "G")
    return CN(G.z, G.shape[0], low.z[q], d + 1, n)


def ext_of(c, low, up, d, par, pos, upto, nrows=None):
    """the rows of up are the (n, s): s one of the first upto rows of low (d-simplices),
    n a common lower neighbour of s; par(r): the s of row r, pos(s, n): its row"""
    R = up.shape[0]
    r, t, q, n = V("r", "t", "q", "n")
    pr = par[r]
    mem = cnb(c, low, q, n, d)
    return [("rows extend simplices by a common lower neighbour", all_([r], z3.Implies(L.inrange(r, R), z3.And(
        L.inrange(pr, upto), cnb(c, low, pr, up.elt(r, 0), d), pos[pr][up.elt(r, 0)] == r)), [up.z[r]])),
        ("vertices of the simplex extended", all_([r, t], z3.Implies(z3.And(L.inrange(r, R), 0 <= t, t <= d),
                                                                  up.elt(r, t + 1) == low.elt(pr, t)), [[up.z[r], low.elt(pr, t)]])),
        ("all extensions, once", all_([q, n], z3.Implies(z3.And(L.inrange(q, upto), mem), z3.And(
            L.inrange(pos[q][n], R), par[pos[q][n]] == q, up.elt(pos[q][n], 0) == n)), [mem]))]


def fl_levels(c, F, upto, PAR, POSN):
    """slots 2, ..., upto - 1 are extensions of the previous ones"""
    G = arg(c, "G")
    k = V("k")
    one = F.get(z3.IntVal(1))
    low, up = F.get(k - 1), F.get(k)
    out = [("length", F.n == arg(c, "max_dim") + 1), head_fl(c, F),
           ("the edges", z3.And(one.shape[0] == G.shape[0], one.shape[1] == 2, one.z == G.z)),
           ("number of vertices of the simplices", all_([k], z3.Implies(z3.And(1 <= k, k < upto), z3.Implies(
               F.get(k).shape[0] > 0, F.get(k).shape[1] == k + 1)), None))]
    for nm, f in ext_of(c, low, up, k - 1, PAR[k], POSN[k], low.shape[0]):
        out.append((nm, quant(k, z3.And(2 <= k, k < upto), f)))
    r, t = V("r", "t")
    out.append(("simplices of vertices", all_([k, r, t], z3.Implies(z3.And(1 <= k, k < upto, L.inrange(r, up.shape[0]), 0 <= t, t <= k),
                                                                    L.inrange(up.elt(r, t), arg(c, "no_vertices"))), [up.elt(r, t)])))
    return out


def in_vertices(c, up, d):
    r, t = V("r", "t")
    return [("new simplices of vertices", all_([r, t], z3.Implies(z3.And(L.inrange(r, up.shape[0]), 0 <= t, t <= d),
                                                                  L.inrange(up.elt(r, t), arg(c, "no_vertices"))), [up.elt(r, t)]))]


def edges_in(G, n):
    i, t = V("i", "t")
    return all_([i], z3.Implies(L.inrange(i, G.shape[0]), z3.And(L.inrange(G.elt(i, 0), n), L.inrange(G.elt(i, 1), n))), [G.z[i]])


def quant(k, guard, f):
    """forall k: guard -> f, for a quantified f, as one quantifier"""
    n = f.num_vars()
    vs = [z3.Const(fresh_name(f.var_name(i)), f.var_sort(i)) for i in range(n)]
    sub = list(reversed(vs))
    body = z3.substitute_vars(f.body(), *sub)
    pats = []
    for i in range(f.num_patterns()):
        p = f.pattern(i)
        pats.append([z3.substitute_vars(p.arg(j), *sub) for j in range(p.num_args())])
    ok = [p for p in pats if all(covered(k, p) for _ in [0])]
    return all_([k] + vs, z3.Implies(guard, body), ok or None)


def covered(k, pat):
    seen = []

    def go(t):
        if t.eq(k):
            seen.append(t)
        for c in t.children():
            go(c)
    for t in pat:
        go(t)
    return bool(seen)


def head_fl(c, F):
    return ("number of vertices first", F.head == arg(c, "no_vertices") if is_z(F.head) else z3.BoolVal(False))


def fl_rest_empty(F, frm):
    k = V("k")
    return [("higher slots still empty", all_([k], z3.Implies(z3.And(frm <= k, k < F.n), F.get(k).shape[0] == 0), None))]


def fl1_inv(c):
    F = c["fl_cpx"]
    return fl_levels(c, F, c.it + 2, c.g["PAR"], c.g["POSN"]) + fl_rest_empty(F, c.it + 2)


def fl2_inv(c):
    F, d = c["fl_cpx"], c["d"]
    up = F.get(d + 1)
    E = c.extra["entry"]["fl_cpx"].get(d)
    L0 = F.get(d)
    keep = [("the simplices extended are kept", z3.And(L0.z == E.z, L0.shape[0] == E.shape[0], L0.shape[1] == E.shape[1]))]
    return keep + fl_levels(c, F, d + 1, c.g["PAR"], c.g["POSN"]) + fl_rest_empty(F, d + 2) + \
        [("width", z3.Implies(up.shape[0] > 0, up.shape[1] == d + 2))] + in_vertices(c, up, d + 1) + \
        ext_of(c, F.get(d), up, d, c.g["par"], c.g["pos"], c.it)


def fl3_inv(c):
    G, s = arg(c, "G"), c["simplex"]
    N = c.run.mat(c["N"])
    return nb_set(N, G, lambda x: CN(G.z, G.shape[0], s.z, c.it + 1, x))


def fl3_hints(c):
    """c.it: already the next one"""
    G, s, x = arg(c, "G"), c["simplex"], V("x")
    cn = lambda w: CN(G.z, G.shape[0], s.z, w, x)
    return [("common to all is common to fewer", all_([x], z3.Implies(cn(c.it + 1), cn(c.it)), [cn(c.it + 1)])),
            ("common to all is a neighbour of the last", all_([x], z3.Implies(cn(c.it + 1), EDGE(G.z, G.shape[0], x, s.z[c.it])), [cn(c.it + 1)]))]


def inter_hook(kind, a, b, u):
    """what has a position in both has one in the intersection"""
    if kind == "filter" and a.z is not None and a.sort == I:
        x = V("x")
        cond, sel, pos = u.filter
        ia, iu = INDEX(a.z, a.shape[0], x), INDEX(u.z, u.shape[0], x)
        return [("positions in the filtered list", all_([x], z3.Implies(
            z3.And(L.inrange(ia, a.shape[0]), a.elt(ia) == x, cond(ia)), z3.And(
                L.inrange(pos(ia), u.shape[0]), u.elt(pos(ia)) == x, L.inrange(iu, u.shape[0]), u.elt(iu) == x)), [iu]))]
    if kind != "inter" or a.z is None or b.z is None or a.sort != I:
        return []
    x = V("x")
    n = u.shape[0]
    ia, ib = INDEX(a.z, a.shape[0], x), INDEX(b.z, b.shape[0], x)
    iu = INDEX(u.z, n, x)
    at = lambda v, i: z3.And(L.inrange(i, v.shape[0]), v.elt(i) == x)
    return [("positions in the intersection", all_([x], z3.Implies(z3.And(at(a, ia), at(b, ib)), at(u, iu)), [iu]))]


def batch(c):
    """rows before this iteration, and the neighbours appended in it"""
    d = c["d"]
    return c.extra["body"]["fl_cpx"].get(d + 1).shape[0], c.run.mat(c["N"])


def par_step(c):
    base, N = batch(c)
    a = fresh("par", IA)
    r = V("r")
    c.run.pc.append(all_([r], a[r] == z3.If(r >= base, c.it, c.g["par"][r]), [a[r]]))
    return a


def posn_step(c):
    base, N = batch(c)
    a = fresh("posq", IA)
    n = V("n")
    c.run.pc.append(all_([n], a[n] == base + INDEX(N.z, N.shape[0], n), [a[n]]))
    return z3.Store(c.g["pos"], c.it, a)


def newN(c):
    return c.run.new(arr_const("N", [nat(c, "len_N")], I))


AIII = z3.ArraySort(I, AII)
FH = {"fl_cpx": new_flag}
zero1, zero2 = z3.K(I, z3.IntVal(0)), z3.K(I, z3.K(I, z3.IntVal(0)))


def fl_post(c):
    F = c.result
    if isinstance(F, PyList):
        return [("dimension zero", z3.BoolVal(len(F.items) == 1 and is_z(F.items[0]) and F.items[0].eq(arg(c, "no_vertices"))))]
    if getattr(c, "call", False):
        F.par, F.posn = fresh("PAR", AII), fresh("POSN", AIII)
        top = arg(c, "max_dim") >= 1
        return [("length", F.n == arg(c, "max_dim") + 1), head_fl(c, F)] + \
            [(nm, z3.Implies(top, f)) for nm, f in fl_levels(c, F, arg(c, "max_dim") + 1, F.par, F.posn)]
    g = c.frame.ghosts if hasattr(c.frame, "ghosts") else {}
    if "PAR" not in g:
        return [("length", F.n == arg(c, "max_dim") + 1), ("dimension zero", arg(c, "max_dim") == 0), head_fl(c, F)]
    return fl_levels(c, F, arg(c, "max_dim") + 1, g["PAR"], g["POSN"])


contract(FL + "flag_complex", params=fl_params, raises={"ValueError": lambda c: arg(c, "max_dim") < 0},
         requires=lambda c: [("edges with the smaller vertex first", is_graph(c["G"])),
                             ("edges between vertices", edges_in(c["G"], c["no_vertices"]))],
         result=new_flag, ensures=fl_post,
         loops={0: Loop(inv=lambda c: [("length", length(c["fl_cpx"]) == c.it)] + (fl_rest_empty(c["fl_cpx"], z3.IntVal(1)) if isinstance(c["fl_cpx"], SeqOf) else []),
                        havoc=FH),
                1: Loop(inv=fl1_inv, havoc=FH, ghosts={
                    "PAR": (lambda c: z3.K(I, zero1), lambda c: z3.Store(c.g["PAR"], c["d"] + 1, c.extra["inner"]["par"])),
                    "POSN": (lambda c: z3.K(I, zero2), lambda c: z3.Store(c.g["POSN"], c["d"] + 1, c.extra["inner"]["pos"]))}),
                2: Loop(inv=fl2_inv, havoc=dict(FH, N=newN), ghosts={
                    "par": (lambda c: zero1, par_step), "pos": (lambda c: zero2, posn_step)}),
                3: Loop(inv=fl3_inv, havoc={"N": newN}, hints=fl3_hints)})


# ------------------------------------------------ vietoris_rips
def distinct_edges(G):
    """the row of an edge is determined by its vertices"""
    e = V("e")
    return all_([e], z3.Implies(L.inrange(e, G.shape[0]), EW(G.z, G.shape[0], G.elt(e, 0), G.elt(e, 1)) == e), [G.z[e]])


def nb_once(N, member):
    """N: each x with member(x) once"""
    k, x = V("k", "x")
    n = N.shape[0]
    ix = INDEX(N.z, n, x)
    m = member(x)
    return [("only neighbours, once", all_([k], z3.Implies(L.inrange(k, n), z3.And(
        member(N.elt(k)), INDEX(N.z, n, N.elt(k)) == k)), [N.elt(k)])),
        ("all neighbours", all_([x], z3.Implies(m, z3.And(L.inrange(ix, n), N.elt(ix) == x)), [m]))]


def vln_post(c):
    N, G, u = c.result, arg(c, "G"), arg(c, "u")
    if isinstance(N, PyList) and not N.items:
        N = Arr([z3.IntVal(0)], lambda i: z3.IntVal(0), I)
    if not isinstance(N, Arr) or N.nd != 1 or N.sort != I:
        return [("a list of vertices", z3.BoolVal(False))]
    N = c.run.mat(N)
    return nb_once(N, lambda x: EDGE(G.z, G.shape[0], x, u))


def vln_inv(c):
    k = V("k")
    v = ivec(c, "lower_neighbours")
    return ln_state(c, v, c.g["src"], c.g["at"], c.it) + [
        ("positions", all_([k], z3.Implies(L.inrange(k, v.shape[0]), z3.And(
            L.inrange(c.g["src"][k], c.it), c.g["at"][c.g["src"][k]] == k)), [c.g["src"][k]]))]


contract(VR + "_lower_neighbours", params=ln_params,
         requires=lambda c: [("edges with the smaller vertex first", is_graph(c["G"])), ("edges once", distinct_edges(c["G"]))],
         result=lambda c: arr_const("N", [nat(c, "len_N")], I, islist=True), ensures=vln_post,
         loops={0: Loop(inv=vln_inv,
                        havoc={"lower_neighbours": ints("lower_neighbours")},
                        ghosts={"src": (lambda c: z3.K(I, z3.IntVal(0)),
                                        lambda c: z3.Store(c.g["src"], grown(c, "lower_neighbours")[1], c.it)),
                                "at": (lambda c: z3.K(I, z3.IntVal(0)),
                                       lambda c: z3.Store(c.g["at"], c.it, grown(c, "lower_neighbours")[1]))})})


# maxrad(D, z, w, n, b): the maximum of b and of the D[z[t]][n], t < w
ARR = z3.ArraySort(I, z3.ArraySort(I, RE))
RA = z3.ArraySort(I, RE)
MX = z3.Function("maxrad", ARR, IA, I, I, RE, RE)
MXW = z3.Function("maxrad_at", ARR, IA, I, I, RE, I)


def maxrad_axioms(run):
    D, z, w, n, b, t = z3.Const("D", ARR), z3.Const("z", IA), z3.Int("w"), z3.Int("n"), z3.Real("b"), z3.Int("t")
    m, at = MX(D, z, w, n, b), MXW(D, z, w, n, b)
    run.pc.append(all_([D, z, w, n, b], z3.And(m >= b, z3.Or(m == b, z3.And(0 <= at, at < w, m == D[z[at]][n]))), [m]))
    run.pc.append(all_([D, z, w, n, b, t], z3.Implies(z3.And(0 <= t, t < w), m >= D[z[t]][n]), [[m, z[t]]]))


def conv_rows(run, v):
    v = run.snap(v)
    if isinstance(v, PyList) and not v.items:
        return Arr([z3.IntVal(0), z3.IntVal(0)], lambda k, j: z3.IntVal(0), I, z=z3.K(I, z3.K(I, z3.IntVal(0))), islist=True)
    a = run.models.as_array(run, v)
    if a.nd != 2 or a.sort != I:
        raise Unsupported("matrix of a complex")
    return keep_list(run, a)


def conv_radii(run, v):
    v = run.snap(v)
    if isinstance(v, PyList) and not v.items:
        return Arr([z3.IntVal(0)], lambda k: z3.RealVal(0), RE, z=z3.K(I, z3.RealVal(0)), islist=True)
    a = run.models.as_array(run, v)
    if a.nd == 1 and a.sort == I:
        b = a
        a = Arr(b.shape, lambda i: z3.ToReal(b.elt(i)), RE, islist=b.islist)
    if a.nd != 1 or a.sort != RE:
        raise Unsupported("radii of a complex")
    return keep_list(run, a)


def keep_list(run, a):
    from pvc.engine import lst_of
    l = lst_of(a)
    r = copy_arr_z(a if a.z is not None else run.mat(a))
    r.lst, r.islist = l, z3.is_true(l)
    return r


def new_slots(name, conv, nd, head=None):
    def havoc(c):
        n = fresh("len_" + name, I)
        c.run.pc.append(n >= 0)
        dims = [z3.Function(fresh_name("dim%d_%s" % (i, name)), I, I) for i in range(nd)]
        ls = z3.Function(fresh_name("list_" + name), I, B)
        z = fresh("m_" + name, z3.ArraySort(I, AII if nd == 2 else RA))
        k = V("k")
        for f in dims:
            c.run.pc.append(all_([k], f(k) >= 0, [f(k)]))

        def get(k):
            a = arr_of(z[k], [f(k) for f in dims], I if nd == 2 else RE)
            a.lst = ls(k)
            return a
        s = SeqOf(n, get)
        s.conv, s.shared = conv, False
        if nd == 2:
            s.head = head(c) if head else VOpaque("head")
        return c.run.new(s)
    return havoc


def points(c):
    return arg(c, "Dist").shape[0]


CH = {"C": new_slots("C", conv_rows, 2, points), "R": new_slots("R", conv_radii, 1)}
CH0 = {"C": new_slots("C", conv_rows, 2), "R": new_slots("R", conv_radii, 1)}


def vr_params(c):
    graph_axioms(c.run)
    maxrad_axioms(c.run)
    c.run.cache["setop hook"] = inter_hook
    n = nat(c, "points")
    return dict(Dist=c.run.new(arr_const("Dist", [n, n], RE)), max_r=fresh("max_r", RE), max_dim=fresh("max_dim", I))


def vr_dim(c):
    m = arg(c, "max_dim")
    return z3.If(m < 1, z3.IntVal(1), m)


def vr_base(c):
    """lengths, vertices"""
    C, R = c["C"], c["R"]
    j = V("j")
    r0 = R.get(z3.IntVal(0))
    return [("lengths", z3.And(C.n == vr_dim(c) + 1, R.n == C.n)),
            ("number of vertices first", C.head == points(c) if is_z(C.head) else z3.BoolVal(False)),
            ("vertices are born at zero", z3.And(r0.shape[0] == points(c), z3.Not(lst(r0)), all_([j], z3.Implies(
                L.inrange(j, points(c)), r0.elt(j) == 0), None)))]


def lst(a):
    from pvc.engine import lst_of
    return lst_of(a)


def vr_rest(c, frm):
    C, R = c["C"], c["R"]
    k = V("k")
    return [("higher slots still empty lists", all_([k], z3.Implies(z3.And(frm <= k, k < C.n), z3.And(
        C.get(k).shape[0] == 0, lst(C.get(k)), R.get(k).shape[0] == 0, lst(R.get(k)))), None))]


def before(i, j, b, a):
    return z3.And(0 <= a, a < b, z3.Or(b < i, z3.And(b == i, a < j)))


def vr_edges(c, C1, R1, EP, i, j):
    """C1, R1: the edges among the pairs before (i, j)"""
    D, r = arg(c, "Dist"), arg(c, "max_r")
    e, a, b = V("e", "a", "b")
    x, y = C1.elt(e, 0), C1.elt(e, 1)
    m = C1.shape[0]
    ep = EP[b][a]
    return [("as many radii as edges", z3.And(R1.shape[0] == m, z3.Implies(m > 0, C1.shape[1] == 2))),
            ("only edges", all_([e], z3.Implies(L.inrange(e, m), z3.And(
                before(i, j, y, x), D.elt(y, x) < r, R1.elt(e) == D.elt(y, x), EP[y][x] == e)), [C1.z[e]])),
            ("all edges", all_([a, b], z3.Implies(z3.And(before(i, j, b, a), D.elt(b, a) < r), z3.And(
                L.inrange(ep, m), C1.elt(ep, 0) == a, C1.elt(ep, 1) == b)), [ep, D.elt(b, a)]))]


def vr1_inv(c):
    C, R = c["C"], c["R"]
    one = z3.IntVal(1)
    return vr_base(c) + vr_rest(c, z3.IntVal(2)) + [("lists", z3.And(lst(C.get(one)), lst(R.get(one))))] + \
        vr_edges(c, C.get(one), R.get(one), c.g["EP"], c.it, z3.IntVal(0))


def vr2_inv(c):
    C, R = c["C"], c["R"]
    one = z3.IntVal(1)
    return vr_base(c) + vr_rest(c, z3.IntVal(2)) + [("lists", z3.And(lst(C.get(one)), lst(R.get(one))))] + \
        vr_edges(c, C.get(one), R.get(one), c.g["EPi"], c["i"], c.it)


def ep_step(c):
    C0, C1 = c.extra["body"]["C"], c["C"]
    n0, n1 = C0.get(z3.IntVal(1)).shape[0], C1.get(z3.IntVal(1)).shape[0]
    E = c.g["EPi"]
    return z3.If(n1 > n0, z3.Store(E, c["i"], z3.Store(E[c["i"]], c.it, n0)), E)


def sorted_ghost(c, E, nested=True):
    """positions after sorting"""
    inv = c.run.cache["argsorts"][-1][2]
    x, y = V("x", "y")
    r = fresh("sorted", AII)
    c.run.pc.append(all_([x, y], r[x][y] == inv(E[x][y]), [r[x][y]]))
    return r


def sorted_par(c, P):
    perm = c.run.cache["argsorts"][-1][1]
    x = V("x")
    r = fresh("sortedp", IA)
    c.run.pc.append(all_([x], r[x] == P[perm(x)], [r[x]]))
    return r


def vr_graph(c):
    """the edges, as ghost constants: the clique complex is taken of this graph"""
    C, R = c["C"], c["R"]
    one = z3.IntVal(1)
    return [("the graph", z3.And(C.get(one).z == c.g["GZ"], C.get(one).shape[0] == c.g["GM"],
                                 z3.Implies(c.g["GM"] > 0, C.get(one).shape[1] == 2)))]


def vext(c, low, up, rl, ru, d, par, pos, upto, cur=None):
    """rows of up: the (n, s), s among the first upto rows of low, n a common lower
    neighbour; ru: their radii. cur = (q, L, m): also those of row q = upto with the
    first m entries n of L"""
    Rw = up.shape[0]
    r, t, q, n, j = V("r", "t", "q", "n", "j")
    GZ, GM, D = c.g["GZ"], c.g["GM"], arg(c, "Dist")
    pr = par[r]
    mem = CN(GZ, GM, low.z[q], d + 1, n)
    x = up.elt(r, 0)
    conj = [L.inrange(pr, upto + 1 if cur else upto), CN(GZ, GM, low.z[pr], d + 1, x), pos[pr][x] == r]
    if cur:
        conj.append(z3.Implies(pr == upto, INDEX(cur[1].z, cur[1].shape[0], x) < cur[2]))
    out = [("as many radii as simplices", z3.And(ru.shape[0] == Rw, z3.Implies(Rw > 0, up.shape[1] == d + 2))),
           ("rows extend simplices by a common lower neighbour", all_([r], z3.Implies(L.inrange(r, Rw), z3.And(*conj)), [up.z[r]])),
           ("vertices of the simplex extended", all_([r, t], z3.Implies(z3.And(L.inrange(r, Rw), 1 <= t, t <= d + 1),
                                                                     up.elt(r, t) == low.elt(pr, t - 1)), [up.elt(r, t)])),
           ("vertices are points", all_([r, t], z3.Implies(z3.And(L.inrange(r, Rw), 0 <= t, t <= d + 1),
                                                           L.inrange(up.elt(r, t), points(c))), [up.elt(r, t)])),
           ("radius is the maximal distance", all_([r], z3.Implies(L.inrange(r, Rw), ru.elt(r) == MX(
               D.z, low.z[pr], d + 1, x, rl.elt(pr))), [ru.elt(r)])),
           ("all extensions, once", all_([q, n], z3.Implies(z3.And(L.inrange(q, upto), mem), z3.And(
               L.inrange(pos[q][n], Rw), par[pos[q][n]] == q, up.elt(pos[q][n], 0) == n)), [mem]))]
    if cur:
        at = pos[cur[0]][cur[1].elt(j)]
        out.append(("extensions of the current simplex", all_([j], z3.Implies(L.inrange(j, cur[2]), z3.And(
            L.inrange(at, Rw), par[at] == cur[0], up.elt(at, 0) == cur[1].elt(j))), [cur[1].elt(j)])))
    return out


def vr_levels(c, upto):
    C, R = c["C"], c["R"]
    k, a, b, t, e = V("k", "a", "b", "t", "e")
    one = z3.IntVal(1)
    C1, R1 = C.get(one), R.get(one)
    rk = R.get(k)
    out = [("arrays", all_([k], z3.Implies(z3.And(1 <= k, k < upto), z3.And(z3.Not(lst(C.get(k))), z3.Not(lst(R.get(k))))),
                            [lst(C.get(k)), lst(R.get(k))])),
           ("radii in order", all_([k, a, b], z3.Implies(z3.And(1 <= k, k < upto, 0 <= a, a <= b, b < rk.shape[0]), rk.elt(a) <= rk.elt(b)),
                                   [[rk.elt(a), rk.elt(b)]]))]
    for nm, f in vext(c, C.get(k - 1), C.get(k), R.get(k - 1), R.get(k), k - 1, c.g["PAR"][k], c.g["POSN"][k], C.get(k - 1).shape[0]):
        g = z3.And(2 <= k, k < upto)
        out.append((nm, quant(k, g, f) if z3.is_quantifier(f) else all_([k], z3.Implies(g, f), [C.get(k).shape[0], R.get(k).shape[0], C.get(k).shape[1]])))
    return out


def vr3_inv(c):
    C, R = c["C"], c["R"]
    one = z3.IntVal(1)
    return vr_base(c) + vr_rest(c, c.it + 2) + vr_graph(c) + \
        vr_edges(c, C.get(one), R.get(one), c.g["EPs"], points(c), z3.IntVal(0)) + vr_levels(c, c.it + 2)


def same(a, b):
    return z3.And(a.z == b.z, lst(a) == lst(b), *[x == y for x, y in zip(a.shape, b.shape)])


def vr_frame(c, upto):
    C, R = c["C"], c["R"]
    E = c.extra["entry"]
    k = V("k")
    pats = [C.get(k).z, R.get(k).z] + C.get(k).shape + R.get(k).shape + [lst(C.get(k)), lst(R.get(k))]
    return [("lower dimensions untouched", all_([k], z3.Implies(z3.And(1 <= k, k < upto), z3.And(
        same(C.get(k), E["C"].get(k)), same(R.get(k), E["R"].get(k)))), pats))]


def vr_top(c):
    C, R, d = c["C"], c["R"], c["d"]
    up, ru = C.get(d + 1), R.get(d + 1)
    return [("lists", z3.And(lst(up), lst(ru))),
            ("as many radii as simplices to extend", R.get(d).shape[0] == C.get(d).shape[0])] + vr_graph(c)


def vr4_inv(c):
    C, R, d = c["C"], c["R"], c["d"]
    return vr_base(c) + vr_frame(c, d + 1) + vr_rest(c, d + 2) + vr_top(c) + \
        vext(c, C.get(d), C.get(d + 1), R.get(d), R.get(d + 1), d, c.g["par"], c.g["pos"], c.it)


def vr5_inv(c):
    N = lowN(c)
    s = c["s"]
    return nb_once(N, lambda x: CN(c.g["GZ"], c.g["GM"], s.z, c.it + 1, x))


def vr5_hints(c):
    s, x = c["s"], V("x")
    cn = lambda w: CN(c.g["GZ"], c.g["GM"], s.z, w, x)
    return [("common to all is common to fewer", all_([x], z3.Implies(cn(c.it + 1), cn(c.it)), [cn(c.it + 1)])),
            ("common to all is a neighbour of the last", all_([x], z3.Implies(
                cn(c.it + 1), EDGE(c.g["GZ"], c.g["GM"], x, s.z[c.it])), [cn(c.it + 1)]))]


def vr4_hints(c):
    N, low, d, q, x = lowN(c), c["C"].get(c["d"]), c["d"], c["k"], V("x")
    cn = CN(c.g["GZ"], c.g["GM"], low.z[q], d + 1, x)
    ix = INDEX(N.z, N.shape[0], x)
    return [("common neighbours are listed", all_([x], z3.Implies(cn, z3.And(L.inrange(ix, N.shape[0]), N.elt(ix) == x)), [cn]))]


def lowN(c):
    N = c["low_n"]
    if isinstance(N, PyList):
        N = Arr([z3.IntVal(0)], lambda i: z3.IntVal(0), I)
    return c.run.mat(N)


def vr6_inv(c):
    C, R, d, q = c["C"], c["R"], c["d"], c["k"]
    return vr_base(c) + vr_frame(c, d + 1) + vr_rest(c, d + 2) + vr_top(c) + \
        vext(c, C.get(d), C.get(d + 1), R.get(d), R.get(d + 1), d, c.g["par6"], c.g["pos6"], q, (q, lowN(c), c.it))


def vr7_inv(c):
    D, R, d, q, s = arg(c, "Dist"), c["R"], c["d"], c["k"], c["s"]
    return [("maximum so far", c["simplex_rad"] == MX(D.z, s.z, c.it, c["n"], R.get(d).elt(q)))]


def vr_post(c):
    res = c.result
    if not isinstance(res, VTuple) or len(res.items) != 2:
        return [("complex and radii", z3.BoolVal(False))]
    C, R = [c.run.snap(x) for x in res.items]
    g = c.frame.ghosts if hasattr(c.frame, "ghosts") else {}
    if not isinstance(C, SeqOf) or not isinstance(R, SeqOf) or "GZ" not in g:
        return [("complex and radii", z3.BoolVal(False))]
    c2 = View(c, dict(C=C, R=R), g)
    one = z3.IntVal(1)
    return vr_base(c2) + vr_graph(c2) + vr_edges(c2, C.get(one), R.get(one), g["EPs"], points(c), z3.IntVal(0)) + \
        vr_levels(c2, C.n)


class View(object):
    """a context with other names"""

    def __init__(self, c, names, g):
        self.c, self.names, self.g = c, names, g
        self.run, self.old, self.extra, self.it = c.run, c.old, c.extra, c.it

    def __getitem__(self, n):
        return self.names[n] if n in self.names else self.c[n]


def vr_req(c):
    D = c["Dist"]
    i, j = V("i", "j")
    n = D.shape[0]
    return [("distances are symmetric", all_([i, j], z3.Implies(z3.And(L.inrange(i, n), L.inrange(j, n)), D.elt(i, j) == D.elt(j, i)),
                                             [D.elt(i, j)]))]


const = lambda nm: (lambda c: c.g[nm])
contract(VR + "vietoris_rips", params=vr_params, requires=vr_req, ensures=vr_post,
         loops={0: Loop(inv=lambda c: [("lengths", z3.And(length(c["C"]) == c.it, length(c["R"]) == c.it))] + (
                    vr_rest(c, z3.IntVal(0)) if isinstance(c["C"], SeqOf) and isinstance(c["R"], SeqOf) else []), havoc=CH0),
                1: Loop(inv=vr1_inv, havoc=CH, ghosts={"EP": (lambda c: zero2, lambda c: c.extra["inner"]["EPi"])}),
                2: Loop(inv=vr2_inv, havoc=CH, ghosts={"EPi": (lambda c: c.frame.ghosts["EP"], ep_step)}),
                3: Loop(inv=vr3_inv, havoc=CH, ghosts={
                    "GZ": (lambda c: c["C"].get(z3.IntVal(1)).z, const("GZ")), "GM": (lambda c: c["C"].get(z3.IntVal(1)).shape[0], const("GM")),
                    "EPs": (lambda c: sorted_ghost(c, c.frame.ghosts["EP"]), const("EPs")),
                    "PAR": (lambda c: z3.K(I, zero1), lambda c: z3.Store(c.g["PAR"], c["d"] + 1, sorted_par(c, c.extra["inner"]["par"]))),
                    "POSN": (lambda c: z3.K(I, zero2), lambda c: z3.Store(c.g["POSN"], c["d"] + 1, sorted_ghost(c, c.extra["inner"]["pos"])))}),
                4: Loop(inv=vr4_inv, hints=vr4_hints, havoc=CH, ghosts={
                    "par": (lambda c: zero1, lambda c: c.extra["inner"]["par6"]), "pos": (lambda c: zero2, lambda c: c.extra["inner"]["pos6"])}),
                5: Loop(inv=vr5_inv, hints=vr5_hints, havoc={"low_n": lambda c: c.run.new(arr_const("low_n", [nat(c, "len_n")], I, islist=True))}),
                6: Loop(inv=vr6_inv, havoc=CH, ghosts={
                    "par6": (lambda c: c.frame.ghosts["par"], lambda c: z3.Store(c.g["par6"], top_before(c), c["k"])),
                    "pos6": (lambda c: c.frame.ghosts["pos"], lambda c: z3.Store(
                        c.g["pos6"], c["k"], z3.Store(c.g["pos6"][c["k"]], c["n"], top_before(c))))}),
                7: Loop(inv=vr7_inv),
                8: Loop(inv=lambda c: [])})


def top_before(c):
    return c.extra["body"]["C"].get(c["d"] + 1).shape[0]
