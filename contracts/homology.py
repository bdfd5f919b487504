"""Contract of permaviss.persistence_algebra.PH_classic."""
import z3
from pvc import logic as L
from pvc.vals import *
from pvc.vals import fresh, fresh_name
from pvc.engine import contract, Loop, Lem, ite_val
from .gauss import V, all_, nat, prime_of
from .complexes import length
from .barcode import rounded_le

PH = "permaviss.persistence_algebra.PH_classic:"
AAI = z3.ArraySort(I, AI)
A3 = z3.ArraySort(I, AAI)
LISTS = dict(Hom_bars=(RE, False), Hom_coord=(I, True), Im_bars=(RE, False), Im_coord=(I, True),
             PreIm=(I, True), CycleKill=(I, True))
RES = ("Hom_bars", "Hom_coord", "Im_bars", "Im_coord", "PreIm")


# ------------------------------------------------ lists of matrices
def mat_conv(sort, col):
    def conv(run, v):
        v = run.snap(v)
        if isinstance(v, PyList) and not v.items:
            a = Arr([z3.IntVal(0), z3.IntVal(0)], lambda i, j: zscalar(0.0) if sort == RE else z3.IntVal(0), sort)
            a.eml = True
            return a
        a = run.models.as_array(run, v)
        if a.nd != 2:
            raise Unsupported("matrix of a list")
        if a.sort != sort:
            if sort == RE and a.sort == I:
                a0 = a
                a = Arr(a0.shape, lambda i, j: z3.ToReal(a0.elt(i, j)), RE)
            elif sort == I and a.sort == RE and getattr(a, "integral", False):
                a0 = a
                a = Arr(a0.shape, lambda i, j: z3.ToInt(a0.elt(i, j)), I)
            else:
                raise Unsupported("matrix of a list: %s" % a.sort)
        return a
    return conv


def one_mat(name, sort, col):
    """a matrix with unknown contents and shape"""
    z = fresh("m_" + name, nested(2, sort))
    r, w = fresh("rows_" + name, I), fresh("cols_" + name, I)
    if col:
        a = Arr([r, w], lambda i, j: z[j][i], sort, zt=z)
    else:
        a = arr_of(z, [r, w], sort)
    a.eml = True
    return a


def mats(n, rows, cols, z, sort, col):
    def get(k):
        if col:
            a = Arr([rows(k), cols(k)], lambda i, j: z[k][j][i], sort, zt=z[k])
        else:
            a = arr_of(z[k], [rows(k), cols(k)], sort)
        a.eml = True
        return a
    s = SeqOf(n, get)
    s.conv, s.shared = mat_conv(sort, col), False
    return s


def new_mats(name, n=None):
    sort, col = LISTS[name]

    def havoc(c):
        ln = n(c) if n else fresh("len_" + name, I)
        r = z3.Function(fresh_name("rows_" + name), I, I)
        w = z3.Function(fresh_name("cols_" + name), I, I)
        z = fresh("m_" + name, z3.ArraySort(I, nested(2, sort)))
        k = V("k")
        c.run.pc.append(z3.And(ln >= 0, all_([k], z3.And(r(k) >= 0, w(k) >= 0), [r(k), w(k)])))
        return c.run.new(mats(ln, r, w, z, sort, col))
    return havoc


def patch(name, keys):
    """the list as at the entry of the loop, with unknown matrices at the given entries"""
    sort, col = LISTS[name]

    def havoc(c):
        e = c.extra["entry"][name]
        new = [(k(c), one_mat(name, sort, col)) for k in keys]
        for _, a in new:
            c.run.pc.append(z3.And(a.shape[0] >= 0, a.shape[1] >= 0))

        def get(q):
            v = e.get(q)
            for k, a in new:
                v = ite_val(q == k, a, v)
            return v
        s = SeqOf(e.n, get)
        s.conv, s.shared = mat_conv(sort, col), False
        return c.run.new(s)
    return havoc


def same_else(c, name, keys):
    """entries other than the given ones are as at the entry of the loop"""
    a, b = c[name], c.extra["entry"][name]
    k, i, j = V("k", "i", "j")
    x, y = a.get(k), b.get(k)
    oth = z3.And(L.inrange(k, b.n), *[k != q for q in keys])
    return ("%s: other dimensions kept" % name, z3.And(
        a.n == b.n, z3.BoolVal(not getattr(a, "shared", False)),
        z3.ForAll([k], z3.Implies(oth, z3.And(x.shape[0] == y.shape[0], x.shape[1] == y.shape[1]))),
        z3.ForAll([k, i, j], z3.Implies(oth, x.elt(i, j) == y.elt(i, j)))))


# ------------------------------------------------ arguments
def ph_params(c):
    run = c.run
    n0, dim, p = nat(c, "n0"), fresh("dim", I), fresh("p", I)
    N, M = z3.Function(fresh_name("N"), I, I), z3.Function(fresh_name("M"), I, I)
    z = fresh("D", A3)
    rad = fresh("rad", z3.ArraySort(I, z3.ArraySort(I, RE)))
    k = V("k")
    run.pc.append(z3.And(N(z3.IntVal(0)) == n0, all_([k], N(k) >= 0, [N(k)])))
    # rows of the differentials: M(k) = N(k - 1)
    run.pc.append(z3.And(all_([k], M(k) == N(k - 1), [M(k)]), all_([k], M(k + 1) == N(k), [N(k)])))
    D = SeqOf(dim, lambda k: arr_of(z[k], [M(k), N(k)], I))
    D.shared, D.head = False, n0
    R = SeqOf(dim, lambda k: arr_of(rad[k], [N(k)], RE))
    R.shared = False
    run.cache["ph"] = (N, z, rad, dim)
    run.cache["phM"] = M
    return dict(D=run.new(D), R=run.new(R), max_rad=fresh("max_rad", RE), p=p)


def the(c):
    return c.run.cache["ph"]


def ph_requires(c):
    N, z, rad, dim = the(c)
    k, i, j = V("k", "i", "j")
    return [("p prime", prime_of(c, c["p"])), ("at least edges", dim >= 2),
            ("simplices have faces", all_([k], z3.Implies(z3.And(1 <= k, k < dim, N(k) > 0), N(k - 1) > 0), [N(k)])),
            ("vertices are there from the start", all_([i], z3.Implies(L.inrange(i, N(z3.IntVal(0))),
                                                                       rad[0][i] == 0), [rad[0][i]])),
            ("simplices are there before the maximum radius", all_([k, i], z3.Implies(z3.And(
                L.inrange(k, dim), L.inrange(i, N(k))), rad[k][i] < c["max_rad"]), [rad[k][i]]))]


# ------------------------------------------------ the reduction of dimension e
# ghosts: GR[e], GT[e] columns of the reduced matrix and of the additions of dimension e;
# KP[e][i] the column of dimension e + 1 that kills simplex i of dimension e, or -1;
# HF[e] number of generators of dimension e that die; HS[e][j] the column generator j comes from
# (of dimension e + 1 if j < HF[e], of dimension e otherwise); HA[e], HB[e] its inverses;
# IS[e][j] the column of dimension e + 1 image generator j comes from, IP[e] its inverse
GH = ("GR", "GT", "KP", "HS", "HA", "HB", "HF", "IS", "IP")


def level(c, g, lo, hi):
    """dimensions lo <= e < hi are reduced"""
    N, D, rad, dim = the(c)
    p = c.old["p"]
    e, k, i, a = V("e", "k", "i", "a")
    GR, GT, KP = g["GR"], g["GT"], g["KP"]
    rng = z3.And(lo <= e, e < hi)
    col = lambda k: L.inrange(k, N(e))
    M = c.run.cache["phM"]
    row = lambda i: L.inrange(i, M(e))
    pv = lambda k: L.ipv(GR[e][k], M(e))
    f = V("f")
    T, R = GT[e][k][i], GR[e][k][i]
    return [
        ("D*T = R in columns not cleared", all_([e, k, i], z3.Implies(
            z3.And(rng, col(k), row(i), KP[e][k] == -1), L.fdot(D[e][i], GT[e][k], N(e)) == L.cl(R)),
            [[L.fdot(D[e][i], GT[e][k], N(e))], [R, KP[e][k]]])),
        ("T unit upper triangular, canonical", all_([e, k, i], z3.Implies(
            z3.And(rng, col(k), L.inrange(i, N(e))), z3.And(
                z3.Implies(i > k, T == 0), z3.Implies(i == k, T == 1), 0 <= T, T < p)), [T])),
        ("R canonical", all_([e, k, i], z3.Implies(z3.And(rng, col(k), row(i)), z3.And(0 <= R, R < p)), [R])),
        ("cleared columns vanish", all_([e, k], z3.Implies(z3.And(rng, col(k), KP[e][k] != -1), pv(k) == -1),
                                        [[KP[e][k], pv(k)]])),
        ("pivots distinct", all_([e, k, a], z3.Implies(
            z3.And(rng, 0 <= k, k < a, a < N(e), pv(k) > -1), pv(k) != pv(a)), [[pv(k), pv(a)]])),
        ("killed by the column with this pivot", all_([f, i], z3.Implies(
            z3.And(lo - 1 <= f, f < hi - 1, L.inrange(i, N(f))), z3.And(
                -1 <= KP[f][i], KP[f][i] < N(f + 1), z3.Implies(
                    KP[f][i] >= 0, L.ipv(GR[f + 1][KP[f][i]], M(f + 1)) == i))), [KP[f][i]])),
        ("pivots are killed", all_([e, k], z3.Implies(z3.And(rng, col(k), pv(k) > -1), KP[e - 1][pv(k)] == k),
                                   [pv(k)]))]


def shapes(c, lo, hi, HB, HC):
    N, D, rad, dim = the(c)
    e = V("e")
    b, h = HB.get(e), HC.get(e)
    return z3.ForAll([e], z3.Implies(z3.And(lo <= e, e < hi), z3.And(
        b.shape[1] == 2, h.shape[0] == N(e), h.shape[1] == b.shape[0])))


def finite(c, g, lo, hi, HB, HC):
    """the generators of dimension lo <= e < hi that die are right"""
    N, D, rad, dim = the(c)
    e, j, i, s = V("e", "j", "i", "s")
    GR, HS, HA, HF = g["GR"], g["HS"], g["HA"], g["HF"]
    b, h = HB.get(e), HC.get(e)
    rng = z3.And(lo <= e, e < hi)
    src = HS[e][j]
    bs = lambda s: L.ipv(GR[e + 1][s], c.run.cache["phM"](e + 1))
    J = z3.And(rng, L.inrange(j, HF[e]))
    return [("dying generators: number", z3.ForAll([e], z3.Implies(rng, z3.And(
        0 <= HF[e], HF[e] <= b.shape[0], z3.Implies(e == dim - 1, HF[e] == 0))))),
        ("dying generators: columns", all_([e, j], z3.Implies(J, z3.And(
            e < dim - 1, L.inrange(src, N(e + 1)), bs(src) >= 0, rad[e][bs(src)] < rad[e + 1][src], HA[e][src] == j)), [src])),
        ("dying generators: bars", all_([e, j], z3.Implies(J, z3.And(
            b.elt(j, 0) == rad[e][bs(src)], b.elt(j, 1) == rad[e + 1][src])), [src])),
        ("dying generators: cycles", all_([e, j, i], z3.Implies(z3.And(J, L.inrange(i, N(e))), h.elt(i, j) == GR[e + 1][src][i]),
                                          [[src, h.elt(i, j)]])),
        ("dying generators: all of them", all_([e, s], z3.Implies(
            z3.And(rng, e < dim - 1, L.inrange(s, N(e + 1)), bs(s) >= 0, rad[e][bs(s)] < rad[e + 1][s]),
            z3.And(L.inrange(HA[e][s], HF[e]), HS[e][HA[e][s]] == s)), [HA[e][s], bs(s)]))]


def infinite(c, g, lo, hi, HB, HC):
    N, D, rad, dim = the(c)
    mx = c.old["max_rad"]
    e, j, i, s = V("e", "j", "i", "s")
    GR, GT, KP, HS, Hb, HF = g["GR"], g["GT"], g["KP"], g["HS"], g["HB"], g["HF"]
    b, h = HB.get(e), HC.get(e)
    rng = z3.And(lo <= e, e < hi)
    src = HS[e][j]
    zero = lambda s: z3.And(KP[e][s] == -1, z3.Or(e == 0, L.ipv(GR[e][s], c.run.cache["phM"](e)) == -1))
    J = z3.And(rng, HF[e] <= j, j < b.shape[0])
    val = lambda s, i: z3.If(e == 0, z3.If(i == s, 1, 0), GT[e][s][i])
    return [("lasting generators: columns", all_([e, j], z3.Implies(J, z3.And(
        L.inrange(src, N(e)), zero(src), Hb[e][src] == j)), [src])),
        ("lasting generators: bars", all_([e, j], z3.Implies(J, z3.And(
            b.elt(j, 0) == rad[e][src], b.elt(j, 1) == mx)), [src])),
        ("lasting generators: cycles", all_([e, j, i], z3.Implies(z3.And(J, L.inrange(i, N(e))), h.elt(i, j) == val(src, i)),
                                            [[src, h.elt(i, j)]])),
        ("lasting generators: all of them", all_([e, s], z3.Implies(
            z3.And(rng, L.inrange(s, N(e)), zero(s)),
            z3.And(HF[e] <= Hb[e][s], Hb[e][s] < b.shape[0], HS[e][Hb[e][s]] == s)), [Hb[e][s], KP[e][s]]))]


def image(c, g, lo, hi, IB, IC, PI):
    """image generators of dimension lo <= e < hi"""
    N, D, rad, dim = the(c)
    mx = c.old["max_rad"]
    e, j, i, s = V("e", "j", "i", "s")
    GR, GT, IS, IP = g["GR"], g["GT"], g["IS"], g["IP"]
    b, h, t = IB.get(e), IC.get(e), PI.get(e + 1)
    rng = z3.And(lo <= e, e < hi)
    src = IS[e][j]
    pv = lambda s: L.ipv(GR[e + 1][s], c.run.cache["phM"](e + 1))
    J = z3.And(rng, L.inrange(j, b.shape[0]))
    return [("image generators: shapes", z3.ForAll([e], z3.Implies(rng, z3.And(
        b.shape[1] == 2, h.shape[0] == N(e), h.shape[1] == b.shape[0], t.shape[0] == N(e + 1), t.shape[1] == b.shape[0])))),
        ("image generators: columns", all_([e, j], z3.Implies(J, z3.And(
            L.inrange(src, N(e + 1)), pv(src) >= 0, IP[e][src] == j)), [src])),
        ("image generators: bars", all_([e, j], z3.Implies(J, z3.And(
            b.elt(j, 0) == rad[e + 1][src], b.elt(j, 1) == mx)), [src])),
        ("image generators: boundaries", all_([e, j, i], z3.Implies(z3.And(J, L.inrange(i, N(e))), h.elt(i, j) == GR[e + 1][src][i]),
                                              [[src, h.elt(i, j)]])),
        ("image generators: preimages", all_([e, j, i], z3.Implies(z3.And(J, L.inrange(i, N(e + 1))), t.elt(i, j) == GT[e + 1][src][i]),
                                             [[src, t.elt(i, j)]])),
        ("image generators: all of them", all_([e, s], z3.Implies(
            z3.And(rng, L.inrange(s, N(e + 1)), pv(s) >= 0),
            z3.And(L.inrange(IP[e][s], b.shape[0]), IS[e][IP[e][s]] == s)), [IP[e][s], pv(s)]))]


# ------------------------------------------------ loop 0: empty lists
def empty_lists(c):
    out = []
    for nm in LISTS:
        try:
            v = c[nm]
        except MissingName:
            if nm == "CycleKill":
                continue
            raise
        k = V("k")
        f = length(v) == c.it
        if isinstance(v, SeqOf):
            f = z3.And(f, z3.BoolVal(not getattr(v, "shared", False)),
                       z3.ForAll([k], z3.Implies(L.inrange(k, v.n), v.get(k).shape[0] == 0)))
        out.append(("%s: an empty entry per dimension" % nm, f))
    return out


# ------------------------------------------------ loop 1: dimensions, downwards
def lists(c):
    return tuple(c[nm] for nm in RES)


def outer(c, d=None):
    """dimensions above d0 are done, d0 is prepared"""
    N, D, rad, dim = the(c)
    g = c.g
    d0 = dim - 1 - c.it
    HB, HC, IB, IC, PI = lists(c)
    piv, nxt = c["pivots"], c["Hom_dim_next"]
    out = [("lengths", z3.And(*[x.n == dim for x in (HB, HC, IB, IC, PI)])),
           ("stored arrays are copies", z3.BoolVal(not any(getattr(x, "shared", False) for x in (HB, HC, IB, IC, PI))))]
    out += level(c, g, d0 + 1, dim)
    out += [("generators: shapes", shapes(c, d0 + 1, dim, HB, HC))]
    out += finite(c, g, d0, dim, HB, HC)
    out += infinite(c, g, d0 + 1, dim, HB, HC)
    out += image(c, g, d0, dim - 1, IB, IC, PI)
    b, h = HB.get(d0), HC.get(d0)
    i, j, k = V("i", "j", "k")
    out += [("space for the next dimension", z3.And(b.shape[0] == N(d0), b.shape[1] == 2, h.shape[0] == N(d0), h.shape[1] == N(d0))),
            ("space is zero", z3.ForAll([i, j], z3.Implies(z3.And(L.inrange(i, N(d0)), nxt <= j, j < N(d0)), h.elt(i, j) == 0))),
            ("number of dying generators", nxt == g["HF"][d0]),
            ("no image on top", IB.get(dim - 1).shape[0] == 0),
            ("nothing kills the top", all_([i], z3.Implies(L.inrange(i, N(dim - 1)), g["KP"][dim - 1][i] == -1), [g["KP"][dim - 1][i]]))]
    out += pivots_are(c, g["GR"][d0 + 1], g["IS"][d0], g["KP"][d0], g["IP"][d0], d0, IB.get(d0).shape[0], piv)
    return out


def pivots_are(c, R1, is_, kp, ip, d0, n, piv):
    """the list of pivots is that of the image generators"""
    N, D, rad, dim = the(c)
    i, j = V("i", "j")
    if isinstance(piv, PyList):
        return [("pivots", z3.And(n == 0, z3.BoolVal(not piv.items)))]
    return [("number of pivots", piv.shape[0] == z3.If(d0 == dim - 1, 0, n)),
            ("pivots of the image generators", z3.ForAll([j], z3.Implies(
                L.inrange(j, piv.shape[0]), z3.And(piv.elt(j) == L.ipv(R1[is_[j]], c.run.cache["phM"](d0 + 1)), L.inrange(piv.elt(j), N(d0)),
                                                   kp[piv.elt(j)] == is_[j])))),
            ("every killed simplex is a pivot", all_([i], z3.Implies(
                z3.And(L.inrange(i, N(d0)), kp[i] >= 0), z3.And(
                    L.inrange(ip[kp[i]], piv.shape[0]), piv.elt(ip[kp[i]]) == i)), [kp[i]]))]


def const(v, sort=I):
    return z3.K(sort, v)


ZI = z3.K(I, z3.IntVal(0))
INIT = dict(GR=lambda c: fresh("GR", A3), GT=lambda c: fresh("GT", A3),
            KP=lambda c: z3.K(I, z3.K(I, z3.IntVal(-1))),
            HS=lambda c: fresh("HS", AAI), HA=lambda c: fresh("HA", AAI), HB=lambda c: fresh("HB", AAI),
            HF=lambda c: z3.K(I, z3.IntVal(0)), IS=lambda c: fresh("IS", AAI), IP=lambda c: fresh("IP", AAI))


def d_of(c):
    N, D, rad, dim = the(c)
    return dim - 1 - c.it


def colz(c, name):
    a = c[name]
    if a.zt is None:
        a = c.run.mat(a, col=True)
    return a.zt


STEP = dict(
    GR=lambda c: z3.Store(c.g["GR"], d_of(c), colz(c, "Im_aux")),
    GT=lambda c: z3.Store(c.g["GT"], d_of(c), colz(c, "T")),
    KP=lambda c: z3.Store(c.g["KP"], d_of(c) - 1, c.extra["inner"]["kp"]),
    HS=lambda c: z3.Store(z3.Store(c.g["HS"], d_of(c), c.extra["inner"]["hs0"]), d_of(c) - 1, c.extra["inner"]["hs1"]),
    HA=lambda c: z3.Store(c.g["HA"], d_of(c) - 1, c.extra["inner"]["ha"]),
    HB=lambda c: z3.Store(c.g["HB"], d_of(c), c.extra["inner"]["hb"]),
    HF=lambda c: z3.Store(c.g["HF"], d_of(c) - 1, c["Hom_dim_next"]),
    IS=lambda c: z3.Store(c.g["IS"], d_of(c) - 1, c.extra["inner"]["is"]),
    IP=lambda c: z3.Store(c.g["IP"], d_of(c) - 1, c.extra["inner"]["ip"]))


# ------------------------------------------------ loop 2: columns of dimension d
def inner(c):
    N, D, rad, dim = the(c)
    mx, g = c.old["max_rad"], c.g
    d = c["d"]
    HB, HC, IB, IC, PI = lists(c)
    np_ = c["non_pivots"]
    if getattr(np_, "setop", None) is None:
        raise Unsupported("columns left")
    idx = np_.setop[2]
    R, T = colz(c, "Im_aux"), colz(c, "T")
    n1, cur, im, piv = c["Hom_dim_next"], c["Hom_dim_current"], c["Im_dim_next"], c["pivots"]
    kp, hs0, hs1, ha, hb, is_, ip = [g[x] for x in ("kp", "hs0", "hs1", "ha", "hb", "is", "ip")]
    KP, HF = g["KP"][d], g["HF"][d]
    j, i, s, k = V("j", "i", "s", "k")
    m, n = c.run.cache["phM"](d), N(d)
    pv = lambda s: L.ipv(R[s], m)
    live = lambda s: KP[s] == -1
    done = lambda s: z3.And(L.inrange(s, n), live(s), idx(s) < c.it)
    B1, C1, B0, C0 = HB.get(d - 1), HC.get(d - 1), HB.get(d), HC.get(d)
    IB1, IC1, P0 = IB.get(d - 1), IC.get(d - 1), PI.get(d)
    J1, J0, JI = L.inrange(j, n1), z3.And(HF <= j, j < cur), L.inrange(j, im)
    out = [same_else(c, "Hom_bars", [d, d - 1]), same_else(c, "Hom_coord", [d, d - 1]), same_else(c, "Im_bars", [d - 1]),
           same_else(c, "Im_coord", [d - 1]), same_else(c, "PreIm", [d])]
    len_ = np_.shape[0]
    e = c.extra["entry"]
    e0, f0 = e["Hom_bars"].get(d), e["Hom_coord"].get(d)
    out += [("shapes", z3.And(B1.shape[0] == m, B1.shape[1] == 2, C1.shape[0] == m, C1.shape[1] == m,
                              B0.shape[0] == n, B0.shape[1] == 2, C0.shape[0] == n, C0.shape[1] == n,
                              IB1.shape[0] == len_, IB1.shape[1] == 2, IC1.shape[0] == m, IC1.shape[1] == len_,
                              P0.shape[0] == n, P0.shape[1] == len_)),
            ("counters", z3.And(0 <= n1, n1 <= im, im <= c.it, HF <= cur, n1 <= m, cur <= n)),
            ("dying generators of d: kept", z3.And(
                all_([j], z3.Implies(L.inrange(j, HF), z3.And(hs0[j] == g["HS"][d][j], B0.elt(j, 0) == e0.elt(j, 0),
                                                              B0.elt(j, 1) == e0.elt(j, 1))), None),
                z3.ForAll([i, j], z3.Implies(z3.And(L.inrange(i, n), L.inrange(j, HF)), C0.elt(i, j) == f0.elt(i, j))))),
            # killers
            ("killers", all_([i], z3.Implies(L.inrange(i, m), z3.And(
                -1 <= kp[i], kp[i] < n, z3.Implies(kp[i] >= 0, z3.And(pv(kp[i]) == i, done(kp[i]))))), [kp[i]])),
            ("pivots are killed", all_([s], z3.Implies(z3.And(done(s), pv(s) > -1), kp[pv(s)] == s), [pv(s)])),
            # generators of d - 1 that die
            ("dying: columns", all_([j], z3.Implies(J1, z3.And(
                done(hs1[j]), pv(hs1[j]) >= 0, rad[d - 1][pv(hs1[j])] < rad[d][hs1[j]], ha[hs1[j]] == j)), [hs1[j]])),
            ("dying: bars", all_([j], z3.Implies(J1, z3.And(
                B1.elt(j, 0) == rad[d - 1][pv(hs1[j])], B1.elt(j, 1) == rad[d][hs1[j]])), [hs1[j]])),
            ("dying: cycles", all_([i, j], z3.Implies(z3.And(J1, L.inrange(i, m)), C1.elt(i, j) == R[hs1[j]][i]), [[hs1[j], C1.elt(i, j)]])),
            ("dying: space is zero", z3.ForAll([i, j], z3.Implies(z3.And(n1 <= j, j < m, L.inrange(i, m)), C1.elt(i, j) == 0))),
            ("dying: all of them", all_([s], z3.Implies(z3.And(done(s), pv(s) >= 0, rad[d - 1][pv(s)] < rad[d][s]), z3.And(
                L.inrange(ha[s], n1), hs1[ha[s]] == s)), [ha[s], pv(s)])),
            # generators of d that last
            ("lasting: columns", all_([j], z3.Implies(J0, z3.And(done(hs0[j]), pv(hs0[j]) == -1, hb[hs0[j]] == j)), [hs0[j]])),
            ("lasting: bars", all_([j], z3.Implies(J0, z3.And(B0.elt(j, 0) == rad[d][hs0[j]], B0.elt(j, 1) == mx)), [hs0[j]])),
            ("lasting: cycles", all_([i, j], z3.Implies(z3.And(J0, L.inrange(i, n)), C0.elt(i, j) == T[hs0[j]][i]), [[hs0[j], C0.elt(i, j)]])),
            ("lasting: all of them", all_([s], z3.Implies(z3.And(done(s), pv(s) == -1), z3.And(
                HF <= hb[s], hb[s] < cur, hs0[hb[s]] == s)), [hb[s], pv(s)])),
            # image of d
            ("image: columns", all_([j], z3.Implies(JI, z3.And(done(is_[j]), pv(is_[j]) >= 0, ip[is_[j]] == j)), [is_[j]])),
            ("image: bars", all_([j], z3.Implies(JI, z3.And(IB1.elt(j, 0) == rad[d][is_[j]], IB1.elt(j, 1) == mx)), [is_[j]])),
            ("image: boundaries", all_([i, j], z3.Implies(z3.And(JI, L.inrange(i, m)), IC1.elt(i, j) == R[is_[j]][i]), [[is_[j], IC1.elt(i, j)]])),
            ("image: preimages", all_([i, j], z3.Implies(z3.And(JI, L.inrange(i, n)), P0.elt(i, j) == T[is_[j]][i]), [[is_[j], P0.elt(i, j)]])),
            ("image: all of them", all_([s], z3.Implies(z3.And(done(s), pv(s) >= 0), z3.And(L.inrange(ip[s], im), is_[ip[s]] == s)), [ip[s], pv(s)]))]
    if isinstance(piv, PyList):
        out.append(("pivots", z3.And(im == 0, z3.BoolVal(not piv.items))))
    else:
        out.append(("pivots of the image", z3.And(piv.shape[0] == im, all_([j], z3.Implies(JI, piv.elt(j) == pv(is_[j])), None))))
    return out


def col_now(c):
    return c["non_pivots"].elt(c.it)


def grew(c, name):
    return c[name] != c.extra["body"][name]


def ipv_now(c):
    N, D, rad, dim = the(c)
    return L.ipv(colz(c, "Im_aux")[col_now(c)], c.run.cache["phM"](c["d"]))


def sto(gname, at, val, when):
    return lambda c: z3.If(when(c), z3.Store(c.g[gname], at(c), val(c)), c.g[gname])


def before(c, name):
    return zint(c.extra["body"][name])


IN_INIT = dict(kp=lambda c: z3.K(I, z3.IntVal(-1)), hs0=lambda c: c.g["HS"][c["d"]], hs1=lambda c: fresh("hs1", AI),
               ha=lambda c: fresh("ha", AI), hb=lambda c: fresh("hb", AI))
IN_INIT["is"] = lambda c: fresh("is", AI)
IN_INIT["ip"] = lambda c: fresh("ip", AI)
IN_STEP = dict(
    kp=sto("kp", ipv_now, col_now, lambda c: ipv_now(c) >= 0),
    hs1=sto("hs1", lambda c: before(c, "Hom_dim_next"), col_now, lambda c: grew(c, "Hom_dim_next")),
    ha=sto("ha", col_now, lambda c: before(c, "Hom_dim_next"), lambda c: grew(c, "Hom_dim_next")),
    hs0=sto("hs0", lambda c: before(c, "Hom_dim_current"), col_now, lambda c: grew(c, "Hom_dim_current")),
    hb=sto("hb", col_now, lambda c: before(c, "Hom_dim_current"), lambda c: grew(c, "Hom_dim_current")))
IN_STEP["is"] = sto("is", lambda c: before(c, "Im_dim_next"), col_now, lambda c: grew(c, "Im_dim_next"))
IN_STEP["ip"] = sto("ip", col_now, lambda c: before(c, "Im_dim_next"), lambda c: grew(c, "Im_dim_next"))


def pigeon(h, f, x, m):
    """an injection of [0, h) into [0, m) that misses x"""
    a, b = V("a", "b")
    prem = z3.And(h >= 0, L.inrange(x, m), z3.ForAll([a], z3.Implies(L.inrange(a, h), z3.And(L.inrange(f(a), m), f(a) != x))),
                  z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < h), f(a) != f(b))))
    return Lem("pigeonhole_room", z3.Implies(prem, h < m))


def inner_room(c):
    N, D, rad, dim = the(c)
    M = c.run.cache["phM"]
    g, d, k = c.g, c["d"], c["k"]
    R = colz(c, "Im_aux")
    pv = lambda s: L.ipv(R[s], M(d))
    hs1, hs0 = g["hs1"], g["hs0"]
    HF, KP = g["HF"][d], g["KP"][d]
    j = V("j")
    b0 = lambda j: L.ipv(g["GR"][d + 1][hs0[j]], M(d + 1))
    f0 = lambda j: z3.If(j < HF, b0(j), hs0[j])
    return [("column", z3.And(L.inrange(k, N(d)), KP[k] == -1, c["non_pivots"].setop[2](k) == c.it)),
            ("pivots of dying generators", all_([j], z3.Implies(L.inrange(j, HF), z3.And(
                L.inrange(b0(j), N(d)), KP[b0(j)] == hs0[j])), [hs0[j]])),
            pigeon(c["Hom_dim_next"], lambda j: pv(hs1[j]), pv(k), M(d)),
            pigeon(c["Hom_dim_current"], f0, k, N(d))]


def cleared(c):
    """the columns that are left, and products with them"""
    N, D, rad, dim = the(c)
    M = c.run.cache["phM"]
    for con, env, res, old in reversed(c.run.calls):
        if con.key.endswith(":gauss_col"):
            break
    else:
        raise Unsupported("no reduction")
    d = c["d"]
    np_ = c["non_pivots"]
    if getattr(np_, "setop", None) is None:
        raise Unsupported("columns left")
    idx, len_ = np_.setop[2], np_.shape[0]
    AT = c.run.cache.get(("modcols", id(c.run), id(old["A"])))
    if AT is None:
        raise Unsupported("columns of the reduced matrix")
    AT = AT[1]
    A = c.run.mat(old["A"])
    Tz, Rz = colz(c, "T"), colz(c, "Im_aux")
    KP = c.g["KP"][d]
    n, m = N(d), M(d)
    i, k, t = V("i", "k", "t")
    prem = all_([i, k, t], z3.Implies(z3.And(L.inrange(i, m), L.inrange(k, n), L.inrange(t, n), KP[k] == -1),
                                      z3.Or(A.z[i][t] == D[d][i][t], Tz[k][t] == 0)), [[A.z[i][t], Tz[k][t]]])
    concl = all_([i, k], z3.Implies(z3.And(L.inrange(i, m), L.inrange(k, n), KP[k] == -1),
                                    L.fdot(A.z[i], Tz[k], n) == L.fdot(D[d][i], Tz[k], n)),
                 [L.fdot(D[d][i], Tz[k], n), L.fdot(A.z[i], Tz[k], n)])
    return [("killed or free", all_([k], z3.Implies(L.inrange(k, n), z3.And(-1 <= KP[k])), [KP[k]])),
            ("every column left is listed", all_([k], z3.Implies(z3.And(L.inrange(k, n), KP[k] == -1), z3.And(
                L.inrange(idx(k), len_), np_.elt(idx(k)) == k)), [KP[k]])),
            ("the columns listed are left", all_([t], z3.Implies(L.inrange(t, len_), z3.And(
                L.inrange(np_.elt(t), n), KP[np_.elt(t)] == -1, idx(np_.elt(t)) == t)), [np_.elt(t)])),
            ("cleared entries", all_([i, k], z3.Implies(z3.And(L.inrange(i, m), L.inrange(k, n)), A.z[i][k] == z3.If(
                KP[k] == -1, D[d][i][k], 0)), [A.z[i][k]])),
            ("cleared columns are zero", all_([k], z3.Implies(z3.And(L.inrange(k, n), KP[k] != -1), L.ipv(AT[k], m) == -1),
                                              [KP[k], L.ipv(AT[k], m)])),
            ("cleared columns stay zero", all_([i, k], z3.Implies(z3.And(
                L.inrange(i, m), L.inrange(k, n), KP[k] != -1), Rz[k][i] == 0), [[KP[k], Rz[k][i]]])),
            ("cleared columns vanish", all_([k], z3.Implies(z3.And(L.inrange(k, n), KP[k] != -1), L.ipv(Rz[k], m) == -1),
                                            [KP[k], L.ipv(Rz[k], m)])),
            ("cleared columns are not used", all_([k, t], z3.Implies(z3.And(
                L.inrange(k, n), L.inrange(t, n), KP[t] != -1, KP[k] == -1), Tz[k][t] == 0), [[Tz[k][t], KP[t]]])),
            ("cleared or kept", prem), Lem("dot_masked", z3.Implies(prem, concl))]


# ------------------------------------------------ loop 3: components
def vertices(c):
    N, D, rad, dim = the(c)
    g, mx = c.g, c.old["max_rad"]
    HB, HC = c["Hom_bars"], c["Hom_coord"]
    B0, C0 = HB.get(z3.IntVal(0)), HC.get(z3.IntVal(0))
    e = c.extra["entry"]
    e0, f0 = e["Hom_bars"].get(z3.IntVal(0)), e["Hom_coord"].get(z3.IntVal(0))
    np_ = c["non_pivots"]
    if getattr(np_, "setop", None) is None:
        raise Unsupported("vertices left")
    idx = np_.setop[2]
    n = N(z3.IntVal(0))
    HF, KP = g["HF"][0], g["KP"][0]
    cur = c["Hom_dim_current"]
    hs, hb = g["vs"], g["vb"]
    i, j, s = V("i", "j", "s")
    J = z3.And(HF <= j, j < cur)
    done = lambda s: z3.And(L.inrange(s, n), KP[s] == -1, idx(s) < c.it)
    return [same_else(c, "Hom_bars", [z3.IntVal(0)]), same_else(c, "Hom_coord", [z3.IntVal(0)]),
            ("shapes", z3.And(B0.shape[0] == n, B0.shape[1] == 2, C0.shape[0] == n, C0.shape[1] == n, HF <= cur, cur <= n)),
            ("dying generators kept", z3.And(
                z3.ForAll([j], z3.Implies(L.inrange(j, HF), z3.And(hs[j] == g["HS"][0][j], B0.elt(j, 0) == e0.elt(j, 0),
                                                                   B0.elt(j, 1) == e0.elt(j, 1)))),
                z3.ForAll([i, j], z3.Implies(z3.And(L.inrange(i, n), L.inrange(j, HF)), C0.elt(i, j) == f0.elt(i, j))))),
            ("space is zero", z3.ForAll([i, j], z3.Implies(z3.And(cur <= j, j < n, L.inrange(i, n)), C0.elt(i, j) == 0))),
            ("lasting: columns", all_([j], z3.Implies(J, z3.And(done(hs[j]), hb[hs[j]] == j)), [hs[j]])),
            ("lasting: bars", all_([j], z3.Implies(J, z3.And(B0.elt(j, 0) == 0, B0.elt(j, 1) == mx)), [hs[j]])),
            ("lasting: cycles", all_([i, j], z3.Implies(z3.And(J, L.inrange(i, n)), C0.elt(i, j) == z3.If(i == hs[j], 1, 0)),
                                     [[hs[j], C0.elt(i, j)]])),
            ("lasting: all of them", all_([s], z3.Implies(done(s), z3.And(HF <= hb[s], hb[s] < cur, hs[hb[s]] == s)), [hb[s], KP[s]]))]


def vertices_left(c):
    N, D, rad, dim = the(c)
    np_ = c["non_pivots"]
    if getattr(np_, "setop", None) is None:
        raise Unsupported("vertices left")
    idx, len_ = np_.setop[2], np_.shape[0]
    KP, n = c.g["KP"][0], N(z3.IntVal(0))
    k, t = V("k", "t")
    return [("killed or free", all_([k], z3.Implies(L.inrange(k, n), z3.And(-1 <= KP[k])), [KP[k]])),
            ("every vertex left is listed", all_([k], z3.Implies(z3.And(L.inrange(k, n), KP[k] == -1), z3.And(
                L.inrange(idx(k), len_), np_.elt(idx(k)) == k)), [KP[k]])),
            ("the vertices listed are left", all_([t], z3.Implies(L.inrange(t, len_), z3.And(
                L.inrange(np_.elt(t), n), KP[np_.elt(t)] == -1, idx(np_.elt(t)) == t)), [np_.elt(t)]))]


def vertex_room(c):
    N, D, rad, dim = the(c)
    g, k = c.g, c["k"]
    hs, HF, KP = g["vs"], g["HF"][0], g["KP"][0]
    n = N(z3.IntVal(0))
    j = V("j")
    b0 = lambda j: L.ipv(g["GR"][1][hs[j]], c.run.cache["phM"](z3.IntVal(1)))
    f0 = lambda j: z3.If(j < HF, b0(j), hs[j])
    return [("vertex", z3.And(L.inrange(k, n), KP[k] == -1, c["non_pivots"].setop[2](k) == c.it)),
            ("pivots of dying generators", all_([j], z3.Implies(L.inrange(j, HF), z3.And(
                L.inrange(b0(j), n), KP[b0(j)] == hs[j])), [hs[j]])),
            pigeon(c["Hom_dim_current"], f0, k, n)]


VS = dict(vs=(lambda c: c.g["HS"][0], lambda c: z3.Store(c.g["vs"], before(c, "Hom_dim_current"), col_now(c))),
          vb=(lambda c: fresh("vb", AI), lambda c: z3.Store(c.g["vb"], col_now(c), before(c, "Hom_dim_current"))))


def final_ghosts(c):
    g = dict(c.g)
    g["HS"] = z3.Store(g["HS"], 0, g["vs"])
    g["HB"] = z3.Store(g["HB"], 0, g["vb"])
    return g


def summary(c, HB, HC, IB, IC, PI):
    """what the lists hold after the reductions"""
    N, D, rad, dim = the(c)
    g = final_ghosts(c)
    z = z3.IntVal(0)
    return [("lengths", z3.And(*[x.n == dim for x in (HB, HC, IB, IC, PI)]))] + level(c, g, z3.IntVal(1), dim) + \
        [("generators: shapes", shapes(c, z, dim, HB, HC))] + finite(c, g, z, dim, HB, HC) + \
        infinite(c, g, z, dim, HB, HC) + image(c, g, z, dim - 1, IB, IC, PI) + \
        [("no image on top", IB.get(dim - 1).shape[0] == 0),
         ("nothing kills the top", (lambda i: all_([i], z3.Implies(L.inrange(i, N(dim - 1)), g["KP"][dim - 1][i] == -1),
                                                   [g["KP"][dim - 1][i]]))(V("i")))]


# ------------------------------------------------ loop 4: bases of the generators
# OH[e], QH[e]: the order of the bars of dimension e and its inverse; OI, QI for the image
def bases(name):
    def havoc(c):
        n = fresh("len_" + name, I)
        c.run.pc.append(n >= 0)
        fn = lambda x: z3.Function(fresh_name(name + "_" + x), I, I)
        dim, brows, crows, ccols, pdim = [fn(x) for x in ("dim", "brows", "crows", "ccols", "pdim")]
        zb = fresh(name + "_bar", z3.ArraySort(I, nested(2, RE)))
        zc = fresh(name + "_coord", z3.ArraySort(I, nested(2, I)))

        def base(k, fld):
            if fld == "dim":
                return dim(k)
            if fld == "barcode":
                return arr_of(zb[k], [brows(k), z3.IntVal(2)], RE)
            if fld == "coordinates":
                return Arr([crows(k), ccols(k)], lambda i, j: zc[k][j][i], I, zt=zc[k])
            if fld == "pdim":
                return pdim(k)
            raise Unsupported("attribute " + fld)
        return c.run.new(ObjSeq(n, base))
    return havoc


def attr(c, seq, k, fld):
    """attribute of entry k of a list of bases"""
    run = c.run
    if isinstance(seq, PyList):
        if seq.items:
            raise Unsupported("list of bases")
        seq = ObjSeq(0, lambda k, f: {"dim": z3.IntVal(0), "pdim": z3.IntVal(0)}.get(f, Arr(
            [z3.IntVal(0), z3.IntVal(2)], lambda i, j: z3.RealVal(0) if f == "barcode" else z3.IntVal(0),
            RE if f == "barcode" else I)))
    v = seq.base(k, fld)
    for idx, ref in seq.over:
        o = run.heap[ref.id].fields
        if fld == "pdim":
            w = run.heap[o["prev_basis"].id].fields["dim"] if isinstance(o["prev_basis"], Ref) else z3.IntVal(0)
        elif fld == "coordinates":
            w = run.snap(o["coordinates"]) if isinstance(o["coordinates"], Ref) else Arr(
                [z3.IntVal(0), z3.IntVal(0)], lambda i, j: z3.IntVal(0), I)
        else:
            w = run.snap(o[fld])
        if isinstance(w, Arr) and w.nd == 1:
            w0 = w
            w = Arr([w0.shape[0], z3.IntVal(2)], lambda i, j: w0.elt(i), w0.sort)
        if fld in ("dim", "pdim"):
            w = zint(w)
        v = ite_val(k == idx, w, v)
    return v


def one_basis(c, nm, seq, rng, e, B, C, O, Q, pr):
    """entry e holds the bars B and the coordinates C in the order O"""
    N, D, rad, dim = the(c)
    a, i = V("a", "i")
    d, b, co = attr(c, seq, e, "dim"), attr(c, seq, e, "barcode"), attr(c, seq, e, "coordinates")
    n = B.shape[0]
    A = z3.And(rng, L.inrange(a, n))
    return [(nm + ": sizes", z3.ForAll([e], z3.Implies(rng, z3.And(
        d == n, b.shape[0] == n, z3.Implies(n > 0, z3.And(co.shape[0] == N(e), co.shape[1] == n,
                                                         attr(c, seq, e, "pdim") == N(e))))))),
        (nm + ": order", all_([e, a], z3.Implies(A, z3.And(L.inrange(O[e][a], n), Q[e][O[e][a]] == a)), [O[e][a]])),
        (nm + ": order, backwards", all_([e, a], z3.Implies(A, z3.And(L.inrange(Q[e][a], n), O[e][Q[e][a]] == a)), [Q[e][a]])),
        (nm + ": bars", z3.And(*[z3.ForAll([e, a], z3.Implies(A, b.elt(a, x) == B.elt(O[e][a], x))) for x in (0, 1)])),
        (nm + ": coordinates", z3.ForAll([e, a, i], z3.Implies(z3.And(A, L.inrange(i, N(e))), co.elt(i, a) == C.elt(i, O[e][a]))))]


def in_order(c, nm, seq, rng, e, n, pr):
    a, b = V("a", "b")
    bar = attr(c, seq, e, "barcode")
    return (nm + ": bars in order, after rounding", z3.ForAll([e, a, b], z3.Implies(
        z3.And(rng, 0 <= a, a < b, b < n), rounded_le(bar, a, b, pr))))


def built(c):
    N, D, rad, dim = the(c)
    g = c.g
    e, i, a, k = V("e", "i", "a", "k")
    HB, HC, IB, IC, PI = lists(c)
    P0 = c.extra["entry"]["PreIm"]
    H, Im = c["Hom"], c["Im"]
    rng = z3.And(0 <= e, e < c.it)
    pr = z3.IntVal(7)
    out = [("lengths", z3.And(length(H) == c.it, length(Im) == c.it, PI.n == dim)),
           ("stored arrays are copies", z3.BoolVal(not getattr(PI, "shared", False)))]
    out += one_basis(c, "homology", H, rng, e, HB.get(e), HC.get(e), g["OH"], g["QH"], pr)
    out += one_basis(c, "image", Im, rng, e, IB.get(e), IC.get(e), g["OI"], g["QI"], pr)
    out += [in_order(c, "homology", H, rng, e, HB.get(e).shape[0], pr), in_order(c, "image", Im, rng, e, IB.get(e).shape[0], pr)]
    x, y = PI.get(e + 1), P0.get(e + 1)
    n = IB.get(e).shape[0]
    kk = z3.And(z3.Or(k == 0, k > c.it), k < dim)
    u, v = PI.get(k), P0.get(k)
    out += [("preimages: shapes", z3.ForAll([e], z3.Implies(z3.And(rng, e < dim - 1), z3.And(
        x.shape[0] == y.shape[0], x.shape[1] == n)))),
        ("preimages: in the order of the image", z3.ForAll([e, a, i], z3.Implies(z3.And(
            rng, e < dim - 1, L.inrange(a, n), L.inrange(i, N(e + 1))), x.elt(i, a) == y.elt(i, g["OI"][e][a])))),
        ("preimages to come are untouched", z3.And(
            z3.ForAll([k], z3.Implies(kk, z3.And(u.shape[0] == v.shape[0], u.shape[1] == v.shape[1]))),
            z3.ForAll([k, i, a], z3.Implies(kk, u.elt(i, a) == v.elt(i, a)))))]
    return out


def reduced(c):
    return [(nm, f) for nm, f in summary(c, *lists(c))]


def well_defined(c):
    """every bar of dimension d ends after it starts"""
    N, D, rad, dim = the(c)
    g = final_ghosts(c)
    d = c.it
    j = V("j")
    B, IB = c["Hom_bars"].get(d), c["Im_bars"].get(d)
    src, isrc = g["HS"][d][j], g["IS"][d][j]
    return [("bars are well defined", z3.ForAll([j], z3.Implies(L.inrange(j, B.shape[0]), z3.And(
        src >= 0, B.elt(j, 0) < B.elt(j, 1))))),
        ("image bars are well defined", z3.ForAll([j], z3.Implies(L.inrange(j, IB.shape[0]), z3.And(
            isrc >= 0, IB.elt(j, 0) < IB.elt(j, 1))))),
        ("no image on top", z3.Implies(IB.shape[0] > 0, d < dim - 1)),
        ("shapes", z3.And(B.shape[1] == 2, c["Hom_coord"].get(d).shape[0] == N(d), c["Hom_coord"].get(d).shape[1] == B.shape[0],
                          z3.Implies(d < dim - 1, z3.And(IB.shape[1] == 2, c["Im_coord"].get(d).shape[0] == N(d),
                                                         c["Im_coord"].get(d).shape[1] == IB.shape[0],
                                                         c["PreIm"].get(d + 1).shape[1] == IB.shape[0],
                                                         c["PreIm"].get(d + 1).shape[0] == N(d + 1)))))]


def order_of(c, name):
    """the order in which the body sorted the entry appended last to the list"""
    seq = c[name]
    run = c.run
    if not isinstance(seq, ObjSeq) or len(seq.over) != 1:
        raise Unsupported("list of bases")
    ref = seq.over[0][1]
    hit = [s for s in run.cache.get("sorts", []) if s[0] == ref.id]
    if not hit:
        i = V("i")
        return z3.Lambda([i], i), z3.Lambda([i], i)
    if len(hit) > 1:
        raise Unsupported("sorted twice")
    i = V("i")
    return z3.Lambda([i], hit[0][1](i)), z3.Lambda([i], hit[0][2](i))


def named(c, nm, lam):
    """an array constant equal to a function"""
    key = ("named", nm, id(lam))
    a = fresh(nm, AI)
    i = V("i")
    c.run.pc.append(all_([i], a[i] == lam[i], [a[i]]))
    return a


def orders(c, name, which):
    key = ("orders", name, id(c.run), c.it.get_id())
    if key not in c.run.cache:
        o, q = order_of(c, name)
        i = V("i")
        A, Bq = fresh("ord", AI), fresh("iord", AI)
        c.run.pc.append(all_([i], A[i] == z3.simplify(o[i]), [A[i], z3.simplify(o[i])]) if not z3.simplify(o[i]).eq(i)
                        else all_([i], A[i] == i, [A[i]]))
        c.run.pc.append(all_([i], Bq[i] == z3.simplify(q[i]), [Bq[i], z3.simplify(q[i])]) if not z3.simplify(q[i]).eq(i)
                        else all_([i], Bq[i] == i, [Bq[i]]))
        c.run.cache[key] = (A, Bq)
    return c.run.cache[key][which]


BS = dict(OH=(lambda c: fresh("OH", AAI), lambda c: z3.Store(c.g["OH"], c.it, orders(c, "Hom", 0))),
          QH=(lambda c: fresh("QH", AAI), lambda c: z3.Store(c.g["QH"], c.it, orders(c, "Hom", 1))),
          OI=(lambda c: fresh("OI", AAI), lambda c: z3.Store(c.g["OI"], c.it, orders(c, "Im", 0))),
          QI=(lambda c: fresh("QI", AAI), lambda c: z3.Store(c.g["QI"], c.it, orders(c, "Im", 1))))


def final(c):
    """the results, their bars put back in the order of the reductions"""
    N, D, rad, dim = the(c)
    if not isinstance(c.result, VTuple) or len(c.result.items) != 3:
        return [("three lists are returned", z3.BoolVal(False))]
    H, Im, PI = c.result.items
    g = c.g

    def view(seq, Q, coords):
        def get(e):
            d = attr(c, seq, e, "dim")
            if not coords:
                b = attr(c, seq, e, "barcode")
                return Arr([d, z3.IntVal(2)], lambda j, x: b.elt(Q[e][j], x), RE)
            co = attr(c, seq, e, "coordinates")
            return Arr([z3.If(d > 0, co.shape[0], N(e)), z3.If(d > 0, co.shape[1], 0)], lambda i, j: co.elt(i, Q[e][j]), I)
        return SeqOf(length(seq), get)
    QI = g["QI"]
    P = SeqOf(PI.n, lambda k: (lambda t: Arr(t.shape, lambda i, j: t.elt(i, QI[k - 1][j]), I))(PI.get(k)))
    e, a, i = V("e", "a", "i")
    rng = z3.And(0 <= e, e < dim)
    out = []
    for nm, seq, O, Q in (("homology", H, g["OH"], g["QH"]), ("image", Im, g["OI"], g["QI"])):
        n = attr(c, seq, e, "dim")
        A = z3.And(rng, L.inrange(a, n))
        out += [(nm + ": order", all_([e, a], z3.Implies(A, z3.And(
            L.inrange(O[e][a], n), Q[e][O[e][a]] == a, L.inrange(Q[e][a], n), O[e][Q[e][a]] == a)), [O[e][a], Q[e][a]])),
            in_order(c, nm, seq, rng, e, n, z3.IntVal(7))]
    return out + summary(c, view(H, g["QH"], False), view(H, g["QH"], True), view(Im, QI, False), view(Im, QI, True), P)


def int_list(name):
    def havoc(c):
        n = fresh("len_" + name, I)
        c.run.pc.append(n >= 0)
        return c.run.new(arr_const(name, [n], I, islist=True))
    return havoc


DD = lambda c: c["d"]
D1 = lambda c: c["d"] - 1
contract(PH + "persistent_homology", p="p", params=ph_params, requires=ph_requires,
         ensures=final,
         loops={0: Loop(inv=empty_lists, havoc={k: new_mats(k) for k in LISTS}),
                1: Loop(inv=outer, ghosts={k: (INIT[k], STEP[k]) for k in GH},
                        havoc=dict([(k, new_mats(k)) for k in RES], pivots=int_list("pivots"))),
                2: Loop(inv=inner, ghosts={k: (IN_INIT[k], IN_STEP[k]) for k in IN_INIT}, body_hints=inner_room, init_hints=cleared,
                        havoc=dict(Hom_bars=patch("Hom_bars", [DD, D1]), Hom_coord=patch("Hom_coord", [DD, D1]),
                                   Im_bars=patch("Im_bars", [D1]), Im_coord=patch("Im_coord", [D1]),
                                   PreIm=patch("PreIm", [DD]), pivots=int_list("pivots"))),
                3: Loop(inv=vertices, ghosts=VS, body_hints=vertex_room, init_hints=vertices_left,
                        havoc=dict(Hom_bars=patch("Hom_bars", [lambda c: z3.IntVal(0)]),
                                   Hom_coord=patch("Hom_coord", [lambda c: z3.IntVal(0)]))),
                4: Loop(inv=built, ghosts=BS, init_hints=reduced, body_hints=well_defined,
                        havoc=dict(Hom=bases("Hom"), Im=bases("Im"), PreIm=new_mats("PreIm")))})
