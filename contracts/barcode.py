"""Contracts of permaviss.persistence_algebra.barcode_bases."""
import z3
from pvc import logic as L
from pvc.vals import *
from pvc.vals import fresh, fresh_name
from pvc.models import index_terms
from pvc import models as M
from pvc.engine import contract, Loop, num, Lem
from .gauss import V, all_, nat, matrix, colmajor, prime_of

BB = "permaviss.persistence_algebra.barcode_bases:"
CLS = VClass("permaviss.persistence_algebra.barcode_bases", "barcode_basis")


# ------------------------------------------------ enumerations of a set of indices
def enum(c, n, pred):
    """The increasing enumeration (count, sel, pos) of {i < n : pred(i)}: a
    definition (it exists and is unique), used to say 'exactly those, in order'."""
    m = Arr([n], pred, B)
    out = c.run.models.mask_sel(c.run, m)
    c.run.cache.setdefault("specmasks", []).append(m)
    return out


def enum_lemmas(c):
    """Increasing enumerations of equal sets are equal (lemma enum_unique)."""
    run = c.run
    spec = run.cache.get("specmasks", [])
    ids = {id(m) for m in spec}
    out = []
    for k, v in list(run.cache.items()):
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Arr) and isinstance(v[1], tuple)
                and len(v[1]) == 3 and v[0].sort == B and isinstance(k, int)):
            continue
        m, (cnt, sel, pos) = v
        if id(m) in ids:
            continue
        for s in spec:
            c2, sel2, pos2 = run.cache[id(s)][1]
            i, a = V("i", "a")
            out.append(Lem("enum_unique", z3.Implies(
                z3.And(m.shape[0] == s.shape[0],
                       z3.ForAll([i], z3.Implies(L.inrange(i, m.shape[0]), m.elt(i) == s.elt(i)))),
                z3.And(cnt == c2, all_([a], z3.Implies(L.inrange(a, cnt), sel(a) == sel2(a)), [sel(a), sel2(a)])))))
    return out


def basis(c, name, prev=None, broken=None, n=None):
    run = c.run
    n = nat(c, "dim") if n is None else n
    f = dict(barcode=run.new(arr_const(name + "_bar", [n, z3.IntVal(2)], RE)), dim=n,
             prev_basis=prev if prev is not None else NONE,
             coordinates=run.new(arr_const(name + "_coord", [nat(c, "prevdim"), n])) if prev is not None
             else run.new(Arr([z3.IntVal(1), z3.IntVal(0)], lambda i, j: z3.RealVal(0), RE)),
             sorted=fresh("sorted", B), broken_basis=z3.BoolVal(bool(broken)),
             broken_differentials=run.new(arr_const(name + "_broken", [n, n])) if broken else NONE)
    return run.new(Obj(CLS, f))


def field(c, name, fld, old=False):
    """value of an attribute of a parameter, now or at entry"""
    run = c.run
    if old:
        o = c.old[name]
        if isinstance(o, Obj):
            return o.fields[fld]
        raise Unsupported("old object")
    r = c.frame.env[run.rename.get(name, name)]
    return run.snap(run.heap[r.id].fields[fld])


def bars(c, old=False):
    return field(c, "self", "barcode", old), field(c, "self", "dim", old)


def well_formed(c):
    b, d = bars(c)
    if b.nd != 2:
        return [("bars are a matrix with two columns", z3.BoolVal(False))]
    return [("one row of two end points per bar", z3.And(b.shape[0] == d, b.shape[1] == 2, d >= 0))]


# ------------------------------------------------ queries
def query(name, pred):
    def the(c):
        b, d = bars(c, old=c.old is not None)
        r = c["rad"] if c.old is None else c.old["rad"]
        r = z3.ToReal(r) if r.sort() == I else r
        return enum(c, d, lambda i: pred(b, i, r)), d

    def result(c):
        (cnt, sel, pos), d = the(c)
        c.run.cache[("query", id(c.frame))] = (cnt, sel)
        return Arr([cnt], lambda a: sel(a), I)

    def ensures(c):
        if getattr(c, "call", False):
            return []
        (cnt, sel, pos), d = c.run.cache["query"]
        a = V("a")
        return [("exactly the indices, in order", z3.And(c.result.shape[0] == cnt, all_([a], z3.Implies(
            L.inrange(a, cnt), c.result.elt(a) == sel(a)), [sel(a)])))]

    def hints(c):
        c.run.cache["query"] = the(c)
        return enum_lemmas(c)
    contract(BB + "barcode_basis." + name,
             params=lambda c: dict(self=basis(c, "self"), rad=fresh("rad", RE)),
             requires=well_formed, result=result, ensures=ensures, hints=hints)


query("active", lambda b, i, r: z3.And(b.elt(i, 0) <= r, r < b.elt(i, 1)))
query("birth", lambda b, i, r: b.elt(i, 0) == r)
query("death", lambda b, i, r: b.elt(i, 1) == r)


# ------------------------------------------------ changes_list
def changes_post(c):
    b, d = bars(c, old=True)
    r = c.result
    a, e, i, x = V("a", "e", "i", "x")
    if getattr(c, "call", False):
        w = z3.Function(fresh_name("cw"), I, I, I)
        s1, s2 = z3.Function(fresh_name("cs"), I, I), z3.Function(fresh_name("ct"), I, I)
        ex = lambda i, x: z3.And(L.inrange(w(i, x), r.shape[0]), r.elt(w(i, x)) == b.elt(i, x))
        fr = lambda a: z3.And(L.inrange(s1(a), d), L.inrange(s2(a), 2), r.elt(a) == b.elt(s1(a), s2(a)))
    else:
        ex = lambda i, x: z3.Exists([e], z3.And(L.inrange(e, r.shape[0]), r.elt(e) == b.elt(i, x)))
        fr = lambda a: z3.Exists([i], z3.And(L.inrange(i, d), z3.Or(r.elt(a) == b.elt(i, 0), r.elt(a) == b.elt(i, 1))))
    k = V("k")
    return [("strictly increasing", all_([a, e], z3.Implies(z3.And(0 <= a, a < e, e < r.shape[0]),
                                                            r.elt(a) < r.elt(e)), [[r.elt(a), r.elt(e)]])),
            ("every end point is listed", z3.And(*[all_([k], z3.Implies(L.inrange(k, d), ex(k, z3.IntVal(x))),
                                                        [b.elt(k, x)]) for x in (0, 1)])),
            ("only end points are listed", all_([a], z3.Implies(L.inrange(a, r.shape[0]), fr(a)), [r.elt(a)]))]


def changes_hints(c):
    # entry 2*i + x of the flattened matrix is end point x of bar i
    b, d = bars(c, old=True)
    r = c.result
    u = getattr(r, "uniq", None)
    if u is None:
        return []
    a, back, src = u
    i = V("i")
    out = []
    for x in (0, 1):
        e = 2 * i + x
        out.append(("position of end point %d" % x, all_([i], z3.Implies(L.inrange(i, d), z3.And(
            L.inrange(back(e), r.shape[0]), a.elt(e) == b.elt(i, x), r.elt(back(e)) == b.elt(i, x))), [b.elt(i, x)])))
    t = src(i)
    out.append(("origin of an entry", all_([i], z3.Implies(L.inrange(i, r.shape[0]), z3.And(
        L.inrange(t / 2, d), z3.Or(r.elt(i) == b.elt(t / 2, 0), r.elt(i) == b.elt(t / 2, 1)))), [r.elt(i)])))
    return out


contract(BB + "barcode_basis.changes_list", params=lambda c: dict(self=basis(c, "self")),
         requires=well_formed, result=lambda c: arr_const("radii", [nat(c, "nrad")], RE),
         ensures=changes_post, hints=changes_hints)


# ------------------------------------------------ sort
def separated(c):
    """end points that differ, differ after rounding to the precision"""
    b, d = bars(c)
    pr = c["precision"]
    i, j = V("i", "j")
    out = []
    for x in (0, 1):
        out.append(all_([i, j], z3.Implies(z3.And(L.inrange(i, d), L.inrange(j, d),
                                                  M.rnd(b.elt(i, x), pr) == M.rnd(b.elt(j, x), pr)),
                                           b.elt(i, x) == b.elt(j, x)),
                        [[M.rnd(b.elt(i, x), pr), M.rnd(b.elt(j, x), pr)]]))
    return [("end points differ beyond the precision", z3.And(*out))]


def sort_params(c):
    prev = NONE
    if c.run.fork():
        prev = basis(c, "prev")
    broken = c.run.fork()
    send = c.run.fork()
    return dict(self=basis(c, "self", prev if prev is not NONE else None, broken),
                precision=fresh("precision", I), send_order=send)


def sort_post(c):
    if getattr(c, "call", False):
        return []                 # see sort_effect: the order and the fields are defined by these conditions
    b0, d = bars(c, old=True)
    b1, d1 = bars(c)
    a, e, i, x = V("a", "e", "i", "x")
    send = c.old["send_order"]
    order = c.result if isinstance(c.result, Arr) else c["order"]
    ordf = order.elt
    sep = z3.And(*[f for _, f in separated(c)])
    pr = c.old["precision"]
    out = [("one bar per entry of the order", z3.And(order.shape[0] == d, d1 == d, b1.shape[0] == d, b1.shape[1] == 2)),
           ("permutation: in range", all_([a], z3.Implies(L.inrange(a, d), L.inrange(ordf(a), d)), [ordf(a)])),
           ("permutation: injective", all_([a, e], z3.Implies(z3.And(0 <= a, a < e, e < d), ordf(a) != ordf(e)),
                                           [[ordf(a), ordf(e)]])),
           ("bars permuted", z3.And(*[all_([a], z3.Implies(L.inrange(a, d), b1.elt(a, k) == b0.elt(ordf(a), k)),
                                           [ordf(a)]) for k in (0, 1)])),
           ("births do not decrease", z3.Implies(sep, z3.ForAll([a, e], z3.Implies(
               z3.And(0 <= a, a < e, e < d), b1.elt(a, 0) <= b1.elt(e, 0))))),
           ("deaths do not increase among equal births", z3.Implies(sep, z3.ForAll([a, e], z3.Implies(
               z3.And(0 <= a, a < e, e < d, b1.elt(a, 0) == b1.elt(e, 0)), b1.elt(a, 1) >= b1.elt(e, 1))))),
           ("ordered after rounding", z3.ForAll([a, e], z3.Implies(z3.And(0 <= a, a < e, e < d), rounded_le(b1, a, e, pr))))]
    o = c.old["self"].fields
    if o["prev_basis"] is not NONE:
        c0, c1 = field(c, "self", "coordinates", True), field(c, "self", "coordinates")
        out.append(("coordinates permuted", z3.And(c1.shape[0] == c0.shape[0], c1.shape[1] == d, z3.ForAll(
            [i, a], z3.Implies(z3.And(L.inrange(i, c0.shape[0]), L.inrange(a, d)),
                               c1.elt(i, a) == c0.elt(i, ordf(a)))))))
    if z3.is_true(o["broken_basis"]):
        c0, c1 = field(c, "self", "broken_differentials", True), field(c, "self", "broken_differentials")
        out.append(("broken differentials permuted", z3.And(c1.shape[0] == d, c1.shape[1] == d, z3.ForAll(
            [i, a], z3.Implies(z3.And(L.inrange(i, d), L.inrange(a, d)),
                               c1.elt(i, a) == c0.elt(ordf(i), ordf(a)))))))
    if send is True or (is_z(send) and z3.is_true(send)):
        out.append(("the order is returned", z3.BoolVal(isinstance(c.result, Arr))))
    out.append(("marked sorted", zbool(field(c, "self", "sorted"))))
    # nothing else changes
    run = c.run
    me = run.heap[c.frame.env[run.rename.get("self", "self")].id].fields
    was = c.old.heap[c.frame.env[run.rename.get("self", "self")].id].fields
    keep = [k for k in was if k not in ("barcode", "coordinates", "broken_differentials", "sorted")]
    same = all(k in me and (me[k] is was[k] or isinstance(me[k], Ref) and isinstance(was[k], Ref) and me[k].id == was[k].id)
               for k in keep)
    cells = set()
    for k in keep:
        if isinstance(was[k], Ref):
            run.collect_cells(was[k], cells)
    out.append(("the rest, and the previous basis, are untouched",
                z3.BoolVal(same and all(run.heap[h] is c.old.heap[h] for h in cells))))
    return out


def rounded_le(b, a, e, pr):
    r = lambda i, x: M.rnd(b.elt(i, x), pr)
    return z3.Or(r(a, 0) < r(e, 0), z3.And(r(a, 0) == r(e, 0), r(a, 1) >= r(e, 1)))


def sort_effect(c):
    """What sort_post says, at a call: fields defined through the order."""
    run = c.run
    ref = c.env["self"]
    o = run.heap[ref.id]
    b, d = bars(c)
    perm, inv = run.models.permutation(run, d)
    pr = num(run.snap(c.env["precision"]))
    f = dict(o.fields)
    b1 = Arr([d, z3.IntVal(2)], lambda a, k: b.elt(perm(a), k), RE)
    f["barcode"], f["sorted"] = run.new(b1), z3.BoolVal(True)
    if f["prev_basis"] is not NONE:
        co = run.snap(f["coordinates"])
        f["coordinates"] = run.new(Arr([co.shape[0], d], lambda i, a: co.elt(i, perm(a)), co.sort))
    if not z3.is_false(zbool(f["broken_basis"])):
        raise Unsupported("call of sort in a broken basis")
    run.heap[ref.id] = Obj(o.cls, f)
    run.ver[ref.id] += 1
    a, e = V("a", "e")
    run.assume(all_([a, e], z3.Implies(z3.And(0 <= a, a < e, e < d), rounded_le(b1, a, e, pr)), [[perm(a), perm(e)]]))
    run.cache.setdefault("sorts", []).append((ref.id, perm, inv, d))
    r = Arr([d], lambda a: perm(a), I)
    r.perm = (perm, inv)
    c.sort_order = r


def sort_result(c):
    if getattr(c, "call", False):
        send = zbool(c.env["send_order"]) if not isinstance(c.env["send_order"], bool) else z3.BoolVal(c.env["send_order"])
        send = z3.simplify(send)
        if not (z3.is_true(send) or z3.is_false(send)):
            raise Unsupported("send_order")
        return c.sort_order if z3.is_true(send) else NONE
    return NONE


contract(BB + "barcode_basis.sort", params=sort_params, modifies=("self",),
         requires=well_formed, effect=sort_effect, result=sort_result, ensures=sort_post)


# ------------------------------------------------ __init__
def init_params(c):
    run = c.run
    N = nat(c, "N")
    empty = run.fork()
    prev = basis(c, "prev") if run.fork() else NONE
    broken = run.fork()
    if run.fork():
        bd = arr_const("bd", [nat(c, "bdr"), nat(c, "bdc")])
    else:
        bd = NONE
    obj = Obj(CLS, dict(prev_basis=NONE))
    return dict(self=run.new(obj), bars=run.new(PyList([])) if empty else arr_const("bars", [N, z3.IntVal(2)], RE),
                prev_basis=prev, coordinates=arr_const("coordinates", [nat(c, "crows"), nat(c, "ccols")]),
                store_well_defined=False if empty else run.fork(), broken_basis=broken, broken_differentials=bd)


def init_enum(c):
    b = c.old["bars"] if c.old is not None else c["bars"]
    if isinstance(b, PyList):
        if b.items:
            raise Unsupported("bars given as a list")
        return z3.IntVal(0), lambda a: z3.IntVal(0), lambda a: z3.IntVal(0)
    key = ("initenum", id(c.frame))
    if key not in c.run.cache:
        c.run.cache[key] = (c.frame, enum(c, b.shape[0], lambda i: b.elt(i, 0) < b.elt(i, 1)))
    return c.run.cache[key][1]


def nbars(b):
    return z3.IntVal(len(b.items)) if isinstance(b, PyList) else b.shape[0]


def flag(v):
    return z3.simplify(zbool(v) if is_z(v) else z3.BoolVal(bool(v)))


def init_bad(c):
    cnt, sel, pos = init_enum(c)
    o = c.old
    b, co = o["bars"], o["coordinates"]
    bad = []
    broken = z3.is_true(flag(o["broken_basis"]))
    prev = c.frame.env[c.run.rename.get("prev_basis", "prev_basis")] if c.old is None else o["prev_basis"]
    if broken and o["broken_differentials"] is NONE:
        bad.append(z3.BoolVal(True))
    if prev is not NONE:
        pd = c.run.snap(prev.fields["dim"]) if isinstance(prev, Obj) else c.run.heap[prev.id].fields["dim"]
        bad.append(z3.And(co.shape[1] > 0, z3.Or(co.shape[0] != pd, nbars(b) != co.shape[1])))
    if broken and o["broken_differentials"] is not NONE:
        d = o["broken_differentials"]
        bad.append(z3.Or(d.shape[0] != cnt, d.shape[1] != cnt))
    return z3.Or(*bad) if bad else z3.BoolVal(False)


def init_post(c):
    cnt, sel, pos = init_enum(c)
    o = c.old
    b, co = o["bars"], o["coordinates"]
    f = lambda x: field(c, "self", x)
    a, i = V("a", "i")
    nb, d = f("barcode"), f("dim")
    n = nbars(b)
    out = [("dimension is the number of bars with birth < death", zint(d) == cnt),
           ("one row per bar kept", nb.shape[0] == cnt)]
    if isinstance(b, Arr):
        well = lambda i: b.elt(i, 0) < b.elt(i, 1)
        out += [("exactly those bars, in order", z3.And(nb.shape[0] == cnt, z3.BoolVal(nb.nd == 2), *[all_([a], z3.Implies(
            L.inrange(a, cnt), nb.elt(a, k) == b.elt(sel(a), k)), [sel(a)]) for k in (0, 1)])),
            ("all bars well defined: all are kept", z3.Implies(
                z3.ForAll([i], z3.Implies(L.inrange(i, n), well(i))),
                z3.And(cnt == n, all_([a], z3.Implies(L.inrange(a, n), sel(a) == a), [sel(a)]))))]
    nc = f("coordinates")
    ref = c.run.heap[c.frame.env[c.run.rename.get("self", "self")].id].fields
    if o["prev_basis"] is not NONE:
        out.append(("coordinates of those bars", z3.Implies(co.shape[1] > 0, z3.And(
            nc.shape[0] == co.shape[0], nc.shape[1] == cnt, z3.ForAll([i, a], z3.Implies(
                z3.And(L.inrange(i, co.shape[0]), L.inrange(a, cnt)), nc.elt(i, a) == co.elt(i, sel(a))))))))
        out.append(("no coordinates: stored as given", z3.Implies(co.shape[1] == 0, z3.And(
            nc.shape[0] == co.shape[0], nc.shape[1] == 0))))
        pv = ref["prev_basis"]
        out.append(("previous basis stored", z3.BoolVal(isinstance(pv, Ref) and pv.id ==
                                                         c.frame.env[c.run.rename.get("prev_basis", "prev_basis")].id)))
    else:
        out.append(("no previous basis", z3.BoolVal(ref["prev_basis"] is NONE)))
    out.append(("not sorted yet", z3.Not(zbool(ref["sorted"]))))
    out.append(("whether broken is stored", flag(ref["broken_basis"]) == flag(o["broken_basis"])))
    if z3.is_true(flag(o["broken_basis"])):
        d0, d1 = o["broken_differentials"], f("broken_differentials")
        out.append(("broken differentials stored", z3.And(d1.shape[0] == d0.shape[0], d1.shape[1] == d0.shape[1],
                                                          z3.ForAll([i, a], d1.elt(i, a) == d0.elt(i, a)))))
    if z3.is_true(flag(o["store_well_defined"])) and isinstance(b, Arr):
        w = f("well_defined")
        out.append(("mask of the bars kept", z3.And(w.shape[0] == b.shape[0], z3.ForAll([i], z3.Implies(
            L.inrange(i, b.shape[0]), w.elt(i) == (b.elt(i, 0) < b.elt(i, 1)))))))
    return out


def init_effect(c):
    """What init_post says, at a call: fields defined through the enumeration."""
    run = c.run
    ref = c.env["self"]
    b, co = c.old["bars"], c.old["coordinates"]
    if not z3.is_false(flag(c.env["broken_basis"])):
        raise Unsupported("construction of a broken basis")
    f = dict(broken_basis=z3.BoolVal(False), broken_differentials=NONE, sorted=z3.BoolVal(False),
             prev_basis=c.env["prev_basis"])
    cnt, sel, pos = init_enum(c)
    f["dim"] = cnt
    if isinstance(b, Arr):
        f["barcode"] = run.new(Arr([cnt, z3.IntVal(2)], lambda a, k: b.elt(sel(a), k), RE))
    else:
        f["barcode"] = run.new(Arr([z3.IntVal(0)], lambda a: z3.RealVal(0), RE))
    if f["prev_basis"] is NONE:
        f["coordinates"] = VOpaque("coordinates")
    else:
        f["coordinates"] = run.new(Arr([co.shape[0], z3.If(co.shape[1] > 0, cnt, 0)], lambda i, a: co.elt(i, sel(a)), co.sort))
    if z3.is_true(flag(c.env["store_well_defined"])):
        # the mask the enumeration belongs to
        m = run.cache["specmasks"][-1] if isinstance(b, Arr) else None
        if m is None or run.cache.get(id(m), (None, None))[1] is None or run.cache[id(m)][1][0] is not cnt:
            raise Unsupported("mask")
        f["well_defined"] = run.new(m)
    run.heap[ref.id] = Obj(run.heap[ref.id].cls, f)
    run.ver[ref.id] += 1


def init_requires(c):
    b = c["bars"]
    out = [("mask only for nonempty bars", z3.Or(nbars(b) > 0, z3.Not(flag(c["store_well_defined"]))))]
    if isinstance(b, Arr):
        out.append(("two end points", b.shape[1] == 2) if b.nd == 2 else ("bars are a matrix", z3.BoolVal(False)))
    return out


def init_hints(c):
    cnt, sel, pos = init_enum(c)
    out = enum_lemmas(c)
    b = c.old["bars"]
    if isinstance(b, Arr):
        i, a = V("i", "a")
        # the enumeration of everything is the identity
        out.append(Lem("enum_unique", z3.Implies(
            z3.ForAll([i], z3.Implies(L.inrange(i, b.shape[0]), b.elt(i, 0) < b.elt(i, 1))),
            z3.And(cnt == b.shape[0], all_([a], z3.Implies(L.inrange(a, b.shape[0]), sel(a) == a), [sel(a)])))))
    return out


contract(BB + "barcode_basis.__init__", params=init_params, modifies=("self",),
         requires=init_requires, raises={"ValueError": init_bad}, ensures=init_post, effect=init_effect,
         hints=init_hints, raise_hints=lambda c, e: init_hints(c))


# ------------------------------------------------ update_broken
def ub_params(c):
    s = basis(c, "self", None, True)
    n = c.run.heap[s.id].fields["dim"]
    return dict(self=s, A=arr_const("A", [n, nat(c, "acols")]), rad=fresh("rad", RE), p=fresh("p", I))


def ub_spec(c):
    A0, r, p = c.old["A"], c.old["rad"], c.old["p"]
    b, d = bars(c, old=True)
    D = c.run.mat(field(c, "self", "broken_differentials", True))
    dying = lambda i: b.elt(i, 1) == r
    key = ("ubW", id(c.run))
    if key not in c.run.cache:
        W = Arr([A0.shape[0], A0.shape[1]], lambda k, j: z3.If(dying(k), A0.elt(k, j), 0), I)
        c.run.cache[key] = c.run.mat(W, col=True)
    return A0, p, d, D, dying, c.run.cache[key]


def ub_post(c):
    A0, p, d, D, dying, W = ub_spec(c)
    R = c.result
    i, j, k = V("i", "j", "k")
    some = z3.Exists([k], z3.And(L.inrange(k, d), dying(k)))
    rng = z3.And(L.inrange(i, d), L.inrange(j, A0.shape[1]))
    return [("shape", z3.And(R.shape[0] == A0.shape[0], R.shape[1] == A0.shape[1])),
            ("nothing dies: unchanged", z3.Or(some, z3.ForAll([i, j], z3.Implies(rng, R.elt(i, j) == A0.elt(i, j))))),
            ("dying rows replaced through the broken differentials mod p", z3.Or(z3.Not(some), z3.ForAll(
                [i, j], z3.Implies(rng, R.elt(i, j) == (z3.If(dying(i), 0, A0.elt(i, j)) +
                                                        L.idot(D.z[i], W.zt[j], d)) % p))))]


def ub_hints(c):
    A0, p, d, D, dying, W = ub_spec(c)
    out = []
    # the products computed by the code: arrays with attribute prod
    for con, env, res, old in c.run.calls:
        if con.key.endswith(".death"):
            idx = res
            i, j, a, b2, k = V("i", "j", "a", "b", "k")
            for (X, Y) in c.run.cache.get("products", []):
                X, Y = c.run.mat(X), c.run.mat(Y, col=True)
                n = X.shape[1]
                out.append(("the first dying generator", z3.Implies(n > 0, z3.And(
                    L.inrange(idx.elt(0), d), dying(idx.elt(0))))))
                prem = [("columns of the dying generators", z3.And(n == idx.shape[0], z3.ForAll(
                    [i, a], z3.Implies(z3.And(L.inrange(i, d), L.inrange(a, n)), X.z[i][a] == D.z[i][idx.elt(a)])))),
                    ("rows of the dying generators", z3.ForAll([j, a], z3.Implies(
                        z3.And(L.inrange(j, A0.shape[1]), L.inrange(a, n)), Y.zt[j][a] == W.zt[j][idx.elt(a)]))),
                    ("distinct indices", z3.ForAll([a, b2], z3.Implies(z3.And(0 <= a, a < b2, b2 < n),
                                                                       z3.And(idx.elt(a) != idx.elt(b2))))),
                    ("in range", z3.ForAll([a], z3.Implies(L.inrange(a, n), L.inrange(idx.elt(a), d)))),
                    ("zero elsewhere", z3.ForAll([j, k], z3.Implies(z3.And(
                        L.inrange(j, A0.shape[1]), L.inrange(k, d), W.zt[j][k] != 0),
                        z3.Exists([a], z3.And(L.inrange(a, n), idx.elt(a) == k)))))]
                out += prem
                out.append(Lem("idot_scatter", z3.Implies(z3.And(*[q[1] for q in prem]), all_(
                    [i, j], z3.Implies(z3.And(L.inrange(i, d), L.inrange(j, A0.shape[1])),
                                       L.idot(X.z[i], Y.zt[j], n) == L.idot(D.z[i], W.zt[j], d)),
                    [L.idot(X.z[i], Y.zt[j], n), L.idot(D.z[i], W.zt[j], d)]))))
    return out


contract(BB + "barcode_basis.update_broken", params=ub_params, modifies=("A",),
         requires=lambda c: well_formed(c) + [("one row per bar", c["A"].shape[0] == field(c, "self", "dim")),
                                              ("modulus positive", c["p"] >= 1)],
         result=lambda c: NONE, ensures=ub_post, hints=ub_hints)
