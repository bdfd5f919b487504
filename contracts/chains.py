"""Contracts of permaviss.spectral_sequence.local_chains_class."""
import z3
from pvc import logic as L
from pvc.vals import *
from pvc.vals import fresh, fresh_name
from pvc.models import incr_unique
from pvc.engine import contract, Loop, Lem, ite_val
from .gauss import V, all_, nat

LC = "permaviss.spectral_sequence.local_chains_class:local_chains."
CLS = VClass("permaviss.spectral_sequence.local_chains_class", "local_chains")


# ------------------------------------------------ families of local chains
def fun(name, *sorts):
    return z3.Function(fresh_name(name), *sorts)


def ref_seq(n, rl, rv):
    s = SeqOf(n, lambda i: Arr([rl(i)], lambda k: rv(i, k), I))
    s.conv, s.shared = conv_ref, False
    return s


def coord_seq(n, rl, w, cv):
    def get(i):
        a = Arr([rl(i), w(i)], lambda k, j: cv(i, k, j), I)
        a.eml = True                 # without rows it may be the empty list
        return a
    s = SeqOf(n, get)
    s.conv, s.shared = conv_coord, False
    return s


def conv_ref(run, v):
    v = run.snap(v)
    if isinstance(v, PyList) and not v.items:
        return Arr([z3.IntVal(0)], lambda k: z3.IntVal(0), I)
    a = run.models.as_array(run, v)
    if a.nd != 1 or a.sort != I:
        raise Unsupported("references")
    return a


def conv_coord(run, v):
    v = run.snap(v)
    if isinstance(v, PyList) and not v.items:
        a = Arr([z3.IntVal(0), z3.IntVal(0)], lambda k, j: z3.IntVal(0), I)
        a.eml = True
        return a
    a = run.models.as_array(run, v)
    if a.nd != 2 or a.sort != I:
        raise Unsupported("coordinates")
    return a


def seq(run, v, conv):
    """a list under construction as a symbolic list"""
    v = run.snap(v)
    if isinstance(v, PyList):
        items = [conv(run, x) for x in v.items]
        if not items:
            return ref_seq(z3.IntVal(0), lambda i: z3.IntVal(0), lambda i, k: z3.IntVal(0)) if conv is conv_ref \
                else coord_seq(z3.IntVal(0), lambda i: z3.IntVal(0), lambda i: z3.IntVal(0), lambda i, k, j: z3.IntVal(0))
        raise Unsupported("list of chains")
    if isinstance(v, SeqOf):
        return v
    raise Unsupported("list of chains")


def new_ref(c):
    n = fresh("nref", I)
    c.run.pc.append(n >= 0)
    return c.run.new(ref_seq(n, fun("rl", I, I), fun("rv", I, I, I)))


def new_coord(c):
    n = fresh("ncoord", I)
    c.run.pc.append(n >= 0)
    return c.run.new(coord_seq(n, fun("cl", I, I), fun("cw", I, I), fun("cv", I, I, I, I)))


class Fam(object):
    """symbolic functions of one family: rl, rv (references), cl, cw, cv"""

    def __init__(self, c, name, same=True, n=None):
        self.n = nat(c, "n_" + name) if n is None else n
        self.rl, self.rv = fun("rl_" + name, I, I), fun("rv_" + name, I, I, I)
        self.cl = self.rl if same else fun("cl_" + name, I, I)
        self.cw, self.cv = fun("cw_" + name, I, I), fun("cv_" + name, I, I, I, I)

    def lists(self, run, m=None):
        return run.new(ref_seq(self.n, self.rl, self.rv)), \
            run.new(coord_seq(self.n if m is None else m, self.cl, self.cw, self.cv))

    def obj(self, run, p=NONE):
        r, k = self.lists(run)
        return run.new(Obj(CLS, dict(p=p, ref=r, coord=k)))

    def facts(self):
        i = V("i")
        return all_([i], z3.And(self.rl(i) >= 0, self.cl(i) >= 0, self.cw(i) >= 0), [self.rl(i), self.cl(i), self.cw(i)])

    def increasing(self):
        i, a, b = V("i", "a", "b")
        return all_([i, a, b], z3.Implies(z3.And(L.inrange(i, self.n), 0 <= a, a < b, b < self.rl(i)),
                                          self.rv(i, a) < self.rv(i, b)), [[self.rv(i, a), self.rv(i, b)]])


def fields(c, name="self"):
    run = c.run
    r = c.frame.env[run.rename.get(name, name)]
    o = run.heap[r.id].fields
    for f in ("ref", "coord"):
        if f not in o:
            raise Unsupported("no attribute " + f)
    return seq(run, o["ref"], conv_ref), seq(run, o["coord"], conv_coord)


def same_arr(a, b):
    """formula: arrays of equal shape and entries"""
    idx = [z3.Int(fresh_name("i")) for _ in a.shape]
    return z3.And(*([x == y for x, y in zip(a.shape, b.shape)] +
                    [z3.ForAll(idx, z3.Implies(z3.And(*[L.inrange(i, s) for i, s in zip(idx, b.shape)]),
                                               a.elt(*idx) == b.elt(*idx)))]))


def same_ref(a, b, n):
    """lists of references equal on the first n entries"""
    i, k = V("i", "k")
    x, y = a.get(i), b.get(i)
    return z3.And(z3.ForAll([i], z3.Implies(L.inrange(i, n), x.shape[0] == y.shape[0])),
                  z3.ForAll([i, k], z3.Implies(z3.And(L.inrange(i, n), L.inrange(k, y.shape[0])), x.elt(k) == y.elt(k))))


def same_coord(a, b, n):
    i, k, j = V("i", "k", "j")
    x, y = a.get(i), b.get(i)
    return z3.And(z3.ForAll([i], z3.Implies(L.inrange(i, n), x.shape[0] == y.shape[0])),
                  z3.ForAll([i], z3.Implies(z3.And(L.inrange(i, n), y.shape[0] > 0), x.shape[1] == y.shape[1])),
                  z3.ForAll([i, k, j], z3.Implies(z3.And(L.inrange(i, n), L.inrange(k, y.shape[0]), L.inrange(j, y.shape[1])),
                                                  x.elt(k, j) == y.elt(k, j))))


def own(*ss):
    return ("stored arrays are copies", z3.BoolVal(not any(getattr(s, "shared", False) for s in ss)))


# ------------------------------------------------ __init__
def init_params(c):
    run = c.run
    self = run.new(Obj(CLS, dict(p=NONE)))
    if run.fork(label="two lists"):
        f = Fam(c, "arg", same=False)
        m = nat(c, "m")
        run.cache["fam"] = (f, m)
        r, k = f.lists(run, m)
        return dict(self=self, args=VTuple([r, k]))
    run.cache["fam"] = None
    if run.fork(label="a number"):
        return dict(self=self, args=VTuple([fresh("count", I)]))
    return dict(self=self, args=VTuple([VStr("neither")]))


def init_args(c):
    """(ref list, coord list) or None, count or None"""
    a = c.frame.env[c.run.rename.get("args", "args")]
    if not isinstance(a, VTuple):
        raise Unsupported("arguments")
    if len(a.items) == 2:
        return (seq(c.run, a.items[0], conv_ref), seq(c.run, a.items[1], conv_coord)), None
    if len(a.items) == 1 and is_z(a.items[0]):
        return None, a.items[0]
    return None, None


def init_requires(c):
    if c.run.cache.get("fam") is not None and not getattr(c, "call", False):
        f, m = c.run.cache["fam"]
        return [("sizes", z3.And(f.facts(), m >= 0))]
    return []


def init_bad(c):
    lists, count = init_args(c)
    if lists is None:
        return z3.BoolVal(count is None)
    r, k = lists
    i = V("i")
    if getattr(c, "call", False):
        w = fresh("bad", I)
        return z3.Or(r.n != k.n, z3.And(L.inrange(w, r.n), r.get(w).shape[0] != k.get(w).shape[0]))
    return z3.Or(r.n != k.n, z3.Exists([i], z3.And(L.inrange(i, r.n), r.get(i).shape[0] != k.get(i).shape[0])))


def init_result(c):
    """the state after the call, for callers"""
    run = c.run
    lists, count = init_args(c)
    self = c.frame.env["self"]
    if lists is None:
        if count is None:
            return NONE
        z = z3.IntVal(0)
        n = z3.If(count >= 0, count, 0)
        r, k = ref_seq(n, lambda i: z, lambda i, k: z), coord_seq(n, lambda i: z, lambda i: z, lambda i, k, j: z)
    else:
        i = V("i")
        a, b = lists
        r = SeqOf(a.n, a.get)
        k = SeqOf(b.n, b.get)
        r.conv, k.conv, r.shared, k.shared = conv_ref, conv_coord, False, False
        run.assume(z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(L.inrange(i, a.n), a.get(i).shape[0] == b.get(i).shape[0]))))
    run.setattr(self, "ref", run.new(r))
    run.setattr(self, "coord", run.new(k))
    return NONE


def init_ensures(c):
    if getattr(c, "call", False):
        return []
    lists, count = init_args(c)
    r, k = fields(c)
    out = [own(r, k)]
    if lists is None:
        i = V("i")
        n = z3.If(count >= 0, count, 0)
        return out + [("as many empty entries as asked", z3.And(r.n == n, k.n == n, z3.ForAll([i], z3.Implies(
            L.inrange(i, n), z3.And(r.get(i).shape[0] == 0, k.get(i).shape[0] == 0)))))]
    a, b = lists
    return out + [("one entry per given entry", z3.And(r.n == a.n, k.n == a.n)),
                  ("references as given", same_ref(r, a, a.n)),
                  ("coordinates as given", same_coord(k, b, a.n))]


def init_inv(c):
    lists, count = init_args(c)
    r, k = fields(c)
    a, b = lists
    i = V("i")
    return [("entries so far", z3.And(r.n == c.it, k.n == c.it)), own(r, k),
            ("references as given", same_ref(r, a, c.it)),
            ("coordinates as given", same_coord(k, b, c.it)),
            ("sizes agree", z3.ForAll([i], z3.Implies(L.inrange(i, c.it), a.get(i).shape[0] == b.get(i).shape[0])))]


def init_inv2(c):
    r, k = fields(c)
    i = V("i")
    return [("entries so far", z3.And(r.n == c.it, k.n == c.it)), own(r, k),
            ("empty", z3.ForAll([i], z3.Implies(L.inrange(i, c.it), z3.And(
                r.get(i).shape[0] == 0, k.get(i).shape[0] == 0))))]


HV = {"self.ref": new_ref, "self.coord": new_coord}
contract(LC + "__init__", params=init_params, requires=init_requires, ensures=init_ensures,
         raises={"ValueError": init_bad}, result=init_result, modifies=("self",),
         loops={0: Loop(inv=init_inv, havoc=HV), 1: Loop(inv=init_inv2, havoc=HV)})


# ------------------------------------------------ minus
def minus_params(c):
    f = Fam(c, "self")
    p = fresh("p", I)
    c.run.cache["fam"] = f
    return dict(self=f.obj(c.run, p))


def minus_req(c):
    f = c.run.cache["fam"]
    p = c.run.heap[c.frame.env["self"].id].fields["p"] if not getattr(c, "call", False) else None
    return [("sizes", f.facts()), ("modulus", p >= 1)]


def minus_eq(c, n, upto):
    """entries below `upto` are negated, the others as at entry; references kept"""
    f = c.run.cache["fam"]
    p = c.run.heap[c.frame.env[c.run.rename.get("self", "self")].id].fields["p"]
    r, k = fields(c)
    i, a, j = V("i", "a", "j")
    x = k.get(i)
    sh = z3.And(r.n == f.n, k.n == f.n, z3.ForAll([i], z3.Implies(L.inrange(i, f.n), z3.And(
        x.shape[0] == f.rl(i), z3.Implies(f.rl(i) > 0, x.shape[1] == f.cw(i))))))
    want = z3.If(i < upto, (-f.cv(i, a, j)) % p, f.cv(i, a, j))
    return [("shapes kept", sh),
            ("coordinates negated mod p", z3.ForAll([i, a, j], z3.Implies(z3.And(
                L.inrange(i, f.n), L.inrange(a, f.rl(i)), L.inrange(j, f.cw(i))), x.elt(a, j) == want))),
            ("references kept", same_ref(r, ref_seq(f.n, f.rl, f.rv), f.n))]


contract(LC + "minus", params=minus_params, requires=minus_req, modifies=("self",),
         ensures=lambda c: minus_eq(c, None, c.run.cache["fam"].n),
         loops={0: Loop(inv=lambda c: minus_eq(c, None, c.it), havoc={"self.coord": new_coord})})


# ------------------------------------------------ add_entry
def entry_params(c):
    run = c.run
    f = Fam(c, "self")
    r = arr_const("ref", [nat(c, "rn")])
    if run.fork(label="coord is a list"):
        k = PyList([]) if run.fork(label="empty") else arr_const("coordlist", [nat(c, "kn")], islist=True)
    else:
        k = arr_const("coord", [nat(c, "kn"), nat(c, "kw")])
    run.cache["fam"] = f, r, k
    return dict(self=f.obj(run), index=fresh("index", I), ref=run.new(r), coord=run.new(k))


def entry_islist(k):
    return isinstance(k, PyList) or k.islist


def entry_len(k):
    return z3.IntVal(len(k.items)) if isinstance(k, PyList) else k.shape[0]


def entry_bad(c):
    f, r, k = c.run.cache["fam"]
    if entry_islist(k):
        return z3.Not(z3.And(entry_len(k) == 0, r.shape[0] == 0))
    return r.shape[0] != k.shape[0]


def entry_ensures(c):
    f, r, k = c.run.cache["fam"]
    x = c["index"]
    a, b = fields(c)
    if entry_islist(k):
        return [("nothing stored", z3.And(a.n == f.n, b.n == f.n, same_ref(a, ref_seq(f.n, f.rl, f.rv), f.n),
                                          same_coord(b, coord_seq(f.n, f.rl, f.cw, f.cv), f.n)))]
    i = V("i")
    ea = SeqOf(f.n, lambda q: ite_val(q == x, r, Arr([f.rl(q)], lambda t: f.rv(q, t), I)))
    eb = SeqOf(f.n, lambda q: ite_val(q == x, k, Arr([f.rl(q), f.cw(q)], lambda t, j: f.cv(q, t, j), I)))
    return [("exactly this entry replaced", z3.And(a.n == f.n, b.n == f.n, same_ref(a, ea, f.n), same_coord(b, eb, f.n)))]


contract(LC + "add_entry", params=entry_params, modifies=("self",),
         requires=lambda c: [("sizes", c.run.cache["fam"][0].facts()), ("index", L.inrange(c["index"], c.run.cache["fam"][0].n))],
         raises={"ValueError": entry_bad}, ensures=entry_ensures)


# ------------------------------------------------ __add__
def add_params(c):
    run = c.run
    A = Fam(c, "A")
    Bf = Fam(c, "B")
    run.cache["fam"] = A, Bf
    return dict(self=A.obj(run), B=Bf.obj(run))


def add_req(c):
    A, Bf = c.run.cache["fam"]
    i = V("i")
    return [("sizes", z3.And(A.facts(), Bf.facts(), A.n == Bf.n)),
            ("references in increasing order", z3.And(A.increasing(), Bf.increasing())),
            ("equal numbers of local simplices", z3.ForAll([i], z3.Implies(
                z3.And(L.inrange(i, A.n), A.rl(i) > 0, Bf.rl(i) > 0), A.cw(i) == Bf.cw(i))))]


def add_spec(c, r, k, n):
    A, Bf = c.run.cache["fam"]
    i, t, a, b, j = V("i", "t", "a", "b", "j")
    R, K = r.get(i), k.get(i)
    L1, L2 = L.inrange(i, n), L.inrange(t, R.shape[0])
    def notin(f, x):
        return z3.ForAll([b], z3.Implies(L.inrange(b, f.rl(i)), f.rv(i, b) != x))
    def isin(f, x):
        return z3.Exists([b], z3.And(L.inrange(b, f.rl(i)), f.rv(i, b) == x))
    x = R.elt(t)
    wd = z3.If(A.rl(i) > 0, A.cw(i), Bf.cw(i))
    return [
        ("sizes", z3.ForAll([i], z3.Implies(L1, z3.And(
            R.shape[0] == K.shape[0], R.shape[0] >= 0, z3.Implies(R.shape[0] > 0, K.shape[1] == wd))))),
        ("increasing", z3.ForAll([i, t, a], z3.Implies(z3.And(L1, 0 <= t, t < a, a < R.shape[0]), R.elt(t) < R.elt(a)))),
        ("only references of the summands", z3.ForAll([i, t], z3.Implies(z3.And(L1, L2), z3.Or(isin(A, x), isin(Bf, x))))),
        ("all references of the first", z3.ForAll([i, a], z3.Implies(z3.And(L1, L.inrange(a, A.rl(i))), z3.Exists(
            [t], z3.And(L2, R.elt(t) == A.rv(i, a)))))),
        ("all references of the second", z3.ForAll([i, a], z3.Implies(z3.And(L1, L.inrange(a, Bf.rl(i))), z3.Exists(
            [t], z3.And(L2, R.elt(t) == Bf.rv(i, a)))))),
        ("sum where both have the reference", z3.ForAll([i, t, a, b, j], z3.Implies(
            z3.And(L1, L2, L.inrange(a, A.rl(i)), L.inrange(b, Bf.rl(i)), x == A.rv(i, a), x == Bf.rv(i, b), L.inrange(j, wd)),
            K.elt(t, j) == A.cv(i, a, j) + Bf.cv(i, b, j)))),
        ("the first where only it has the reference", z3.ForAll([i, t, a, j], z3.Implies(
            z3.And(L1, L2, L.inrange(a, A.rl(i)), x == A.rv(i, a), notin(Bf, x), L.inrange(j, wd)), K.elt(t, j) == A.cv(i, a, j)))),
        ("the second where only it has the reference", z3.ForAll([i, t, a, j], z3.Implies(
            z3.And(L1, L2, L.inrange(a, Bf.rl(i)), x == Bf.rv(i, a), notin(A, x), L.inrange(j, wd)), K.elt(t, j) == Bf.cv(i, a, j)))),
    ]


def add_inv(c):
    r, k = seq(c.run, c["new_ref"], conv_ref), seq(c.run, c["new_chains"], conv_coord)
    return [("entries so far", z3.And(r.n == c.it, k.n == c.it))] + add_spec(c, r, k, c.it)


def add_hints(c):
    """the references of the sum, restricted to those of a summand, are that
    summand's references in order"""
    run = c.run
    A, Bf = run.cache["fam"]
    it = c.extra["body"]
    i = c.it - 1
    out = []
    r = seq(run, c["new_ref"], conv_ref).get(i)
    us = [v for v in run.cache.get("uniques", [])]
    for u in us:
        a, back, src = u.uniq
        nA = A.rl(i)
        # unique(append(A, B)): entry q < nA of the argument is A's, the others B's
        q = V("q")
        for f, off in ((A, z3.IntVal(0)), (Bf, nA)):
            out.append(("unique keeps the references", all_([q], z3.Implies(L.inrange(q, f.rl(i)), z3.And(
                L.inrange(back(off + q), u.shape[0]), u.elt(back(off + q)) == f.rv(i, q))), [f.rv(i, q)])))
            out.append(incr_unique(u.shape[0], u.elt, f.rl(i), lambda k, f=f: f.rv(i, k),
                                   lambda k, off=off: src(k) - off, lambda k, off=off: back(off + k)))
    return out


def add_result(c):
    raise Unsupported("addition at a call")


def add_ensures(c):
    res = c.resref
    run = c.run
    if not isinstance(res, Ref) or not isinstance(run.heap[res.id], Obj):
        return [("a new object", z3.BoolVal(False))]
    o = run.heap[res.id]
    params = {run.frames[0].env[x].id for x in run.frames[0].env if isinstance(run.frames[0].env[x], Ref)
              and x in (run.rename.get("self", "self"), run.rename.get("B", "B"))}
    r, k = seq(run, o.fields["ref"], conv_ref), seq(run, o.fields["coord"], conv_coord)
    A, Bf = run.cache["fam"]
    return [("a new object", z3.BoolVal(res.id not in params)), own(r, k),
            ("one entry per index", z3.And(r.n == A.n, k.n == A.n))] + add_spec(c, r, k, A.n)


contract(LC + "__add__", params=add_params, requires=add_req, result=add_result, ensures=add_ensures,
         loops={0: Loop(inv=add_inv, hints=add_hints, havoc={"new_ref": new_ref, "new_chains": new_coord})})


# ------------------------------------------------ sums
def sums_params(c):
    run = c.run
    f = Fam(c, "chains")
    s = arr_const("coord_sums", [nat(c, "nsums"), nat(c, "nold")])
    CZ, SZ = fun("CZ", I, I, AI), fun("SZ", I, I, AI)
    run.cache["fam"] = f, s, CZ, SZ
    return dict(chains=f.obj(run), coord_sums=run.new(s))


def sums_req(c):
    f, s, CZ, SZ = c.run.cache["fam"]
    i, k, j = V("i", "k", "j")
    return [("sizes", f.facts()),
            ("references are column indices", z3.ForAll([i, k], z3.Implies(
                z3.And(L.inrange(i, f.n), L.inrange(k, f.rl(i))), L.inrange(f.rv(i, k), s.shape[1])))),
            # definitions: column j of the coordinates at i; coefficients of sum j at the references of i
            ("CZ", all_([i, j, k], CZ(i, j)[k] == f.cv(i, k, j), [CZ(i, j)[k]])),
            ("SZ", all_([i, j, k], SZ(i, j)[k] == s.elt(j, f.rv(i, k)), [SZ(i, j)[k]]))]


def sums_spec(c, r, k, n):
    f, s, CZ, SZ = c.run.cache["fam"]
    i, t, j = V("i", "t", "j")
    R, K = r.get(i), k.get(i)
    ns = s.shape[0]
    inn = L.inrange(i, n)
    return [
        ("sizes", z3.ForAll([i], z3.Implies(inn, z3.And(
            R.shape[0] == z3.If(f.rl(i) > 0, ns, 0), K.shape[0] == R.shape[0],
            z3.Implies(R.shape[0] > 0, K.shape[1] == f.cw(i)))))),
        ("references are the sums", z3.ForAll([i, t], z3.Implies(z3.And(inn, L.inrange(t, R.shape[0])), R.elt(t) == t))),
        ("coordinates are products", z3.ForAll([i, t, j], z3.Implies(
            z3.And(inn, f.rl(i) > 0, L.inrange(t, ns), L.inrange(j, f.cw(i))),
            K.elt(t, j) == L.idot(CZ(i, j), SZ(i, t), f.rl(i)))))]


def sums_inv(c):
    r, k = seq(c.run, c["new_ref"], conv_ref), seq(c.run, c["new_coord"], conv_coord)
    return [("entries so far", z3.And(r.n == c.it, k.n == c.it))] + sums_spec(c, r, k, c.it)


def sums_hints(c):
    f, s, CZ, SZ = c.run.cache["fam"]
    i = c.it - 1
    j = V("j")
    out = []
    for az, bz in c.run.cache.get("products", []):
        out.append(("columns of the coordinates", all_([j], az.z[j] == CZ(i, j), [az.z[j]])))
        out.append(("coefficients at the references", all_([j], bz.zt[j] == SZ(i, j), [bz.zt[j]])))
    return out


def sums_ensures(c):
    run = c.run
    res = c.resref
    if not isinstance(res, Ref) or not isinstance(run.heap[res.id], Obj):
        return [("a new object", z3.BoolVal(False))]
    o = run.heap[res.id]
    r, k = seq(run, o.fields["ref"], conv_ref), seq(run, o.fields["coord"], conv_coord)
    f = run.cache["fam"][0]
    return [own(r, k), ("one entry per index", z3.And(r.n == f.n, k.n == f.n))] + sums_spec(c, r, k, f.n)


contract(LC + "sums", params=sums_params, requires=sums_req, ensures=sums_ensures,
         loops={0: Loop(inv=sums_inv, hints=sums_hints, havoc={"new_ref": new_ref, "new_coord": new_coord})})


# ------------------------------------------------ copy_seq
def copy_params(c):
    run = c.run
    n = nat(c, "nseq")
    m, rl = fun("m", I, I), fun("rl", I, I, I)
    rv, cw, cv = fun("rv", I, I, I, I), fun("cw", I, I, I), fun("cv", I, I, I, I, I)

    def get(q):
        o = Obj(CLS, dict(p=NONE,
                          ref=run.new(ref_seq(m(q), lambda i: rl(q, i), lambda i, k: rv(q, i, k))),
                          coord=run.new(coord_seq(m(q), lambda i: rl(q, i), lambda i: cw(q, i), lambda i, k, j: cv(q, i, k, j)))))
        o.given = True
        for x in ("ref", "coord"):
            run.heap[o.fields[x].id].given = True
        return o
    run.cache["fam"] = n, m, rl, rv, cw, cv
    return dict(seq_chains=run.new(SeqOf(n, get)))


def copy_req(c):
    n, m, rl, rv, cw, cv = c.run.cache["fam"]
    q, i = V("q", "i")
    return [("sizes", z3.And(all_([q], m(q) >= 0, [m(q)]), all_([q, i], z3.And(rl(q, i) >= 0, cw(q, i) >= 0), [rl(q, i), cw(q, i)])))]


def conv_obj(run, v):
    if not isinstance(v, Ref) or not isinstance(run.heap[v.id], Obj):
        if isinstance(v, VTuple):
            return v
        raise Unsupported("entry of a sequence of chains")
    o = run.heap[v.id]
    r, k = o.fields["ref"], o.fields["coord"]
    cr, ck = seq(run, r, conv_ref), seq(run, k, conv_coord)
    t = VTuple([cr, ck])
    t.bor = bool(getattr(o, "given", False) or getattr(cr, "given", False) or getattr(ck, "given", False)
                 or getattr(cr, "shared", False) or getattr(ck, "shared", False))
    return t


def new_objs(c):
    n = fresh("nobj", I)
    c.run.pc.append(n >= 0)
    m, rl = fun("cm", I, I), fun("crl", I, I, I)
    rv, cl, cw, cv = fun("crv", I, I, I, I), fun("ccl", I, I, I), fun("ccw", I, I, I), fun("ccv", I, I, I, I, I)
    s = SeqOf(n, lambda q: VTuple([ref_seq(m(q), lambda i: rl(q, i), lambda i, k: rv(q, i, k)),
                                   coord_seq(m(q), lambda i: cl(q, i), lambda i: cw(q, i), lambda i, k, j: cv(q, i, k, j))]))
    s.conv, s.shared = conv_obj, False
    return c.run.new(s)


def objs(run, v):
    v = run.snap(v)
    if isinstance(v, PyList) and not v.items:
        s = SeqOf(z3.IntVal(0), lambda q: VTuple([ref_seq(z3.IntVal(0), lambda i: z3.IntVal(0), lambda i, k: z3.IntVal(0)),
                                                  coord_seq(z3.IntVal(0), lambda i: z3.IntVal(0), lambda i: z3.IntVal(0),
                                                            lambda i, k, j: z3.IntVal(0))]))
        s.shared = False
        return s
    if isinstance(v, SeqOf):
        return v
    raise Unsupported("sequence of chains")


def copy_spec(c, s, n):
    N, m, rl, rv, cw, cv = c.run.cache["fam"]
    q, i, k, j = V("q", "i", "k", "j")
    r, x = s.get(q).items
    R, X = r.get(i), x.get(i)
    q1 = L.inrange(q, n)
    q2 = z3.And(q1, L.inrange(i, m(q)))
    return [own(s),
            ("as many entries", z3.ForAll([q], z3.Implies(q1, z3.And(r.n == m(q), x.n == m(q))))),
            ("sizes", z3.ForAll([q, i], z3.Implies(q2, z3.And(R.shape[0] == rl(q, i), X.shape[0] == rl(q, i),
                                                              z3.Implies(rl(q, i) > 0, X.shape[1] == cw(q, i)))))),
            ("references", z3.ForAll([q, i, k], z3.Implies(z3.And(q2, L.inrange(k, rl(q, i))), R.elt(k) == rv(q, i, k)))),
            ("coordinates", z3.ForAll([q, i, k, j], z3.Implies(z3.And(q2, L.inrange(k, rl(q, i)), L.inrange(j, cw(q, i))),
                                                               X.elt(k, j) == cv(q, i, k, j))))]


def copy_inv(c):
    s = objs(c.run, c["copy_seq"])
    return [("entries so far", s.n == c.it)] + copy_spec(c, s, c.it)


def copy_ensures(c):
    s = objs(c.run, c.resref)
    n = c.run.cache["fam"][0]
    return [("one copy per element", s.n == n)] + copy_spec(c, s, n)


contract(LC + "copy_seq", params=copy_params, requires=copy_req, ensures=copy_ensures,
         loops={0: Loop(inv=copy_inv, havoc={"copy_seq": new_objs})})
