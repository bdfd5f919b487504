"""Symbolic values of the verification-condition generator."""
import itertools
import z3

_ctr = itertools.count()


def fresh_name(base):
    return "%s!%d" % (base, next(_ctr))


I, B, RE = z3.IntSort(), z3.BoolSort(), z3.RealSort()
F = z3.DeclareSort("F")
AI = z3.ArraySort(I, I)


class Unsupported(Exception):
    """The source uses something the generator has no rule for."""


class MissingName(Unsupported):
    """A contract refers to a local name the source no longer has."""

    def __init__(self, name):
        Unsupported.__init__(self, "name %r not found" % name)
        self.name = name


def is_z(x):
    return isinstance(x, z3.ExprRef)


def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_z(x):
        if x.sort() == B:
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    raise Unsupported("not a scalar: %r" % (x,))


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    if is_z(x):
        if x.sort() == B:
            return x
        return x != 0
    raise Unsupported("not a truth value: %r" % (x,))


def zscalar(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x == int(x):
            return z3.RealVal(int(x))
        import fractions
        return z3.RealVal(str(fractions.Fraction(x)))
    if is_z(x):
        return x
    raise Unsupported("not a scalar: %r" % (type(x),))


def same_sort(a, b):
    a, b = zscalar(a), zscalar(b)
    if a.sort() == b.sort():
        return a, b
    if a.sort() == B:
        a = zint(a)
    if b.sort() == B:
        b = zint(b)
    if a.sort() == RE and b.sort() == I:
        b = z3.ToReal(b)
    elif a.sort() == I and b.sort() == RE:
        a = z3.ToReal(a)
    if a.sort() != b.sort():
        raise Unsupported("sorts %s %s" % (a.sort(), b.sort()))
    return a, b


class VNone(object):
    def __repr__(self):
        return "None"


NONE = VNone()


class VStr(object):
    def __init__(self, s):
        self.s = s


class VOpaque(object):
    """A value nothing is known about (prints, times, modules...)."""

    def __init__(self, what=""):
        self.what = what


class VTuple(object):
    def __init__(self, items):
        self.items = list(items)


class VRange(object):
    """range(lo, hi, step) with step +1 or -1."""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class VFunc(object):
    """A function of the repository, of numpy or a builtin."""

    def __init__(self, kind, name, bound=None, node=None, mod=None):
        self.kind, self.name, self.bound, self.node, self.mod = kind, name, bound, node, mod


class VClass(object):
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class Ref(object):
    """Reference to a heap cell (ndarray, list, object)."""

    def __init__(self, ident):
        self.id = ident

    def __repr__(self):
        return "Ref(%d)" % self.id


class Arr(object):
    """Immutable snapshot of an array or homogeneous sequence of scalars.

    shape: list of z3 Int; elt(*idx) -> scalar expression (total function);
    sort: element sort. z: nested z3 array term equal to elt, if known (row
    major); zt: the column major one. lin: linear structure mod p, a list of
    (F coefficient, 1-D Arr with z)."""

    def __init__(self, shape, elt, sort, z=None, zt=None, lin=None, islist=False, tag=None):
        self.shape = [zint(s) for s in shape]
        self._elt, self.sort, self.z, self.zt, self.lin = elt, sort, z, zt, lin
        self.islist = islist
        self.src = None       # (heap id, version) for views
        self.tag = tag

    @property
    def nd(self):
        return len(self.shape)

    def elt(self, *idx):
        return self._elt(*[zint(i) for i in idx])

    def __len__(self):
        raise Unsupported("python len of a symbolic array")


class SeqOf(object):
    """Immutable snapshot of a list whose entries are structured: get(i) gives
    the i-th entry (a value); n: length."""

    def __init__(self, n, get, tag=None):
        self.n, self.get, self.tag = zint(n), get, tag


class ObjSeq(SeqOf):
    """List of objects: entry idx is the object ref for (idx, ref) in `over`
    (the latest first to match), any other entry k has the attributes base(k, name)
    and is only seen by contracts."""

    def __init__(self, n, base, over=()):
        SeqOf.__init__(self, n, self.no_get)
        self.base, self.over = base, list(over)

    def no_get(self, k):
        raise Unsupported("entry of a list of objects")


class PyList(object):
    """List of statically known length (heap content)."""

    def __init__(self, items):
        self.items = list(items)


class Obj(object):
    """Instance of a class of the repository (heap content)."""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)


def fresh(base, sort):
    return z3.Const(fresh_name(base), sort)


def nested(nd, sort):
    s = sort
    for _ in range(nd):
        s = z3.ArraySort(I, s)
    return s


def arr_const(base, shape, sort=I, islist=False):
    """An array with unknown contents."""
    nd = len(shape)
    z = fresh(base, nested(nd, sort))
    return arr_of(z, shape, sort, islist)


def arr_of(z, shape, sort=I, islist=False):
    nd = len(shape)
    if nd == 1:
        return Arr(shape, lambda i: z[i], sort, z=z, islist=islist)
    if nd == 2:
        return Arr(shape, lambda i, j: z[i][j], sort, z=z, islist=islist)
    if nd == 3:
        return Arr(shape, lambda i, j, k: z[i][j][k], sort, z=z, islist=islist)
    raise Unsupported("dimension %d" % nd)
