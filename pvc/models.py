"""Assumed contracts of builtins and of the numpy/scipy functions the code uses
(trusted; each use is recorded and reported)."""
import ast, copy
import z3
from . import logic as L
from .vals import *
from .vals import fresh, fresh_name
from .engine import (PyRaise, VEnum, VZip, VMaybe, num, lin_of, row_of, copy_arr, ite_val, CMP,
                     PathEnd, Frame, zero_of)

rnd = z3.Function("around", RE, I, RE)      # np.around
fceil = None


def consts(base, n=1, sort=I):
    r = [z3.Const(fresh_name(base), sort) for _ in range(n)]
    return r[0] if n == 1 else r


def index_terms(body, x):
    """Subterms of body in which x is directly an argument of a select or of an
    uninterpreted function (candidate triggers)."""
    out, seen = [], set()

    def go(t):
        if t.get_id() in seen or not z3.is_app(t):
            return
        seen.add(t.get_id())
        k = t.decl().kind()
        if k in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and any(c.eq(x) for c in t.children()):
            if not any(has_ite(c) for c in t.children()):
                out.append(t)
        for c in t.children():
            go(c)
    go(body)
    return out


def has_ite(t):
    if z3.is_app(t):
        if t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE):
            return True
        return any(has_ite(c) for c in t.children())
    return False


class Models(object):
    def __init__(self):
        self.usedext = set()
        self.selcache = {}

    def copy_seq(self, c):
        return copy_seq(c)

    # ------------------------------------------------ helpers
    def as_array(self, run, v, islist=False):
        """PyList / SeqOf / Arr -> Arr"""
        if isinstance(v, Ref):
            v = run.snap(v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, VRange):
            return self.range_array(run, v)
        if isinstance(v, VTuple):
            v = PyList(v.items)
        if isinstance(v, PyList):
            items = [run.snap(x) for x in v.items]
            if not items:
                return Arr([z3.IntVal(0)], lambda i: z3.RealVal(0), RE, islist=islist)
            items = [self.as_array(run, x) if isinstance(x, (PyList, SeqOf, VTuple, VRange)) else x for x in items]
            if all(is_z(x) or isinstance(x, (int, float, bool)) for x in items):
                zs = [zscalar(x) for x in items]
                srt = RE if any(z.sort() == RE for z in zs) else (I if any(z.sort() == I for z in zs) else B)
                zs = [z3.ToReal(zint(z)) if srt == RE and z.sort() != RE else (zint(z) if srt == I else z) for z in zs]

                def elt(i):
                    si = z3.simplify(i)
                    if z3.is_int_value(si) and 0 <= si.as_long() < len(zs):
                        return zs[si.as_long()]
                    r = zs[-1]
                    for k in range(len(zs) - 2, -1, -1):
                        r = z3.If(i == k, zs[k], r)
                    return r
                return Arr([z3.IntVal(len(zs))], elt, srt, islist=islist)
            if all(isinstance(x, Arr) for x in items):
                nd = items[0].nd
                if any(x.nd != nd or x.sort != items[0].sort for x in items):
                    raise Unsupported("ragged array")
                for x in items[1:]:
                    for a, b in zip(x.shape, items[0].shape):
                        if not a.eq(b):
                            run.oblige("rows of equal length", a == b)

                def elt2(i, *r):
                    si = z3.simplify(i)
                    if z3.is_int_value(si) and 0 <= si.as_long() < len(items):
                        return items[si.as_long()].elt(*r)
                    out = items[-1].elt(*r)
                    for k in range(len(items) - 2, -1, -1):
                        out = z3.If(i == k, items[k].elt(*r), out)
                    return out
                zt = None
                return Arr([z3.IntVal(len(items))] + items[0].shape, elt2, items[0].sort, zt=zt)
        raise Unsupported("conversion to array of %s" % type(v).__name__)

    def range_array(self, run, c):
        n, get = run.iterate(c)
        n = z3.simplify(z3.If(n >= 0, n, z3.IntVal(0)))
        return Arr([n], get, I)

    def arr(self, run, v):
        return self.as_array(run, v)

    # ------------------------------------------------ selections
    def mask_sel(self, run, m):
        """Increasing enumeration of the true positions of a boolean array."""
        key = id(m)
        if key in run.cache:
            return run.cache[key][1]
        n = m.shape[0]
        cnt = fresh("cnt", I)
        sel = z3.Function(fresh_name("sel"), I, I)
        pos = z3.Function(fresh_name("pos"), I, I)
        i, j, x = consts("i", 3)
        saved, run.guards = run.guards, []
        run.pc.append(z3.And(cnt >= 0, cnt <= z3.If(n >= 0, n, 0)))
        run.pc.append(L.forall([i], z3.Implies(L.inrange(i, cnt), z3.And(
            L.inrange(sel(i), n), m.elt(sel(i)), pos(sel(i)) == i, sel(i) >= i)), [sel(i)]))
        run.pc.append(L.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt), sel(i) < sel(j)),
                               [[sel(i), sel(j)]]))
        body = z3.Implies(z3.And(L.inrange(x, n), m.elt(x)),
                          z3.And(L.inrange(pos(x), cnt), sel(pos(x)) == x))
        pats = [pos(x)] + index_terms(m.elt(x), x)[:3]
        run.pc.append(L.forall([x], body, pats))
        run.guards = saved
        out = (cnt, sel, pos)
        run.cache[key] = (m, out)
        return out

    def selector(self, run, m, n):
        """Index array m used on an axis of length n -> (count, position function)."""
        if m.nd != 1:
            raise Unsupported("index array of dimension %d" % m.nd)
        if m.sort == B:
            if not m.shape[0].eq(n) and not run.quick(m.shape[0] == n):
                run.oblige("mask length", m.shape[0] == n)
            cnt, sel, pos = self.mask_sel(run, m)
            return cnt, (lambda i: sel(i))
        if m.sort == I:
            i = consts("i")
            e = m.elt(i)
            run.oblige("index array in bounds", z3.ForAll([i], z3.Implies(
                L.inrange(i, m.shape[0]), z3.And(e >= -n, e < n))))
            if run.quick(z3.ForAll([i], z3.Implies(L.inrange(i, m.shape[0]), e >= 0))):
                return m.shape[0], lambda k: m.elt(k)
            key = ("wrap", id(m), n.get_id())
            if key not in run.cache:
                f = z3.Function(fresh_name("wrap"), I, I)
                saved, run.guards = run.guards, []
                run.pc.append(L.forall([i], f(i) == z3.If(e < 0, n + e, e), [f(i)] + index_terms(e, i)[:1]))
                run.guards = saved
                run.cache[key] = (m, f)
            f = run.cache[key][1]
            return m.shape[0], lambda k: f(k)
        if m.sort == RE:
            nn = z3.simplify(m.shape[0])
            if z3.is_int_value(nn) and nn.as_long() == 0:
                return nn, lambda k: k
        raise Unsupported("index array sort")

    def selector_inv(self, run, m, n):
        """As selector, with the inverse: (count, sel, inv, isin). For integer
        arrays without repetition (obligation)."""
        if m.sort == B:
            cnt, sel, pos = self.mask_sel(run, m) if run.quick(m.shape[0] == n) or True else None
            if not m.shape[0].eq(n):
                run.oblige("mask length", m.shape[0] == n)
            return cnt, sel, (lambda x: pos(x)), (lambda x: m.elt(x))
        if m.sort == I:
            cnt, sel = self.selector(run, m, n)
            i, j, x = consts("i", 3)
            run.oblige("scatter without repetition", z3.ForAll([i, j], z3.Implies(
                z3.And(0 <= i, i < j, j < cnt), sel(i) != sel(j))))
            key = ("inv", id(m))
            if key not in run.cache:
                inv = z3.Function(fresh_name("inv"), I, I)
                isin = z3.Function(fresh_name("isin"), I, B)
                saved, run.guards = run.guards, []
                pats = index_terms(sel(i), i)[:1] or None
                run.pc.append(L.forall([i], z3.Implies(L.inrange(i, cnt), z3.And(
                    isin(sel(i)), inv(sel(i)) == i)), pats))
                run.pc.append(L.forall([x], z3.Implies(isin(x), z3.And(
                    L.inrange(inv(x), cnt), sel(inv(x)) == x)), [isin(x), inv(x)]))
                run.guards = saved
                run.cache[key] = (m, (inv, isin))
            inv, isin = run.cache[key][1]
            return cnt, sel, (lambda x: inv(x)), (lambda x: isin(x))
        raise Unsupported("scatter index")

    # ------------------------------------------------ containment
    def contains(self, run, x, c):
        c = run.snap(c)
        if isinstance(c, PyList):
            items = [run.snap(y) for y in c.items]
            if not items:
                return z3.BoolVal(False)
            if all(is_z(y) for y in items) and is_z(x):
                return z3.Or(*[CMP["Eq"](*same_sort(x, y)) for y in items])
            raise Unsupported("membership in list")
        if isinstance(c, VRange):
            n, get = run.iterate(c)
            return z3.And(zint(c.lo) <= num(x), num(x) < zint(c.hi))
        if isinstance(c, Arr) and c.nd == 1 and is_z(x):
            if ("member", id(c)) in run.cache and x.sort() == c.sort:
                return run.cache[("member", id(c))][1](x)
            n = c.shape[0]
            b = fresh("isin", B)
            w = fresh("w", I)
            i = consts("i")
            e, xx = same_sort(c.elt(i), x)
            ew, xw = same_sort(c.elt(w), x)
            run.pc.append(z3.Implies(b, z3.And(L.inrange(w, n), ew == xw)))
            pats = index_terms(c.elt(i), i)[:2] or None
            run.pc.append(L.forall([i], z3.Implies(z3.And(z3.Not(b), L.inrange(i, n)), e != xx), pats))
            return b
        if isinstance(c, Arr) and c.nd == 2:
            xa = self.as_array(run, x)
            if xa.nd == 1:
                n = c.shape[0]
                b = fresh("isin", B)
                w = fresh("w", I)
                m = z3.simplify(xa.shape[0])
                if not z3.is_int_value(m):
                    raise Unsupported("row membership")
                if not c.shape[1].eq(m):
                    run.oblige("row length", c.shape[1] == m)
                i = consts("i")

                def eq(r):
                    return z3.And(*[CMP["Eq"](*same_sort(c.elt(r, z3.IntVal(k)), xa.elt(z3.IntVal(k))))
                                    for k in range(m.as_long())])
                run.pc.append(z3.Implies(b, z3.And(L.inrange(w, n), eq(w))))
                pats = None
                if c.z is not None:
                    pats = [c.z[i]]
                run.pc.append(L.forall([i], z3.Implies(z3.And(z3.Not(b), L.inrange(i, n)), z3.Not(eq(i))), pats))
                return b
        raise Unsupported("membership")

    # ------------------------------------------------ comprehension
    def listcomp(self, run, e):
        if len(e.generators) != 1 or e.generators[0].is_async:
            raise Unsupported("comprehension")
        g = e.generators[0]
        it = run.ev(g.iter)
        n, get = run.iterate(it)
        n = z3.simplify(z3.If(n >= 0, n, 0)) if not z3.is_int_value(z3.simplify(n)) else z3.simplify(n)
        fr = run.frame()
        if z3.is_int_value(n) and not g.ifs:
            items = []
            env0 = dict(fr.env)
            for k in range(n.as_long()):
                run.assign(g.target, get(z3.IntVal(k)))
                items.append(run.ev(e.elt))
            for nm in [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]:
                fr.env.pop(nm, None)
                if nm in env0:
                    fr.env[nm] = env0[nm]
            return run.new(PyList(items))

        def at(x, expr, guard=None):
            env0 = dict(fr.env)
            run.guards.append(z3.And(0 <= x, x < n))
            if guard is not None:
                run.guards.append(guard)
            try:
                run.assign(g.target, get(x))
                v = run.ev(expr)
                return run.snap(v)
            finally:
                run.guards.pop()
                if guard is not None:
                    run.guards.pop()
                fr.env.clear()
                fr.env.update(env0)
        if g.ifs:
            ifs, hoisted = self.hoist(run, g)
            x = consts("x")
            # condition as a boolean array; evaluated at a generic position
            cond = z3.Function(fresh_name("cond"), I, B)
            npc = len(run.pc)
            c = z3.And(*[run.truth(at(x, t)) for t in ifs])
            for nm in hoisted:
                fr.env.pop(nm, None)
            facts = run.pc[npc:]
            del run.pc[npc:]
            loc = self.skolems(facts, x)
            f2 = [z3.substitute_funs(f, *[]) if False else f for f in facts]
            # fresh constants introduced while evaluating depend on x: make them functions of x
            sub = []
            for k in loc:
                fn = z3.Function(fresh_name("sk"), I, k.sort())
                sub.append((k, fn(x)))
            c2 = z3.substitute(c, *sub) if sub else c
            run.pc.append(L.forall([x], z3.Implies(L.inrange(x, n), cond(x) == c2), [cond(x)]))
            for f in facts:
                f2 = z3.substitute(f, *sub) if sub else f
                run.pc.append(L.forall([x], f2, [cond(x)]))
            m = Arr([n], lambda k: cond(k), B)
            cnt, sel, pos = self.mask_sel(run, m)
            # extra triggers: the source's own element terms
            src = run.snap(it)
            if isinstance(src, Arr):
                y = consts("y")
                pats = index_terms(src.elt(y) if src.nd == 1 else src.z[y] if src.z is not None else src.elt(y, z3.IntVal(0)), y)[:1]
                if pats:
                    run.pc.append(L.forall([y], z3.Implies(z3.And(L.inrange(y, n), cond(y)),
                                                           z3.And(L.inrange(pos(y), cnt), sel(pos(y)) == y)), pats))
            val = at(sel(z3.IntVal(0)), e.elt) if False else None
            k0 = consts("k")
            if isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
                if isinstance(src, Arr) and src.nd == 1:
                    u = Arr([cnt], lambda k: src.elt(sel(k)), src.sort, islist=True)
                    if run.cache.get("setop hook"):
                        u = run.mat(u)
                        u.islist = True
                        u.filter = (cond, sel, pos)
                        for h in run.cache["setop hook"]("filter", src, None, u):
                            run.hint(h)
                    return run.new(u)
                if isinstance(src, VRange):
                    return run.new(Arr([cnt], lambda k: get(sel(k)), I, islist=True))
            raise Unsupported("filtered comprehension")
        x = consts("x")
        npc = len(run.pc)
        v = at(x, e.elt)
        facts = run.pc[npc:]
        del run.pc[npc:]
        if not is_z(v):
            raise Unsupported("comprehension of structured values")
        fn = z3.Function(fresh_name("lc"), I, v.sort())
        sub = [(k, z3.Function(fresh_name("sk"), I, k.sort())(x)) for k in self.skolems(facts, x)]
        v2 = z3.substitute(v, *sub) if sub else v
        run.pc.append(L.forall([x], fn(x) == v2, [fn(x)]))
        for f in facts:
            run.pc.append(L.forall([x], z3.substitute(f, *sub) if sub else f, [fn(x)]))
        return run.new(Arr([n], lambda k: fn(k), v.sort(), islist=True))

    def hoist(self, run, g):
        """Calls of functions of the repository in the conditions of a
        comprehension that do not depend on its variable are evaluated once."""
        bound = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        models, names = self, []

        class T(ast.NodeTransformer):
            def visit_Call(self, node):
                free = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
                if free & bound or not isinstance(node.func, ast.Name):
                    return self.generic_visit(node)
                return self.once(node)

            def visit_Compare(self, node):
                self.generic_visit(node)
                if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
                    e = node.comparators[0]
                    free = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
                    if not free & bound and isinstance(e, (ast.Subscript, ast.Name)) and not (
                            isinstance(e, ast.Name) and e.id.startswith("hoisted ")):
                        node.comparators[0] = self.once(e)
                return node

            def once(self, node):
                v = run.ev(node)
                c = run.snap(v)
                if isinstance(c, Arr) and c.nd == 1:
                    models.member(run, c)
                nm = "hoisted %d" % len(names)
                names.append(nm)
                run.frame().env[nm] = v
                return ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), node)
        return [T().visit(copy.deepcopy(t)) for t in g.ifs], names

    def skolems(self, facts, x):
        """Fresh constants (cnt, w, isin, ...) introduced by facts that mention x."""
        raise_if = []
        out, seen = [], set()

        def go(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                go(t.body())
                return
            if z3.is_app(t):
                if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = t.decl().name()
                    if "!" in nm and int(nm.split("!")[-1]) > int(x.decl().name().split("!")[-1]):
                        out.append(t)
                if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = t.decl().name()
                    if "!" in nm and int(nm.split("!")[-1]) > int(x.decl().name().split("!")[-1]):
                        raise Unsupported("comprehension with local functions")
                for c in t.children():
                    go(c)
        for f in facts:
            go(f)
        return out

    # ------------------------------------------------ builtins
    def builtin(self, run, name, args, kw):
        cs = [run.snap(a) for a in args]
        if name == "print":
            return NONE
        if name == "range":
            a = [zint(num(c)) for c in cs]
            if len(a) == 1:
                return VRange(z3.IntVal(0), a[0])
            if len(a) == 2:
                return VRange(a[0], a[1])
            st = z3.simplify(a[2])
            if z3.is_int_value(st) and st.as_long() in (1, -1):
                return VRange(a[0], a[1], st.as_long())
            raise Unsupported("range step")
        if name == "len":
            c = cs[0]
            if isinstance(c, Arr):
                if c.nd == 0:
                    raise Unsupported("len of scalar")
                return c.shape[0]
            if isinstance(c, PyList):
                return z3.IntVal(len(c.items))
            if isinstance(c, VTuple):
                return z3.IntVal(len(c.items))
            if isinstance(c, SeqOf):
                return c.n
            if isinstance(c, VRange):
                return self.range_array(run, c).shape[0]
            raise Unsupported("len")
        if name == "int":
            c = num(cs[0])
            if c.sort() == I:
                return c
            if c.sort() == RE:
                return z3.If(c >= 0, z3.ToInt(c), -z3.ToInt(-c))
            return zint(c)
        if name == "float":
            c = num(cs[0])
            return z3.ToReal(zint(c)) if c.sort() != RE else c
        if name == "bool":
            return run.truth(args[0])
        if name == "abs":
            c = num(cs[0])
            return z3.If(c >= 0, c, -c)
        if name in ("min", "max"):
            if len(cs) > 1:
                r = num(cs[0])
                for c in cs[1:]:
                    r, y = same_sort(r, num(c))
                    r = z3.If(y < r if name == "min" else y > r, y, r)
                return r
            a = self.as_array(run, cs[0])
            return self.extremum(run, a, name)
        if name == "enumerate":
            return VEnum(args[0], num(run.snap(kw["start"])) if "start" in kw else (num(cs[1]) if len(cs) > 1 else z3.IntVal(0)))
        if name == "zip":
            return VZip(args)
        if name == "list":
            if not cs:
                return run.new(PyList([]))
            if isinstance(cs[0], (PyList,)):
                return run.new(PyList(cs[0].items))
            a = copy_arr(self.as_array(run, cs[0]))
            a.islist = True
            return run.new(a)
        if name == "isinstance":
            c = cs[0]
            t = args[1]
            if isinstance(t, VFunc) and t.name == "list":
                if isinstance(c, Arr) and getattr(c, "lst", None) is not None:
                    return c.lst
                if isinstance(c, Arr) and getattr(c, "exact", None) is not None:
                    # the empty list if there are no rows, otherwise a matrix
                    b = fresh("islist", B)
                    run.assume(z3.Implies(b, c.shape[0] == 0))
                    run.assume(z3.Implies(c.exact, b == (c.shape[0] == 0)))
                    return b
                if isinstance(c, Arr) and getattr(c, "eml", False):
                    raise Unsupported("isinstance of a matrix or empty list")
                if isinstance(c, (Arr,)):
                    return z3.BoolVal(bool(c.islist))
                if isinstance(c, (PyList, SeqOf)):
                    return z3.BoolVal(True)
                return z3.BoolVal(False)
            if isinstance(t, VFunc) and t.name == "int":
                if is_z(c):
                    return z3.BoolVal(c.sort() == I)
                return z3.BoolVal(False)
            raise Unsupported("isinstance")
        if name == "sorted":
            a = self.as_array(run, cs[0])
            n = z3.simplify(a.shape[0])
            if z3.is_int_value(n) and n.as_long() == 2:
                x, y = a.elt(z3.IntVal(0)), a.elt(z3.IntVal(1))
                return run.new(PyList([z3.If(y < x, y, x), z3.If(y < x, x, y)]))
            r = self.sorted_copy(run, a)
            r.islist = True
            return run.new(r)
        if name in ("any", "all"):
            a = self.as_array(run, cs[0])
            return self.np_any(run, a) if name == "any" else z3.Not(self.np_any(run, self.negmask(a)))
        if name in ("str", "tuple"):
            return VOpaque(name)
        raise Unsupported("builtin " + name)

    def negmask(self, a):
        if a.sort == B:
            return Arr(a.shape, lambda *i: z3.Not(a.elt(*i)), B)
        return Arr(a.shape, lambda *i: a.elt(*i) == 0, B)

    def extremum(self, run, a, name):
        """min or max of a 1-D array (nonempty, obligation)."""
        if a.nd != 1:
            raise Unsupported("extremum")
        n = a.shape[0]
        run.oblige("extremum of a nonempty array", n > 0)
        nn = z3.simplify(n)
        if z3.is_int_value(nn) and nn.as_long() <= 4:
            r = a.elt(z3.IntVal(0))
            for k in range(1, nn.as_long()):
                y = a.elt(z3.IntVal(k))
                r = z3.If(y < r if name == "min" else y > r, y, r)
            return r
        r = fresh(name, a.sort)
        w = fresh("w", I)
        i = consts("i")
        run.assume(z3.And(L.inrange(w, n), a.elt(w) == r))
        pats = index_terms(a.elt(i), i)[:2] or None
        run.assume(L.forall([i], z3.Implies(L.inrange(i, n), a.elt(i) >= r if name == "min" else a.elt(i) <= r), pats))
        return r

    def sorted_copy(self, run, a):
        n = a.shape[0]
        perm, inv = self.permutation(run, n)
        r = arr_const("sorted", [n], a.sort)
        i, j = consts("i", 2)
        run.assume(L.forall([i], z3.Implies(L.inrange(i, n), r.elt(i) == a.elt(perm(i))), [r.elt(i)]))
        pats = index_terms(a.elt(j), j)[:1]
        run.assume(L.forall([j], z3.Implies(L.inrange(j, n), r.elt(inv(j)) == a.elt(j)), [inv(j)] + pats))
        run.assume(L.forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), r.elt(i) <= r.elt(j)),
                            [[r.elt(i), r.elt(j)]]))
        return r

    def permutation(self, run, n):
        perm = z3.Function(fresh_name("perm"), I, I)
        inv = z3.Function(fresh_name("iperm"), I, I)
        i = consts("i")
        run.assume(L.forall([i], z3.Implies(L.inrange(i, n), z3.And(L.inrange(perm(i), n), inv(perm(i)) == i)), [perm(i)]))
        run.assume(L.forall([i], z3.Implies(L.inrange(i, n), z3.And(L.inrange(inv(i), n), perm(inv(i)) == i)), [inv(i)]))
        return perm, inv

    # ------------------------------------------------ numpy
    def np_any(self, run, a):
        b = fresh("any", B)
        ws = [fresh("w", I) for _ in range(a.nd)]
        xs = [consts("i") for _ in range(a.nd)]
        tr = lambda t: t if t.sort() == B else t != 0
        rng = lambda v: z3.And(*[L.inrange(x, n) for x, n in zip(v, a.shape)])
        run.assume(z3.Implies(b, z3.And(rng(ws), tr(a.elt(*ws)))))
        body = a.elt(*xs)
        pats = None
        if a.nd == 1:
            pats = index_terms(body, xs[0])[:2] or None
        elif a.nd == 2:
            cand = [t for t in subapps(body) if covers(t, xs) and not has_ite(t)]
            pats = cand[:1] or None
        run.assume(z3.Implies(z3.Not(b), L.forall(xs, z3.Implies(rng(xs), z3.Not(tr(body))), pats)))
        return b

    def transpose(self, run, v):
        c = run.snap(v)
        if isinstance(c, (PyList, SeqOf)):
            c = self.as_array(run, c)
        if c.nd == 1:
            return v
        if c.nd != 2:
            raise Unsupported("transpose")
        if getattr(c, "eml", False):
            run.oblige("not an empty list", c.shape[0] > 0)
        r = Arr([c.shape[1], c.shape[0]], lambda i, j: c.elt(j, i), c.sort, z=c.zt, zt=c.z)
        if isinstance(v, Ref):
            r.src = c.src or (v.id, run.ver[v.id])
        r.bor = getattr(c, "bor", False)
        return run.new(r)

    def const_array(self, run, shape_v, val):
        c = run.snap(shape_v)
        if isinstance(c, VTuple):
            dims = [zint(num(run.snap(x))) for x in c.items]
        elif isinstance(c, PyList):
            dims = [zint(num(run.snap(x))) for x in c.items]
        else:
            dims = [zint(num(c))]
        for d in dims:
            if not run.quick(d >= 0):
                run.oblige("dimension not negative", d >= 0)
        v = z3.IntVal(val)
        z = v
        for _ in dims:
            z = z3.K(I, z)
        return run.new(Arr(dims, lambda *i: v, I, z=z, zt=z if len(dims) == 2 else None))

    def ext(self, run, name, args, kw):
        self.usedext.add(name)
        nm = name.split(".", 1)[1] if name.startswith("numpy.") else name
        m = getattr(self, "x_" + nm.replace(".", "_"), None)
        if m is None:
            raise Unsupported("external function %s" % name)
        return m(run, args, kw)

    def axis(self, run, kw, args, k):
        v = kw.get("axis", args[k] if len(args) > k else None)
        if v is None or isinstance(v, VNone):
            return None
        s = z3.simplify(num(run.snap(v)))
        if not z3.is_int_value(s):
            raise Unsupported("axis")
        return s.as_long()

    def x_size(self, run, args, kw):
        c = run.snap(args[0])
        ax = self.axis(run, kw, args, 1)
        if isinstance(c, SeqOf) and ax == 0:
            return c.n
        if isinstance(c, PyList) and not c.items and ax in (0, None):
            return z3.IntVal(0)
        a = self.as_array(run, c)
        if ax is None:
            r = z3.IntVal(1)
            for s in a.shape:
                r = r * s
            return z3.simplify(r)
        if ax >= a.nd:
            raise Unsupported("axis")
        if ax > 0 and getattr(a, "eml", False):
            run.oblige("not an empty list", a.shape[0] > 0)
        return a.shape[ax]

    def x_copy(self, run, args, kw):
        c = run.snap(args[0])
        a = copy_arr(self.as_array(run, c))
        a.islist = False
        return run.new(a)

    def x_array(self, run, args, kw):
        c = run.snap(args[0])
        if isinstance(c, SeqOf):
            raise Unsupported("array of structured list")
        a = copy_arr(self.as_array(run, c))
        a.islist = False
        a.lst = None
        if "dtype" in kw:
            return self.cast(run, a, kw["dtype"])
        return run.new(a)

    x_asarray = x_array

    def x_transpose(self, run, args, kw):
        c = run.snap(args[0])
        if isinstance(c, PyList):
            return self.transpose(run, run.new(self.as_array(run, c)))
        return self.transpose(run, args[0])

    def x_identity(self, run, args, kw):
        n = zint(num(run.snap(args[0])))
        if not run.quick(n >= 0):
            run.oblige("dimension not negative", n >= 0)
        a = Arr([n, n], lambda i, j: z3.If(i == j, z3.IntVal(1), z3.IntVal(0)), I)
        if run.p is not None:
            a = run.mat(a)
            a.zt = a.z
            c, k = consts("c", 2)
            v = z3.Const(fresh_name("v"), AI)
            # dot product with a unit vector
            run.pc.append(L.forall([v, c, k], z3.Implies(z3.And(0 <= c, c < k),
                          L.fdot(v, a.z[c], k) == L.cl(v[c])), [L.fdot(v, a.z[c], k)]))
        return run.new(a)

    x_eye = x_identity

    def x_zeros(self, run, args, kw):
        return self.const_array(run, args[0], 0)

    def x_ones(self, run, args, kw):
        return self.const_array(run, args[0], 1)

    def x_any(self, run, args, kw):
        c = run.snap(args[0])
        if isinstance(c, VNone):
            return z3.BoolVal(False)
        if is_z(c):
            return run.truth(c)
        return self.np_any(run, self.as_array(run, c))

    def x_all(self, run, args, kw):
        return z3.Not(self.np_any(run, self.negmask(self.as_array(run, args[0]))))

    def x_mod(self, run, args, kw):
        return run.binop("Mod", args[0], args[1])

    x_remainder = x_mod

    def x_add(self, run, args, kw):
        return run.binop("Add", args[0], args[1])

    def x_subtract(self, run, args, kw):
        return run.binop("Sub", args[0], args[1])

    def x_multiply(self, run, args, kw):
        a, b = [self.as_array(run, run.snap(x)) if not is_z(run.snap(x)) else run.snap(x) for x in args[:2]]
        return run.new(run.elementwise("Mult", a, b))

    def x_negative(self, run, args, kw):
        c = self.as_array(run, args[0])
        return run.new(Arr(c.shape, lambda *i: -c.elt(*i), c.sort))

    def x_absolute(self, run, args, kw):
        c = run.snap(args[0])
        if is_z(c):
            return z3.If(c >= 0, c, -c)
        c = self.as_array(run, c)
        return run.new(Arr(c.shape, lambda *i: z3.If(c.elt(*i) >= 0, c.elt(*i), -c.elt(*i)), c.sort))

    x_abs = x_absolute

    def x_logical_and(self, run, args, kw):
        return self.logical(run, args, "BitAnd")

    def x_logical_or(self, run, args, kw):
        return self.logical(run, args, "BitOr")

    def logical(self, run, args, op):
        out = []
        for x in args[:2]:
            c = run.snap(x)
            if isinstance(c, Arr) and c.sort == I:
                c0 = c
                c = Arr(c.shape, lambda *i: c0.elt(*i) != 0, B)
            out.append(c)
        return run.new(run.elementwise(op, out[0], out[1]))

    def x_logical_not(self, run, args, kw):
        return run.new(self.negmask(self.as_array(run, args[0])))

    def x_nonzero(self, run, args, kw):
        a = self.as_array(run, args[0])
        if a.nd != 1:
            raise Unsupported("nonzero of 2-D array")
        m = Arr(a.shape, lambda i: (a.elt(i) if a.sort == B else a.elt(i) != 0), B)
        cnt, sel, pos = self.mask_sel(run, m)
        return VTuple([run.new(Arr([cnt], lambda i: sel(i), I))])

    x_where = None

    def x_where(self, run, args, kw):
        if len(args) == 1:
            return self.x_nonzero(run, args, kw)
        raise Unsupported("where")

    def x_flatnonzero(self, run, args, kw):
        return self.x_nonzero(run, args, kw).items[0]

    def x_count_nonzero(self, run, args, kw):
        a = self.as_array(run, args[0])
        if a.nd != 1:
            raise Unsupported("count_nonzero")
        m = a if a.sort == B else Arr(a.shape, lambda i: a.elt(i) != 0, B)
        return self.mask_sel(run, m)[0]

    def x_sum(self, run, args, kw):
        a = self.as_array(run, args[0])
        if a.sort == B and a.nd == 1:
            return self.mask_sel(run, a)[0]
        raise Unsupported("sum")

    def x_dot(self, run, args, kw):
        return self.x_matmul(run, args, kw)

    def x_matmul(self, run, args, kw):
        a, b = self.as_array(run, args[0]), self.as_array(run, args[1])
        if a.sort != I or b.sort != I or a.nd != 2 or b.nd != 2:
            raise Unsupported("matmul")
        if not a.shape[1].eq(b.shape[0]):
            run.oblige("shapes match in product", a.shape[1] == b.shape[0])
        az, bz = run.mat(a), run.mat(b, col=True)
        n = a.shape[1]
        r = Arr([a.shape[0], b.shape[1]], lambda i, j: L.idot(az.z[i], bz.zt[j], n), I)
        run.cache.setdefault("products", []).append((az, bz))
        return run.new(r)

    def flat(self, run, v):
        c = run.snap(v)
        if is_z(c):
            return Arr([z3.IntVal(1)], lambda i: c, c.sort())
        a = self.as_array(run, c)
        if a.nd == 1:
            return a
        raise Unsupported("flattening")

    def join(self, run, a, b, ax):
        if a.sort != b.sort:
            za = z3.simplify(a.shape[0])
            if {a.sort, b.sort} == {I, RE}:
                def conv(v):
                    return v if v.sort == RE else Arr(v.shape, lambda *i: z3.ToReal(v.elt(*i)), RE)
                e = lambda v: z3.is_int_value(z3.simplify(v.shape[0])) and z3.simplify(v.shape[0]).as_long() == 0
                if e(a) and a.nd == 1 and b.nd == 1:
                    return Arr(b.shape, b._elt, b.sort, z=b.z)
                if e(b) and b.nd == 1 and a.nd == 1:
                    return Arr(a.shape, a._elt, a.sort, z=a.z)
                a, b = conv(a), conv(b)
            else:
                raise Unsupported("join sorts")
        if a.nd != b.nd:
            raise Unsupported("join dimensions")
        for d in range(a.nd):
            if d != ax and not a.shape[d].eq(b.shape[d]):
                run.oblige("shapes match in join", a.shape[d] == b.shape[d])
        n = a.shape[ax]
        shape = list(a.shape)
        shape[ax] = z3.simplify(a.shape[ax] + b.shape[ax])

        def elt(*i):
            j = list(i)
            j[ax] = i[ax] - n
            return z3.If(i[ax] < n, a.elt(*i), b.elt(*j))
        r = Arr(shape, elt, a.sort)
        r.joined = (a, b, ax)
        return r

    def x_append(self, run, args, kw):
        ax = self.axis(run, kw, args, 2)
        if ax is None:
            a, b = self.flat(run, args[0]), self.flat(run, args[1])
            return run.new(self.join(run, a, b, 0))
        a, b = self.as_array(run, args[0]), self.as_array(run, args[1])
        return run.new(self.join(run, a, b, ax))

    def x_concatenate(self, run, args, kw):
        c = run.snap(args[0])
        items = c.items if isinstance(c, (VTuple, PyList)) else None
        if items is None:
            raise Unsupported("concatenate")
        ax = self.axis(run, kw, args, 1)
        ax = 0 if ax is None else ax
        r = self.as_array(run, items[0])
        for x in items[1:]:
            r = self.join(run, r, self.as_array(run, x), ax)
        return run.new(r)

    def x_hstack(self, run, args, kw):
        c = run.snap(args[0])
        items = [self.as_array(run, x) for x in c.items]
        return self.x_concatenate(run, args, dict(axis=z3.IntVal(0 if items[0].nd == 1 else 1)))

    def x_unique(self, run, args, kw):
        if kw or len(args) > 1:
            raise Unsupported("unique options")
        a = self.as_array(run, args[0])
        if a.nd == 2 and z3.is_int_value(z3.simplify(a.shape[0])) and z3.simplify(a.shape[0]).as_long() == 1:
            a2 = a
            a = Arr([a2.shape[1]], lambda i: a2.elt(z3.IntVal(0), i), a2.sort)
        n = a.shape[0]
        if a.nd == 2:
            k = fresh("nu", I)
            u = arr_const("uniq", [k], a.sort)
            fi, fj = [z3.Function(fresh_name("ui"), I, I) for _ in range(2)]
            back = z3.Function(fresh_name("ub"), I, I, I)
            i, j = consts("i", 2)
            run.assume(k >= 0)
            run.assume(L.forall([i], z3.Implies(L.inrange(i, k), z3.And(
                L.inrange(fi(i), a.shape[0]), L.inrange(fj(i), a.shape[1]), u.elt(i) == a.elt(fi(i), fj(i)))), [u.elt(i)]))
            run.assume(L.forall([i, j], z3.Implies(z3.And(L.inrange(i, a.shape[0]), L.inrange(j, a.shape[1])), z3.And(
                L.inrange(back(i, j), k), u.elt(back(i, j)) == a.elt(i, j))), None))
            run.assume(L.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), u.elt(i) < u.elt(j)), [[u.elt(i), u.elt(j)]]))
            return run.new(u)
        if a.nd != 1:
            raise Unsupported("unique")
        k = fresh("nu", I)
        u = arr_const("uniq", [k], a.sort)
        src = z3.Function(fresh_name("usrc"), I, I)
        back = z3.Function(fresh_name("uidx"), I, I)
        i, j = consts("i", 2)
        run.assume(z3.And(k >= 0, k <= n, z3.Implies(n > 0, k > 0)))
        run.assume(L.forall([i], z3.Implies(L.inrange(i, k), z3.And(
            L.inrange(src(i), n), u.elt(i) == a.elt(src(i)))), [u.elt(i)]))
        pats = index_terms(a.elt(i), i)[:1]
        run.assume(L.forall([i], z3.Implies(L.inrange(i, n), z3.And(
            L.inrange(back(i), k), u.elt(back(i)) == a.elt(i))), [back(i)] + pats))
        run.assume(L.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), u.elt(i) < u.elt(j)),
                            [[u.elt(i), u.elt(j)]]))
        u.back = None
        u.uniq = (a, back, src)
        run.cache.setdefault("uniques", []).append(u)
        return run.new(u)

    def x_sort(self, run, args, kw):
        return run.new(self.sorted_copy(run, self.as_array(run, args[0])))

    def x_argsort(self, run, args, kw):
        a = self.as_array(run, args[0])
        if a.nd != 1:
            raise Unsupported("argsort")
        n = a.shape[0]
        perm, inv = self.permutation(run, n)
        i, j = consts("i", 2)
        run.assume(L.forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), a.elt(perm(i)) <= a.elt(perm(j))),
                            [[perm(i), perm(j)]]))
        r = Arr([n], lambda k: perm(k), I)
        r.perm = (perm, inv)
        run.cache.setdefault("argsorts", []).append((a, perm, inv))
        return run.new(r)

    def x_lexsort(self, run, args, kw):
        c = run.snap(args[0])
        keys = [self.as_array(run, x) for x in c.items]
        n = keys[0].shape[0]
        for k in keys[1:]:
            if not k.shape[0].eq(n):
                run.oblige("lexsort key lengths", k.shape[0] == n)
        perm, inv = self.permutation(run, n)
        i, j = consts("i", 2)
        # last key is primary; ties keep the original order (stable)
        def le(x, y):
            f = x < y
            for k in keys:
                f = z3.Or(k.elt(x) < k.elt(y), z3.And(k.elt(x) == k.elt(y), f))
            return f
        run.assume(L.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), le(perm(i), perm(j))),
                            [[perm(i), perm(j)]]))
        r = Arr([n], lambda k: perm(k), I)
        r.perm = (perm, inv)
        return run.new(r)

    def x_isin(self, run, args, kw):
        a, b = self.as_array(run, args[0]), self.as_array(run, args[1])
        if a.nd != 1 or b.nd != 1:
            raise Unsupported("isin")
        f = z3.Function(fresh_name("isin"), I, B)
        w = z3.Function(fresh_name("isinw"), I, I)
        i, j = consts("i", 2)
        na, nb = a.shape[0], b.shape[0]
        x, y = same_sort(a.elt(i), b.elt(w(i)))
        run.assume(L.forall([i], z3.Implies(f(i), z3.And(L.inrange(w(i), nb), x == y)), [f(i)]))
        x, y = same_sort(a.elt(i), b.elt(j))
        pj = index_terms(b.elt(j), j)[:1]
        run.assume(L.forall([i, j], z3.Implies(z3.And(z3.Not(f(i)), L.inrange(j, nb)), x != y),
                            [[f(i)] + pj] if pj else None))
        m = Arr([na], lambda k: f(k), B)
        run.cache.setdefault("isins", []).append((m, f, w))
        self.isin_of_unique(run, a, b, m, w)
        return run.new(m)

    x_in1d = x_isin

    def isin_of_unique(self, run, u, b, m, w):
        """The members of unique(append(x, y)) that are in x are x, if x is
        strictly increasing (lemma incr_unique)."""
        q = getattr(u, "uniq", None)
        j = getattr(q[0], "joined", None) if q else None
        if not j or b.sort != u.sort:
            return
        k = consts("k")
        for part, off in ((j[0], z3.IntVal(0)), (j[1], j[0].shape[0])):
            if part.sort == b.sort and part.shape[0].eq(b.shape[0]) and part.elt(k).eq(b.elt(k)):
                cnt, sel, pos = self.mask_sel(run, m)
                back = q[1]
                run.hint(incr_unique(cnt, lambda i: u.elt(sel(i)), b.shape[0], b.elt,
                                     lambda i: w(sel(i)), lambda i: pos(back(z3.simplify(off + i)))))

    def x_setdiff1d(self, run, args, kw):
        return self.setop(run, args, lambda ina, inb: z3.And(ina, z3.Not(inb)), "diff")

    def x_intersect1d(self, run, args, kw):
        return self.setop(run, args, lambda ina, inb: z3.And(ina, inb), "inter")

    def x_union1d(self, run, args, kw):
        return self.setop(run, args, lambda ina, inb: z3.Or(ina, inb))

    def setop(self, run, args, comb, kind=None):
        a, b = self.as_array(run, args[0]), self.as_array(run, args[1])
        if a.nd != 1 or b.nd != 1:
            raise Unsupported("set operation")
        srt = a.sort
        e = lambda v: z3.is_int_value(z3.simplify(v.shape[0])) and z3.simplify(v.shape[0]).as_long() == 0
        if e(b):
            b = Arr([z3.IntVal(0)], lambda i: zero_of(srt), srt)
        elif e(a):
            srt = b.sort
            a = Arr([z3.IntVal(0)], lambda i: zero_of(srt), srt)
        if a.sort != b.sort:
            raise Unsupported("set operation sorts")
        ina, inb = self.member(run, a), self.member(run, b)
        k = fresh("ns", I)
        u = arr_const("set", [k], srt)
        idx = z3.Function(fresh_name("sidx"), srt, I)
        i, j = consts("i", 2)
        x = consts("x", 1, srt)
        run.assume(k >= 0)
        run.assume(L.forall([i], z3.Implies(L.inrange(i, k), z3.And(comb(ina(u.elt(i)), inb(u.elt(i))), idx(u.elt(i)) == i)), [u.elt(i)]))
        run.assume(L.forall([x], z3.Implies(comb(ina(x), inb(x)), z3.And(L.inrange(idx(x), k), u.elt(idx(x)) == x)),
                            [ina(x), inb(x), idx(x)]))
        run.assume(L.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), u.elt(i) < u.elt(j)),
                            [[u.elt(i), u.elt(j)]]))
        u.setop = (ina, inb, idx)
        if run.cache.get("setop hook"):
            for h in run.cache["setop hook"](kind, a, b, u):
                run.hint(h)
        for t in run.cache.get("terms", []):
            if t.sort() == srt:
                run.assume(z3.Implies(comb(ina(t), inb(t)), z3.And(L.inrange(idx(t), k), u.elt(idx(t)) == t)))
        return run.new(u)

    def member(self, run, a):
        """Membership predicate of the entries of a 1-D array."""
        key = ("member", id(a))
        if key in run.cache:
            return run.cache[key][1]
        P = z3.Function(fresh_name("mem"), a.sort, B)
        w = z3.Function(fresh_name("memw"), a.sort, I)
        i = consts("i")
        x = consts("x", 1, a.sort)
        n = a.shape[0]
        pats = index_terms(a.elt(i), i)[:1] or None
        run.assume(L.forall([i], z3.Implies(L.inrange(i, n), P(a.elt(i))), pats))
        run.assume(L.forall([x], z3.Implies(P(x), z3.And(L.inrange(w(x), n), a.elt(w(x)) == x)), [P(x)]))
        if z3.simplify(a.elt(i)).eq(i):
            # a range: the members are the numbers below n
            run.assume(L.forall([i], z3.Implies(L.inrange(i, n), P(i)), [P(i)]))
        run.cache[key] = (a, P)
        return P

    def x_around(self, run, args, kw):
        a = self.as_array(run, args[0])
        d = num(run.snap(kw.get("decimals", args[1] if len(args) > 1 else z3.IntVal(0))))
        self.need_rnd = True
        x, y = z3.Reals("x y")
        if not run.cache.get("rnd"):
            k = z3.Int("k")
            run.pc.append(L.forall([x, y, k], z3.Implies(x <= y, rnd(x, k) <= rnd(y, k)), [[rnd(x, k), rnd(y, k)]]))
            run.cache["rnd"] = True
        f = (lambda t: t) if a.sort == RE else (lambda t: z3.ToReal(t))
        return run.new(Arr(a.shape, lambda *i: rnd(f(a.elt(*i)), d), RE))

    x_round = x_around
    x_round_ = x_around

    def x_resize(self, run, args, kw):
        a = self.as_array(run, args[0])
        c = run.snap(args[1])
        dims = [zint(num(run.snap(x))) for x in c.items]
        if a.nd == 2 and len(dims) == 2 and z3.is_int_value(z3.simplify(dims[0])) and z3.simplify(dims[0]).as_long() == 1:
            run.oblige("resize keeps all entries", dims[1] == a.shape[0] * a.shape[1])
            w = z3.simplify(a.shape[1])
            if z3.is_int_value(w):
                k = w.as_long()
                return run.new(Arr(dims, lambda i, j: a.elt(j / k, j % k), a.sort))
        raise Unsupported("resize")

    def cast(self, run, a, t):
        if isinstance(t, VFunc) and t.name in ("int", "numpy.int64", "numpy.int_"):
            if a.sort == I:
                return run.new(copy_arr(a))
            if a.sort == B:
                return run.new(Arr(a.shape, lambda *i: zint(a.elt(*i)), I))
            if a.sort == RE:
                z = z3.simplify(a.shape[0])
                if z3.is_int_value(z) and z.as_long() == 0:
                    return run.new(Arr(a.shape, lambda *i: z3.IntVal(0), I))
                return run.new(Arr(a.shape, lambda *i: z3.If(a.elt(*i) >= 0, z3.ToInt(a.elt(*i)), -z3.ToInt(-a.elt(*i))), I))
        if isinstance(t, VFunc) and t.name in ("float", "numpy.float64") and a.sort in (I, RE):
            return run.new(copy_arr(a))
        if isinstance(t, VFunc) and t.name in ("bool", "numpy.bool_") and a.sort == I:
            return run.new(Arr(a.shape, lambda *i: a.elt(*i) != 0, B))
        raise Unsupported("cast to %s" % getattr(t, "name", t))

    def x_amin(self, run, args, kw):
        return self.amm(run, args, kw, "min")

    def x_amax(self, run, args, kw):
        return self.amm(run, args, kw, "max")

    x_min, x_max = x_amin, x_amax

    def amm(self, run, args, kw, name):
        a = self.as_array(run, args[0])
        ax = self.axis(run, kw, args, 1)
        if a.nd == 1:
            return self.extremum(run, a, name)
        if a.nd == 2 and ax in (0, 1):
            n, m = (a.shape[0], a.shape[1]) if ax == 0 else (a.shape[1], a.shape[0])
            get = (lambda i, d: a.elt(i, d)) if ax == 0 else (lambda i, d: a.elt(d, i))
            run.oblige("extremum of a nonempty array", n > 0)
            r = arr_const("ext", [m], a.sort)
            w = z3.Function(fresh_name("w"), I, I)
            i, d = consts("i", 2)
            run.assume(L.forall([d], z3.Implies(L.inrange(d, m), z3.And(L.inrange(w(d), n), get(w(d), d) == r.elt(d))), [r.elt(d)]))
            body = get(i, d)
            cand = [t for t in subapps(body) if covers(t, [i, d]) and not has_ite(t)]
            run.assume(L.forall([i, d], z3.Implies(z3.And(L.inrange(i, n), L.inrange(d, m)),
                                                   body >= r.elt(d) if name == "min" else body <= r.elt(d)),
                                cand[:1] or None))
            return run.new(r)
        raise Unsupported("extremum axis")

    def x_argmax(self, run, args, kw):
        return self.argext(run, args, kw, "max")

    def x_argmin(self, run, args, kw):
        return self.argext(run, args, kw, "min")

    def argext(self, run, args, kw, name):
        a = self.as_array(run, args[0])
        if a.nd != 1:
            raise Unsupported("argmax")
        n = a.shape[0]
        run.oblige("argmax of a nonempty array", n > 0)
        k = fresh("arg", I)
        i = consts("i")
        run.assume(L.inrange(k, n))
        pats = index_terms(a.elt(i), i)[:2] or None
        run.assume(L.forall([i], z3.Implies(L.inrange(i, n), a.elt(i) <= a.elt(k) if name == "max" else a.elt(i) >= a.elt(k)), pats))
        # the first one
        run.assume(L.forall([i], z3.Implies(z3.And(0 <= i, i < k), a.elt(i) < a.elt(k) if name == "max" else a.elt(i) > a.elt(k)), pats))
        return k

    def x_math_ceil(self, run, args, kw):
        c = num(run.snap(args[0]))
        if c.sort() == I:
            return c
        return -z3.ToInt(-c)

    def x_ceil(self, run, args, kw):
        return z3.ToReal(self.x_math_ceil(run, args, kw))

    def x_math_floor(self, run, args, kw):
        c = num(run.snap(args[0]))
        return c if c.sort() == I else z3.ToInt(c)

    def x_insert(self, run, args, kw):
        a = self.as_array(run, args[0])
        k = zint(num(run.snap(args[1])))
        v = num(run.snap(args[2]))
        if a.nd != 1:
            raise Unsupported("insert")
        v = same_sort(a.elt(z3.IntVal(0)), v)[1]
        if v.sort() != a.sort:
            raise Unsupported("insert sort")
        run.oblige("insert position", z3.And(0 <= k, k <= a.shape[0]))
        return run.new(Arr([a.shape[0] + 1], lambda i: z3.If(i < k, a.elt(i), z3.If(i == k, v, a.elt(i - 1))), a.sort))

    def x_searchsorted(self, run, args, kw):
        a = self.as_array(run, args[0])
        v = num(run.snap(args[1]))
        n = a.shape[0]
        i, j = consts("i", 2)
        run.oblige("searchsorted on a sorted array", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), a.elt(i) <= a.elt(j))))
        k = fresh("pos", I)
        x, y = same_sort(a.elt(i), v)
        pats = index_terms(a.elt(i), i)[:1] or None
        run.assume(z3.And(0 <= k, k <= n))
        run.assume(L.forall([i], z3.Implies(L.inrange(i, n), z3.And(z3.Implies(i < k, x < y), z3.Implies(i >= k, x >= y))), pats))
        at = lambda t: same_sort(a.elt(t), v)
        run.assume(z3.Implies(k < n, at(k)[0] >= at(k)[1]))
        run.assume(z3.Implies(k > 0, at(k - 1)[0] < at(k - 1)[1]))
        run.cache.setdefault("searches", []).append(k)
        return k

    def x_time_time(self, run, args, kw):
        return VOpaque("time")

    def x_random_rand(self, run, args, kw):
        if args:
            raise Unsupported("rand with shape")
        if run.cache.get("seed given"):
            run.oblige("random numbers are drawn after seeding", z3.BoolVal(bool(run.cache.get("seeded"))))
        r = fresh("rand", RE)
        run.assume(z3.And(r >= 0, r < 1))
        return r

    def x_random_seed(self, run, args, kw):
        if len(args) != 1 or not is_z(run.snap(args[0])):
            raise Unsupported("seed")
        run.cache["seeded"] = True
        return NONE

    def x_linalg_norm(self, run, args, kw):
        a = self.as_array(run, args[0])
        if kw or len(args) > 1 or a.nd != 1:
            raise Unsupported("norm")
        if a.sort != RE:
            a0 = a
            a = Arr(a0.shape, lambda i: z3.ToReal(zint(a0.elt(i))), RE)
        z = run.mat(a).z
        n = L.rnorm(z, a.shape[0])
        run.assume(n >= 0)
        if run.cache.get("norm positive"):
            run.assume(n > 0)
            run.V.assumptions.add("%s: the random vector is never the origin (probability zero)" % run.con.key)
        run.cache.setdefault("norms", []).append((n, a))
        return n

    def x_scipy_spatial_distance_pdist(self, run, args, kw):
        a = self.as_array(run, args[0])
        if kw or len(args) > 1 or a.nd != 2:
            raise Unsupported("pdist")
        if a.sort != RE:
            a0 = a
            a = Arr(a0.shape, lambda i, j: z3.ToReal(zint(a0.elt(i, j))), RE)
        n = a.shape[0]
        r = arr_const("pdist", [n * (n - 1) / 2], RE)
        r.pdist = run.mat(a)
        return run.new(r)

    def x_scipy_spatial_distance_squareform(self, run, args, kw):
        r = run.snap(args[0])
        a = getattr(r, "pdist", None)
        if a is None or kw or len(args) > 1:
            raise Unsupported("squareform")
        n, d = a.shape
        if not run.cache.get("rdist"):
            run.cache["rdist"] = True
            u, v = z3.Const("u", L.rnorm.domain(0)), z3.Const("v", L.rnorm.domain(0))
            t = L.rdist(u, v, d)
            run.pc.append(L.forall([u, v], z3.And(t >= 0, t == L.rdist(v, u, d), z3.Implies(u == v, t == 0)), [t]))
        return run.new(Arr([n, n], lambda x, y: L.rdist(a.z[x], a.z[y], d), RE))

    def x_cos(self, run, args, kw):
        return self.trig(run, args, 0)

    def x_sin(self, run, args, kw):
        return self.trig(run, args, 1)

    def trig(self, run, args, k):
        c = num(run.snap(args[0]))
        if c.sort() != RE:
            c = z3.ToReal(zint(c))
        t = [fcos, fsin][k](c)
        run.assume(fcos(c) * fcos(c) + fsin(c) * fsin(c) == 1)
        run.assume(z3.And(-1 <= t, t <= 1))
        run.cache.setdefault("angles", {})[c.get_id()] = c
        return t

    # ------------------------------------------------ methods of lists and arrays
    def method(self, run, name, base, args, kw):
        c = run.snap(base)
        if isinstance(c, VOpaque) and name in ("append", "sort", "extend"):
            return NONE
        if name == "append":
            return self.list_append(run, base, c, args[0])
        if name == "astype":
            return self.cast(run, self.as_array(run, c), args[0])
        if name == "copy":
            if isinstance(c, Arr):
                return run.new(copy_arr(c))
            if isinstance(c, PyList):
                return run.new(PyList(c.items))
        if name == "sort" and isinstance(c, Arr) and c.nd == 1 and not args and not kw:
            r = self.sorted_copy(run, c)
            r.islist = c.islist
            run.write(base, r)
            return NONE
        if name == "sort" and isinstance(c, PyList) and not c.items:
            return NONE
        if name == "index" and isinstance(c, Arr) and c.nd == 1:
            v = num(run.snap(args[0]))
            n = c.shape[0]
            i = consts("i")
            w = fresh("idx", I)
            inn = self.contains(run, v, c)
            run.oblige("list.index of a member", inn)
            run.assume(z3.And(L.inrange(w, n), c.elt(w) == v))
            pats = index_terms(c.elt(i), i)[:1] or None
            run.assume(L.forall([i], z3.Implies(z3.And(0 <= i, i < w), c.elt(i) != v), pats))
            return w
        if name == "any":
            return self.np_any(run, self.as_array(run, c))
        if name == "all":
            return z3.Not(self.np_any(run, self.negmask(self.as_array(run, c))))
        if name == "transpose" and not args:
            return self.transpose(run, base)
        if name == "tolist" and isinstance(c, Arr) and c.nd == 1:
            a = copy_arr(c)
            a.islist = True
            return run.new(a)
        if name == "sum" and not args:
            return self.x_sum(run, [base], kw)
        if name in ("min", "max") and not args and not kw:
            return self.extremum(run, self.as_array(run, c), name)
        if name == "dot":
            return self.x_matmul(run, [base] + args, kw)
        raise Unsupported("method %s" % name)

    def list_append(self, run, base, c, v):
        cv = run.snap(v)
        if isinstance(c, PyList) and getattr(c, "elemtype", None) is None:
            run.write(base, PyList(c.items + [v])) if getattr(c, "back", None) is None else self.back_write(run, base, c, PyList(c.items + [v]))
            return NONE
        if isinstance(c, Arr) and (c.islist or getattr(c, "lst", None) is not None):
            n = c.shape[0]
            if not c.islist:
                run.oblige("append to a list", c.lst)
            if c.nd == 1:
                x = num(cv)
                if x.sort() == I and c.sort == RE:
                    x = z3.ToReal(x)
                if x.sort() != c.sort:
                    raise Unsupported("append sort")
                if c.z is not None:
                    z = z3.Store(c.z, n, x)
                    new = arr_of(z, [n + 1], c.sort, islist=True)
                else:
                    new = Arr([n + 1], lambda i: z3.If(i == n, x, c.elt(i)), c.sort, islist=True)
            else:
                a = self.as_array(run, cv)
                if a.nd != c.nd - 1 or a.sort != c.sort:
                    raise Unsupported("append of a row")
                for s, t in zip(a.shape, c.shape[1:]):
                    if not s.eq(t):
                        run.oblige("appended row has the common length", z3.Implies(n > 0, s == t))
                if c.z is not None:
                    new = arr_of(z3.Store(c.z, n, run.mat(a).z), [n + 1] + a.shape, c.sort, islist=True)
                else:
                    new = Arr([n + 1] + a.shape, lambda i, *r: z3.If(i == n, a.elt(*r), c.elt(i, *r)), c.sort, islist=True)
            self.back_write(run, base, c, new)
            run.freeze(v, base)
            return NONE
        if isinstance(c, VOpaque):
            return NONE
        if isinstance(c, ObjSeq):
            if not (isinstance(v, Ref) and isinstance(run.heap[v.id], Obj)):
                raise Unsupported("append to a list of objects")
            run.write(base, ObjSeq(c.n + 1, c.base, c.over + [(c.n, v)]))
            return NONE
        if isinstance(c, SeqOf):
            new = self.seq_like(run, c, c.n + 1, c.n, cv)
            self.back_write(run, base, c, new)
            run.freeze(v, base)
            return NONE
        raise Unsupported("append")

    def seq_like(self, run, c, n, i, cv):
        """The list c with entry i replaced by (or, at the end, extended by) cv."""
        shared = getattr(c, "shared", False) or getattr(cv, "bor", False)
        if getattr(c, "conv", None):
            cv = c.conv(run, cv)
            if getattr(c, "conv_at", None):
                c.conv_at(run, cv, i)
            shared = shared or getattr(cv, "bor", False)
        new = SeqOf(n, lambda k: ite_val(k == i, cv, c.get(k)), tag=c.tag)
        new.shared = shared
        new.conv = getattr(c, "conv", None)
        new.conv_at = getattr(c, "conv_at", None)
        new.wrapget = getattr(c, "wrapget", None)
        if new.wrapget:
            g0 = new.get
            new.get = lambda k: new.wrapget(g0(k), k)
        if hasattr(c, "head"):
            new.head = c.head
        return new

    def back_write(self, run, base, c, new):
        back = getattr(c, "back", None)
        if back is None:
            run.write(base, new)
            return
        run.check_slot(c)
        run.heap[base.id] = new
        run.ver[base.id] += 1
        new2 = copy_arr(new) if isinstance(new, Arr) else (copy_seq(new) if isinstance(new, SeqOf) else new)
        new.back, new.slot = back, getattr(c, "slot", 0)
        b0, i = back
        for k, l in run.frozen.items():
            if l == b0.id:
                run.dead.add(k)
        n0 = run.slots.get(b0.id, 0)
        run.setitem(None, b0, [("i", i)], new2)
        run.slots[b0.id] = n0


def copy_seq(c):
    r = SeqOf(c.n, c.get, c.tag)
    for f in ("shared", "conv", "conv_at", "wrapget", "head", "given"):
        if hasattr(c, f):
            setattr(r, f, getattr(c, f))
    return r


def incr_unique(n, a, m, b, wa, wb):
    """Strictly increasing sequences a (length n), b (length m) with the same
    members (wa(i): position in b of a(i), wb: conversely) are equal."""
    from .engine import Lem
    i, j = consts("i", 2)
    inc = lambda f, n: z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), f(i) < f(j)))
    return Lem("incr_unique", z3.Implies(
        z3.And(inc(a, n), inc(b, m),
               z3.ForAll([i], z3.Implies(L.inrange(i, n), z3.And(L.inrange(wa(i), m), a(i) == b(wa(i))))),
               z3.ForAll([i], z3.Implies(L.inrange(i, m), z3.And(L.inrange(wb(i), n), b(i) == a(wb(i)))))),
        z3.And(n == m, z3.ForAll([i], z3.Implies(L.inrange(i, n), a(i) == b(i))))))


fcos = z3.Function("cos_f", RE, RE)
fsin = z3.Function("sin_f", RE, RE)


def subapps(t):
    out, seen = [], set()

    def go(t):
        if not z3.is_app(t) or t.get_id() in seen:
            return
        seen.add(t.get_id())
        if t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and t.num_args():
            out.append(t)
        for c in t.children():
            go(c)
    go(t)
    return out


def covers(t, xs):
    s = set()

    def go(t):
        if z3.is_app(t):
            s.add(t.get_id())
            for c in t.children():
                go(c)
    go(t)
    return all(x.get_id() in s for x in xs)
