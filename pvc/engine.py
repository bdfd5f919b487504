"""Verification-condition generator for the Python of /repo.

Forward symbolic execution of the functions' ast, one path at a time (the
decisions of a path are replayed from the start, so the interpreter is written
in direct style), loops cut by invariants, calls to functions under contract
replaced by their contract, other functions of the repository inlined.
"""
import ast
import os
import z3

from . import logic as L
from .vals import *
from .vals import fresh, fresh_name

SRC = os.environ.get("VERIF_SRC", "/repo/src/permaviss")


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class PathEnd(Exception):
    pass


UNDEF = VOpaque("undefined")


# ---------------------------------------------------------------- modules
class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path).read())
        self.names = {}
        pkg = name.split(".")[:-1]
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.names[n.name] = ("func", n)
            elif isinstance(n, ast.ClassDef):
                self.names[n.name] = ("class", n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split(".")[0]] = (
                        "ext", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                if n.level:
                    base = pkg[:len(pkg) - (n.level - 1)]
                    full = ".".join(base + (n.module.split(".") if n.module else []))
                    for a in n.names:
                        self.names[a.asname or a.name] = ("from", full, a.name)
                else:
                    for a in n.names:
                        if n.module.split(".")[0] == "permaviss":
                            self.names[a.asname or a.name] = ("from", n.module, a.name)
                        else:
                            self.names[a.asname or a.name] = ("ext", n.module + "." + a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.names[n.targets[0].id] = ("const", n.value)


class Repo(object):
    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}

    def mod(self, name):
        if name not in self.mods:
            rel = name.split(".")[1:]
            p = os.path.join(self.src, *rel) + ".py"
            if not os.path.exists(p):
                p = os.path.join(self.src, *(rel + ["__init__.py"]))
            if not os.path.exists(p):
                raise Unsupported("module %s not found" % name)
            self.mods[name] = Module(name, p)
        return self.mods[name]

    def resolve(self, modname, name, depth=0):
        """-> VFunc / VClass / module VOpaque / constant expression"""
        if depth > 5:
            raise Unsupported("import chain")
        m = self.mod(modname)
        if name not in m.names:
            raise Unsupported("name %s not in %s" % (name, modname))
        k = m.names[name]
        if k[0] == "func":
            return VFunc("repo", modname + ":" + name, node=k[1], mod=modname)
        if k[0] == "class":
            return VClass(modname, name)
        if k[0] == "ext":
            return VFunc("ext", k[1])
        if k[0] == "from":
            try:
                return VFunc("mod", self.mod(k[1] + "." + k[2]).name)
            except Unsupported:
                pass
            return self.resolve(k[1], k[2], depth + 1)
        if k[0] == "const":
            return k[1]

    def find(self, key):
        """'module:func' or 'module:Class.func' -> FunctionDef"""
        mod, qn = key.split(":")
        m = self.mod(mod)
        parts = qn.split(".")
        if parts[0] not in m.names:
            # moved inside the package: follow imports
            v = self.resolve(mod, parts[0])
            raise Unsupported("%s not defined" % key)
        k = m.names[parts[0]]
        if k[0] == "from":
            return self.find(k[1] + ":" + ".".join([k[2]] + parts[1:]))
        node = k[1]
        if len(parts) == 1:
            if not isinstance(node, ast.FunctionDef):
                raise Unsupported("%s is not a function" % key)
            if node.decorator_list:
                raise Unsupported("%s is decorated" % key)
            return node, mod
        for n in node.body:
            if isinstance(n, ast.FunctionDef) and n.name == parts[1]:
                if n.decorator_list:
                    raise Unsupported("%s is decorated" % key)
                return n, mod
        raise Unsupported("%s not found" % key)


# ---------------------------------------------------------------- contracts
class Loop(object):
    """inv(c) -> [(name, formula)]; variant(c) -> Int term (while loops);
    havoc: name -> f(c) value; ghosts: name -> (init(c), step(c));
    hints(c): lemma instances assumed at the end of the body (each justified);
    pre_hints(c): at the start of the body; keep: names not to havoc."""

    def __init__(self, inv=None, variant=None, havoc=None, ghosts=None, hints=None,
                 body_hints=None, exit_hints=None, init_hints=None, frame=None, keep=()):
        self.inv, self.variant, self.havoc = inv, variant, havoc or {}
        self.ghosts, self.hints = ghosts or {}, hints
        self.body_hints, self.exit_hints, self.init_hints = body_hints, exit_hints, init_hints
        self.frame, self.keep = frame, keep


class Contract(object):
    def __init__(self, key, params, requires=None, ensures=None, raises=None, result=None,
                 loops=None, p=None, modifies=(), hints=None, axioms=None, renames=None,
                 trusted=False, props=(), note="", inline=(), setup=None, raise_hints=None,
                 allow_mod=None, partial=False, effect=None):
        self.effect = effect
        self.key, self.params, self.requires, self.ensures = key, params, requires, ensures
        self.raises = raises or {}
        self.result, self.loops, self.p, self.modifies = result, loops or {}, p, modifies
        self.hints, self.axioms = hints, axioms
        self.trusted, self.props, self.note = trusted, props, note
        self.inline = inline
        self.setup = setup
        self.raise_hints = raise_hints
        self.allow_mod = allow_mod
        self.partial = partial


class Lem(object):
    """Instance of a lemma of /verif/lemmas (or of a definition)."""

    def __init__(self, name, f):
        self.name, self.f = name, f


CONTRACTS = {}


def contract(key, **kw):
    CONTRACTS[key] = Contract(key, **kw)
    return CONTRACTS[key]


class Ctx(object):
    """What contract code sees: names of the function's frame as snapshots."""

    def __init__(self, run, frame, old=None, result=None, it=None, ghosts=None, extra=None):
        self.run, self.frame, self.old, self.result, self.it = run, frame, old, result, it
        self.g = ghosts or {}
        self.extra = extra or {}

    def __getitem__(self, name):
        name = self.run.rename.get(name, name)
        for fr in [self.frame] + list(reversed(self.run.frames)):
            if name in fr.env:
                v = fr.env[name]
                if v is UNDEF:
                    raise MissingName(name)
                return self.run.snap(v)
        raise MissingName(name)

    def snap(self, v):
        return self.run.snap(v)

    @property
    def p(self):
        return self.run.p


class Frame(object):
    def __init__(self, modname, env, fname, node=None):
        self.mod, self.env, self.fname, self.node = modname, env, fname, node


class Oblig(object):
    def __init__(self, name, hyps, goal, fn):
        self.name, self.hyps, self.goal, self.fn = name, hyps, goal, fn


# ---------------------------------------------------------------- the run
class Run(object):
    """One path of one function."""

    def __init__(self, verifier, con, prefix, worklist):
        self.V, self.con = verifier, con
        self.prefix, self.cursor = prefix, 0
        self.trace = []
        self.worklist = worklist
        self.heap, self.ver = {}, {}
        self.hid = 0
        self.pc, self.guards = [], []
        self.frames = []
        self.obs = verifier.obs
        self.p = None
        self.rename = verifier.rename
        self.loop_ids = {}
        self.models = verifier.models
        self.cache = {}
        self.nob = 0
        self.frozen, self.dead = {}, set()
        self.slots = {}          # list -> how often its entries were replaced
        self.calls = []
        self.old = None

    # -------------------------------------------------- heap
    def new(self, content):
        self.hid += 1
        self.heap[self.hid] = content
        self.ver[self.hid] = 0
        return Ref(self.hid)

    def snap(self, v):
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if v.id in self.dead:
                raise Unsupported("read of an array after its alias in a list was written")
            if isinstance(c, Arr) and c.src is not None:
                hid, ver = c.src
                if self.ver.get(hid) != ver:
                    raise Unsupported("view read after its base was written")
            if isinstance(c, Obj):
                return v
            return c
        return v

    def write(self, ref, content):
        old = self.heap[ref.id]
        if isinstance(old, Arr) and old.src is not None:
            raise Unsupported("write through a view")
        if ref.id in self.frozen:
            raise Unsupported("write to an array stored in a list")
        if getattr(old, "bor", False):
            raise Unsupported("write to an array that belongs to a list")
        self.heap[ref.id] = content
        self.ver[ref.id] += 1

    def freeze(self, v, listref):
        """v was stored (by value) in a symbolic list: later writes to one of
        the two would be visible in the other, and are not modelled."""
        if isinstance(v, Ref) and isinstance(self.heap[v.id], (Arr, SeqOf, PyList)):
            self.frozen[v.id] = listref.id

    # -------------------------------------------------- facts
    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if self.guards:
            f = z3.Implies(z3.And(*self.guards), f)
        self.pc.append(f)

    def hint(self, h):
        """A lemma instance (assumed; the lemma is proved elsewhere), a named
        assertion, or a formula to prove here and then use."""
        if isinstance(h, Lem):
            self.V.lemmas.add(h.name)
            self.assume(h.f)
        elif isinstance(h, tuple):
            self.oblige("assert: " + h[0], h[1])
        else:
            self.oblige("assert", h)

    def hyps(self):
        return list(self.pc) + list(self.guards)

    def oblige(self, name, goal, assume=True):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        self.nob += 1
        if self.cursor >= len(self.prefix) and not z3.is_true(g):
            self.obs.append(Oblig("%s / %s [%s]" % (self.con.key.split(":")[1], name, self.pathname()),
                                  self.hyps(), goal, self.con.key))
        elif self.cursor >= len(self.prefix):
            self.V.trivial += 1
        if assume:
            self.assume(goal)

    def pathname(self):
        return "".join("TF"[not d] if isinstance(d, bool) else str(d) for d in self.trace) or "-"

    def quick(self, goal, ms=400):
        """Is the goal a consequence of the path? (True / False=don't know)"""
        if isinstance(goal, bool):
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            pass
        s = z3.SimpleSolver()
        s.set("timeout", ms)
        s.set("mbqi", False)
        for h in self.hyps():
            s.add(h)
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    # -------------------------------------------------- decisions
    def fork(self, feasible=(True, True), label=None):
        """Nondeterministic choice, True first."""
        if self.cursor < len(self.prefix):
            d = self.prefix[self.cursor]
        else:
            if all(feasible):
                self.worklist.append(self.trace + [False])
                d = True
            else:
                d = feasible[0]
        self.cursor += 1
        self.trace.append(d)
        return d

    def choose(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.guards:
            raise Unsupported("branch inside a guarded expression")
        if self.cursor < len(self.prefix):
            d = self.fork()
        else:
            t = not self.quick(z3.Not(cond), 300)
            f = not self.quick(cond, 300)
            if not t and not f:
                raise PathEnd()
            d = self.fork((t, f))
        self.pc.append(cond if d else z3.Not(cond))
        return d

    # -------------------------------------------------- names
    def frame(self):
        return self.frames[-1]

    def lookup(self, name):
        fr = self.frame()
        if name in fr.env:
            v = fr.env[name]
            if v is UNDEF:
                raise Unsupported("possibly undefined variable %s" % name)
            return v
        try:
            v = self.V.repo.resolve(fr.mod, name)
            if isinstance(v, ast.AST):
                return self.ev(v)
            return v
        except Unsupported:
            pass
        if name in ("range", "len", "int", "min", "max", "list", "enumerate", "print", "sorted",
                    "isinstance", "abs", "float", "sum", "zip", "ValueError", "RuntimeError",
                    "object", "str", "any", "all", "reversed", "tuple", "bool", "set", "map",
                    "TypeError", "IndexError", "AssertionError", "NotImplementedError", "Exception"):
            return VFunc("builtin", name)
        raise Unsupported("unknown name %s" % name)

    # -------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s)

    def st_Pass(self, s):
        pass

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Return(self, s):
        raise Ret(self.ev(s.value) if s.value is not None else NONE)

    def st_Break(self, s):
        raise Brk()

    def st_Continue(self, s):
        raise Cont()

    def st_Raise(self, s):
        if s.exc is None:
            raise Unsupported("bare raise")
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            raise PyRaise(e.id)
        raise Unsupported("raise")

    def st_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if not self.choose(c):
            raise PyRaise("AssertionError")

    def st_If(self, s):
        c = self.truth(self.ev(s.test))
        if self.choose(c):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.ev(s.value)
            if isinstance(cur, Ref) and isinstance(self.heap[cur.id], Arr) and not self.heap[cur.id].islist:
                # in place on the array
                old = self.heap[cur.id]
                new = self.snap(self.binop(type(s.op).__name__, cur, v))
                if getattr(old, "back", None) is not None:
                    self.models.back_write(self, cur, old, copy_arr(new))
                else:
                    self.write(cur, new)
                return
            self.frame().env[t.id] = self.binop(type(s.op).__name__, cur, v)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.index(t.slice)
            cur = self.subscript(base, idx)
            v = self.ev(s.value)
            if isinstance(cur, Ref) and isinstance(self.heap[cur.id], Arr):
                cc = self.heap[cur.id]
                if cc.src is None and self.is_nonview_target(base):
                    pass
            r = self.binop(type(s.op).__name__, cur, v)
            self.setitem(t.value, base, idx, r)
            return
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.getattr(base, t.attr)
            self.setattr(base, t.attr, self.binop(type(s.op).__name__, cur, self.ev(s.value)))
            return
        raise Unsupported("augmented assignment")

    def is_nonview_target(self, base):
        return True

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame().env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, items):
                self.assign(a, b)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.index(t.slice)
            self.setitem(t.value, base, idx, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        c = self.snap(v)
        if isinstance(c, VTuple):
            if len(c.items) != n:
                raise Unsupported("unpack")
            return c.items
        if isinstance(c, PyList) and len(c.items) == n:
            return c.items
        if isinstance(c, Arr) and c.nd >= 1:
            self.oblige("unpack length", c.shape[0] == n)
            return [self.subscript(v, [("i", z3.IntVal(k))]) for k in range(n)]
        raise Unsupported("unpack of %r" % type(c))

    def st_Delete(self, s):
        raise Unsupported("del")

    # -------------------------------------------------- loops
    def loop_contract(self, s):
        lc, k, base = self.V.loop_lookup(self, self.frame(), s)
        self.base_loop = base
        return lc, k

    def st_While(self, s):
        lc, k = self.loop_contract(s)
        if lc is not None and isinstance(self.base_loop, ast.For):
            lc = self.for_as_while(lc, self.base_loop)
        self.loop(s, lc, k, None)

    def for_as_while(self, lc, base):
        """The contract of a loop 'for j in range(lo, hi)' on a while loop that
        counts j itself: the iteration number is j - lo, and lo <= j <= hi."""
        it = base.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range"
                and isinstance(base.target, ast.Name) and len(it.args) <= 2):
            raise Unsupported("for loop turned into a while loop")
        lo = self.ev(it.args[0]) if len(it.args) == 2 else 0
        hi = self.ev(it.args[-1])
        lo, hi = zint(lo), zint(hi)
        nm = base.target.id
        nm = self.rename.get(nm, nm)
        if nm not in self.frame().env:
            raise Unsupported("no counter for the while loop")

        def cv(c):
            c.it = zint(self.snap(self.frame().env[nm])) - lo
            return c

        def wrap(f):
            return (lambda c: f(cv(c))) if f else None
        return Loop(inv=lambda c: [("counter", z3.And(cv(c).it >= 0, z3.Or(c.it <= hi - lo, c.it == 0)))] +
                    lc.inv(cv(c)), variant=lambda c: hi - lo - cv(c).it if True else None,
                    havoc=lc.havoc, ghosts={k: (i, wrap(st)) for k, (i, st) in lc.ghosts.items()},
                    hints=wrap(lc.hints), body_hints=wrap(lc.body_hints),
                    exit_hints=wrap(lc.exit_hints), init_hints=wrap(lc.init_hints), keep=lc.keep)

    def st_For(self, s):
        it = self.ev(s.iter)
        n, get = self.iterate(it)
        lc, k = self.loop_contract(s)
        nn = z3.simplify(n) if is_z(n) else z3.IntVal(n)
        if lc is None and z3.is_int_value(nn) and nn.as_long() <= 12:
            broke = False
            for i in range(nn.as_long()):
                self.assign(s.target, get(z3.IntVal(i)))
                try:
                    self.block(s.body)
                except Brk:
                    broke = True
                    break
                except Cont:
                    continue
            if not broke:
                self.block(s.orelse)
            return
        self.loop(s, lc, k, (nn, get))

    def loop(self, s, lc, k, forinfo):
        fr = self.frame()
        if lc is None:
            lc = self.V.adhoc_loop(self, fr, s)
        if lc is None:
            raise Unsupported("loop %s of %s has no invariant" % (k, fr.fname))
        tag = "loop %s" % k
        ghosts = {}
        g0 = Ctx(self, fr, old=self.old, ghosts=dict(getattr(fr, "ghosts", {})))
        for name, (init, step) in lc.ghosts.items():
            ghosts[name] = init(g0)
        outer = getattr(fr, "ghosts", {})
        allg = dict(outer)
        allg.update(ghosts)
        entry = Snapshot(self, fr)

        def ctx(it):
            gg = dict(outer)
            gg.update(ghosts)
            return Ctx(self, fr, old=self.old, it=it, ghosts=gg, extra=dict(entry=entry))
        # init
        zero = z3.IntVal(0)
        if lc.init_hints:
            for h in lc.init_hints(ctx(zero)):
                self.hint(h)
        for name, f in lc.inv(ctx(zero)):
            self.oblige("%s init: %s" % (tag, name), f, assume=False)
        # havoc
        names, mutated = self.V.modified(self, fr, s)
        targets = set()
        if forinfo is not None:
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
        cells = set()
        for nm in mutated:
            if nm in fr.env:
                v = fr.env[nm]
                self.collect_cells(v, cells)
        # the contract may say that these objects stay as they are (checked after the body)
        for nm in lc.keep:
            nm = self.rename.get(nm, nm)
            if nm in fr.env:
                got = set()
                self.collect_cells(fr.env[nm], got)
                cells -= got
        havocked, before_loop = set(), self.hid
        hc = ctx(None)
        newvals = {}
        inv_rename = {v: k2 for k2, v in self.rename.items()}
        for nm in sorted(names):
            cname = inv_rename.get(nm, nm)
            if nm in targets:
                fr.env[nm] = UNDEF
                continue
            if cname in lc.havoc:
                newvals[nm] = lc.havoc[cname](hc)
            elif nm in fr.env and fr.env[nm] is not UNDEF:
                newvals[nm] = self.havoc_like(fr.env[nm], nm)
            else:
                newvals[nm] = UNDEF
        cellnames = {}
        for nm in mutated:
            if nm in fr.env and isinstance(fr.env[nm], Ref):
                cellnames[fr.env[nm].id] = nm
                o = self.heap[fr.env[nm].id]
                if isinstance(o, Obj):
                    for fld, fv in o.fields.items():
                        if isinstance(fv, Ref):
                            cellnames.setdefault(fv.id, inv_rename.get(nm, nm) + "." + fld)
        for hid in sorted(cells):
            nm = cellnames.get(hid)
            cname = inv_rename.get(nm, nm)
            if nm in names:
                # the name is rebound in the loop; its first object may be changed all the same
                if self.shared_cell(hid, fr, nm):
                    self.heap[hid] = self.havoc_content(self.heap[hid], nm)
                    self.ver[hid] += 1
                    havocked.add(hid)
                continue
            if cname is not None and "." in cname and cname not in lc.havoc:
                if not isinstance(self.heap[hid], (Arr, Obj)):
                    if not self.touched(s, cname):
                        continue
            self.slots[hid] = self.slots.get(hid, 0) + 1
            if cname in lc.havoc:
                v = self.snap(lc.havoc[cname](hc))
                self.heap[hid] = v
            elif isinstance(self.heap[hid], Obj) and nm and "." not in nm:
                o = self.heap[hid]
                self.heap[hid] = Obj(o.cls, {k2: self.havoc_like(v, nm + "_" + k2) if (
                    is_z(v) or isinstance(v, (int, bool, float))) and self.touched(s, cname + "." + k2) else v
                    for k2, v in o.fields.items()})
            else:
                self.heap[hid] = self.havoc_content(self.heap[hid], nm or "cell")
            self.ver[hid] += 1
            havocked.add(hid)
        for nm, v in newvals.items():
            fr.env[nm] = v
        for nm in targets:
            fr.env[nm] = UNDEF
        for name in ghosts:
            g = ghosts[name]
            ghosts[name] = fresh("g_" + name, g.sort())
        if forinfo is not None:
            n, get = forinfo
            it = fresh("it", I)
            inbody = self.fork()
            self.pc.append(z3.And(0 <= it, it <= z3.If(n >= 0, n, 0)))
            if inbody:
                self.pc.append(it < n)
            else:
                self.pc.append(it == z3.If(n >= 0, n, 0))
        else:
            it = None
            inbody = self.fork()
        fr_ghosts_saved = getattr(fr, "ghosts", {})
        for name, f in lc.inv(ctx(it)):
            self.pc.append(f)
        if inbody:
            gsave = dict(fr_ghosts_saved)
            gsave.update(ghosts)
            fr.ghosts = gsave
            if forinfo is not None:
                self.assign(s.target, forinfo[1](it))
            else:
                c = self.truth(self.ev(s.test))
                if not self.quick_add(c):
                    raise PathEnd()
            v0 = lc.variant(ctx(it)) if lc.variant and forinfo is None else None
            bodysnap = Snapshot(self, fr)
            if lc.body_hints:
                cc = ctx(it)
                cc.extra["body"] = bodysnap
                for h in lc.body_hints(cc):
                    self.hint(h)
            broke = False
            heap0 = dict(self.heap)
            try:
                try:
                    self.block(s.body)
                except Cont:
                    pass
            except Brk:
                broke = True
            if not broke:
                # what the body changed and the loop's havoc kept: the aliasing was under-estimated
                for h in heap0:
                    if h <= before_loop and h not in havocked and self.heap[h] is not heap0[h]:
                        self.V.aliased(s)
            if broke:
                fr.ghosts = fr_ghosts_saved
                if lc.exit_hints:
                    cc = ctx(it)
                    cc.extra["broke"] = True
                    for h in lc.exit_hints(cc):
                        self.hint(h)
                return                      # flows to after the loop
            inner = fr.ghosts
            fr.ghosts = fr_ghosts_saved
            nit = it + 1 if it is not None else None
            cc = ctx(it)
            cc.extra["body"] = bodysnap
            cc.extra["inner"] = inner
            newg = {}
            for name, (init, step) in lc.ghosts.items():
                newg[name] = step(cc)
            ghosts.update(newg)
            cc = ctx(nit)
            cc.extra["body"] = bodysnap
            cc.extra["inner"] = inner
            if lc.hints:
                for h in lc.hints(cc):
                    self.hint(h)
            if v0 is not None:
                v1 = lc.variant(cc)
                self.oblige("%s variant decreases" % tag, z3.And(v1 < v0, v0 >= 0), assume=False)
            elif forinfo is None and not lc.variant:
                self.V.assumptions.add("termination of a while loop of %s is not proved" % fr.fname)
            for name, f in lc.inv(cc):
                self.oblige("%s preserved: %s" % (tag, name), f, assume=False)
            raise PathEnd()
        # after the loop
        gsave = dict(fr_ghosts_saved)
        gsave.update(ghosts)
        fr.ghosts = gsave
        if forinfo is None:
            c = self.truth(self.ev(s.test))
            if not self.quick_add(z3.Not(c)):
                raise PathEnd()
        elif targets:
            # the target keeps its last value; only known if the loop ran
            pass
        if lc.exit_hints:
            for h in lc.exit_hints(ctx(it)):
                self.hint(h)
        self.block(s.orelse)

    def shared_cell(self, hid, fr, nm):
        """Is the object reachable other than through the local name nm?"""
        if hid in getattr(self, "argcells", ()):
            return True
        got = set()
        for f in self.frames:
            for n, v in f.env.items():
                if not (f is fr and n == nm):
                    self.collect_cells(v, got)
        return hid in got

    def touched(self, s, cname):
        """May the loop change attribute x of object o (cname = "o.x")?"""
        obj, fld = cname.split(".", 1)
        obj = self.rename.get(obj, obj)
        env = self.frame().env
        me = env.get(obj)

        def alias(n):
            return isinstance(n, ast.Name) and isinstance(env.get(n.id), Ref) and env[n.id].id == me.id

        def reaches(t):
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                if isinstance(t, ast.Attribute) and t.attr == fld:
                    return True
                t = t.value
            return False
        for n in ast.walk(s):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(reaches(q) for t in ts for q in ast.walk(t)):
                    return True
                if any(isinstance(q, ast.Attribute) and q.attr == fld for q in [n.value] if q is not None):
                    return True
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and (reaches(n.func.value) or alias(n.func.value)):
                    return True
                if any(alias(a) or isinstance(a, ast.Attribute) and a.attr == fld for a in n.args) and not (
                        isinstance(n.func, ast.Name) and n.func.id in ("len", "enumerate", "zip", "range")):
                    return True
        return False

    def quick_add(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c2 = z3.simplify(c)
        if z3.is_false(c2):
            return False
        self.pc.append(c)
        return True

    def collect_cells(self, v, cells):
        if isinstance(v, Ref):
            if v.id in cells:
                return
            c = self.heap[v.id]
            cells.add(v.id)
            if isinstance(c, Obj):
                for f in c.fields.values():
                    self.collect_cells(f, cells)
            elif isinstance(c, PyList):
                for f in c.items:
                    self.collect_cells(f, cells)
            elif isinstance(c, ObjSeq):
                for _, f in c.over:
                    self.collect_cells(f, cells)

    def havoc_like(self, v, nm):
        if isinstance(v, bool):
            return fresh(nm, B)
        if isinstance(v, int):
            return fresh(nm, I)
        if isinstance(v, float):
            return fresh(nm, RE)
        if is_z(v):
            return fresh(nm, v.sort())
        if isinstance(v, Ref):
            return self.new(self.havoc_content(self.heap[v.id], nm, newshape=True))
        if v is UNDEF or isinstance(v, (VOpaque, VNone, VStr)):
            return VOpaque(nm)
        raise Unsupported("cannot generalise %s (%s) over the loop" % (nm, type(v).__name__))

    def havoc_content(self, c, nm, newshape=False):
        if isinstance(c, Arr):
            if c.islist:
                n = fresh("len_" + nm, I)
                self.pc.append(n >= 0)
                return arr_const(nm, [n] + c.shape[1:], c.sort, islist=True)
            shape = c.shape
            if newshape:
                shape = []
                for d in c.shape:
                    n = fresh("dim_" + nm, I)
                    self.pc.append(n >= 0)
                    shape.append(n)
            return arr_const(nm, shape, c.sort)
        if isinstance(c, Obj):
            # the fields' own cells are havocked separately; scalar fields here
            f = {}
            for k, v in c.fields.items():
                if is_z(v) or isinstance(v, (int, bool, float)):
                    f[k] = self.havoc_like(v, nm + "_" + k)
                else:
                    f[k] = v
            return Obj(c.cls, f)
        if isinstance(c, (PyList, SeqOf)) or c is None or isinstance(c, VOpaque):
            return VOpaque(nm)
        if isinstance(c, PyList):
            return PyList([self.havoc_like(x, nm) if not isinstance(x, Ref) else x for x in c.items])
        raise Unsupported("cannot generalise %s over the loop" % nm)

    # -------------------------------------------------- iteration
    def iterate(self, it):
        c = self.snap(it)
        if isinstance(c, VRange):
            lo, hi = zint(c.lo), zint(c.hi)
            if c.step == 1:
                if z3.is_int_value(lo) and lo.as_long() == 0:
                    return z3.simplify(hi), lambda i: i
                return z3.simplify(hi - lo), lambda i: lo + i
            return z3.simplify(lo - hi), lambda i: lo - i
        if isinstance(c, VTuple):
            if isinstance(getattr(c, "enum", None), tuple):
                n, get = c.enum
                return n, lambda i: VTuple([i, get(i)])
            return z3.IntVal(len(c.items)), lambda i: c.items[z3.simplify(i).as_long()]
        if isinstance(c, PyList):
            return z3.IntVal(len(c.items)), lambda i: c.items[z3.simplify(i).as_long()]
        if isinstance(c, Arr):
            if c.nd == 1:
                return c.shape[0], lambda i: c.elt(i)
            return c.shape[0], lambda i: self.new(row_of(c, i))
        if isinstance(c, SeqOf):
            return c.n, lambda i: self.wrap(c.get(i))
        if isinstance(c, VEnum):
            n, get = self.iterate(c.base)
            return n, lambda i: VTuple([i + zint(c.start), get(i)])
        if isinstance(c, VZip):
            parts = [self.iterate(b) for b in c.parts]
            n = parts[0][0]
            for m, _ in parts[1:]:
                n = z3.If(m < n, m, n)
            return z3.simplify(n), lambda i: VTuple([g(i) for _, g in parts])
        raise Unsupported("iteration over %s" % type(c).__name__)

    def wrap(self, v):
        if isinstance(v, Arr):
            v, v0 = copy_arr(v), v
            v.bor = True
            v.uniq = getattr(v0, "uniq", None)
        if isinstance(v, (Arr, SeqOf, PyList, Obj)):
            return self.new(v)
        return v

    # -------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e)

    def ex_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return zscalar(v)
        if isinstance(v, str):
            return VStr(v)
        raise Unsupported("constant %r" % (v,))

    def ex_Name(self, e):
        return self.lookup(e.id)

    def ex_Tuple(self, e):
        return VTuple([self.ev(x) for x in e.elts])

    def ex_List(self, e):
        return self.new(PyList([self.ev(x) for x in e.elts]))

    def ex_JoinedStr(self, e):
        return VOpaque("string")

    def ex_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def ex_IfExp(self, e):
        if self.choose(self.truth(self.ev(e.test))):
            return self.ev(e.body)
        return self.ev(e.orelse)

    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        acc = None
        saved = list(self.guards)
        out = []
        for x in e.values:
            t = self.truth(self.ev(x))
            if isinstance(t, bool):
                t = z3.BoolVal(t)
            ts = z3.simplify(t)
            out.append(t)
            if isand and z3.is_false(ts):
                break
            if not isand and z3.is_true(ts):
                break
            self.guards.append(t if isand else z3.Not(t))
        self.guards = saved
        return z3.And(*out) if isand else z3.Or(*out)

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            return z3.Not(self.truth(v))
        c = self.snap(v)
        if op == "USub":
            if isinstance(c, Arr):
                lin = [(L.F_neg(k), z) for k, z in lin_of(c)] if lin_of(c) else None
                return self.new(Arr(c.shape, lambda *i: -c.elt(*i), c.sort, lin=lin))
            return -num(c)
        if op == "UAdd":
            return v
        if op == "Invert" and isinstance(c, Arr) and c.sort == B:
            return self.new(Arr(c.shape, lambda *i: z3.Not(c.elt(*i)), B))
        raise Unsupported("unary " + op)

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def ex_Compare(self, e):
        left = self.ev(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            out.append(self.compare(type(op).__name__, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return z3.And(*[self.truth(o) for o in out])

    def ex_Subscript(self, e):
        base = self.ev(e.value)
        return self.subscript(base, self.index(e.slice))

    def ex_Call(self, e):
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                raise Unsupported("starred argument")
            args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("** argument")
            kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw, e)

    def ex_ListComp(self, e):
        return self.models.listcomp(self, e)

    def ex_GeneratorExp(self, e):
        return self.models.listcomp(self, e)

    def ex_Lambda(self, e):
        return VFunc("lambda", "lambda", node=e, bound=self.frame())

    # -------------------------------------------------- operators
    def truth(self, v):
        c = self.snap(v)
        if is_z(c):
            if c.sort() == B:
                return c
            return c != 0
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if isinstance(c, int):
            return z3.BoolVal(c != 0)
        if isinstance(c, VNone):
            return z3.BoolVal(False)
        if isinstance(c, Arr) and c.islist:
            return c.shape[0] > 0
        if isinstance(c, PyList):
            return z3.BoolVal(len(c.items) > 0)
        if isinstance(c, Arr) and c.nd == 0:
            return self.truth(c.elt())
        raise Unsupported("truth of %s" % type(c).__name__)

    def binop(self, op, a, b):
        ca, cb = self.snap(a), self.snap(b)
        if isinstance(ca, Arr) and ca.islist and isinstance(cb, Arr) and cb.islist and op == "Add":
            return self.new(self.concat(ca, cb))
        if isinstance(ca, PyList) and isinstance(cb, PyList) and op == "Add":
            return self.new(PyList(ca.items + cb.items))
        if isinstance(ca, PyList) and op == "Mult" and is_z(cb):
            if len(ca.items) == 1 and (is_z(ca.items[0])):
                x = ca.items[0]
                return self.new(Arr([cb], lambda i: x, x.sort(), islist=True))
        if isinstance(ca, (VStr, VOpaque)) or isinstance(cb, (VStr, VOpaque)):
            return VOpaque("text")
        if isinstance(ca, PyList):
            ca = self.models.as_array(self, ca)
        if isinstance(cb, PyList):
            cb = self.models.as_array(self, cb)
        if isinstance(ca, Arr) or isinstance(cb, Arr):
            return self.new(self.elementwise(op, ca, cb))
        return self.scalar_op(op, ca, cb)

    def scalar_op(self, op, a, b):
        a, b = num(a), num(b)
        if op in ("BitAnd", "BitOr"):
            if a.sort() == B and b.sort() == B:
                return z3.And(a, b) if op == "BitAnd" else z3.Or(a, b)
            raise Unsupported("bit operation")
        if op == "Div":
            if a.sort() != RE:
                a = z3.ToReal(zint(a))
            if b.sort() != RE:
                b = z3.ToReal(zint(b))
            self.oblige("division by zero", b != 0)
            return a / b
        a, b = same_sort(a, b)
        if a.sort() == B:
            a, b = zint(a), zint(b)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op in ("FloorDiv", "Mod"):
            if a.sort() != I:
                raise Unsupported("real floor division")
            if not self.quick(b > 0):
                self.oblige("modulus positive", b > 0)
            return a / b if op == "FloorDiv" else a % b
        if op == "Pow":
            bs = z3.simplify(b)
            as_ = z3.simplify(a)
            if z3.is_int_value(bs) and 0 <= bs.as_long() <= 4:
                r = zint(1) if a.sort() == I else z3.RealVal(1)
                for _ in range(bs.as_long()):
                    r = r * a
                return r
            if z3.is_int_value(as_) and as_.as_long() == -1 and b.sort() == I:
                return z3.If(b % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
            if z3.is_int_value(as_) and as_.as_long() == 2:
                self.assume(z3.Implies(b >= 0, pow2(b) >= b + 1))
                return L_pow2(b)
        raise Unsupported("operator " + op)

    def elementwise(self, op, a, b):
        if not isinstance(a, Arr):
            if isinstance(a, VNone):
                raise Unsupported("None operand")
            av = num(a)
            a = Arr([], lambda: av, av.sort())
        if not isinstance(b, Arr):
            bv = num(b)
            b = Arr([], lambda: bv, bv.sort())
        shape, ia, ib = self.broadcast(a, b)
        lin = None
        # linear structure mod p
        la, lb = lin_of(a), lin_of(b)
        if op == "Add" and la and lb and a.nd == b.nd == 1:
            lin = la + lb
        elif op == "Sub" and la and lb and a.nd == b.nd == 1:
            lin = la + [(L.F_neg(k), z) for k, z in lb]
        elif op == "Mult" and a.nd == 0 and lb and a.sort == I:
            k0 = L.CL(a.elt(), self.p)
            lin = [(L.F_mul(k0, k), z) for k, z in lb]
        elif op == "Mult" and b.nd == 0 and la and b.sort == I:
            k0 = L.CL(b.elt(), self.p)
            lin = [(L.F_mul(k0, k), z) for k, z in la]
        elif op == "Mod" and la and b.nd == 0 and self.p is not None and b.elt().eq(self.p):
            lin = la
        if op in ("Mod", "FloorDiv"):
            if b.nd != 0:
                raise Unsupported("array modulus")
            bv = b.elt()
            if not self.quick(bv > 0):
                self.oblige("modulus positive", bv > 0)
            if bv.sort() != I or a.sort != I:
                raise Unsupported("real modulus")
        if op == "Div":
            if b.nd != 0:
                raise Unsupported("array division")
            self.oblige("division by zero", zscalar(b.elt()) != 0)
        sample = self._ew(op, zero_of(a.sort), zero_of(b.sort))
        run = self

        def elt(*i):
            return run._ew(op, a.elt(*ia(i)), b.elt(*ib(i)))
        return Arr(shape, elt, sample.sort(), lin=lin)

    def _ew(self, op, x, y):
        if op in ("BitAnd", "BitOr"):
            if x.sort() == B and y.sort() == B:
                return z3.And(x, y) if op == "BitAnd" else z3.Or(x, y)
            raise Unsupported("bit operation")
        if op == "Div":
            if x.sort() == I:
                x = z3.ToReal(x)
            if y.sort() == I:
                y = z3.ToReal(y)
            return x / y
        if op in CMP:
            x, y = same_sort(x, y)
            return CMP[op](x, y)
        x, y = same_sort(x, y)
        if x.sort() == B:
            x, y = zint(x), zint(y)
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mult":
            return x * y
        if op == "Mod":
            return x % y
        if op == "FloorDiv":
            return x / y
        if op == "Pow":
            ys = z3.simplify(y)
            if z3.is_int_value(ys) and ys.as_long() == 2:
                return x * x
        raise Unsupported("elementwise " + op)

    def broadcast(self, a, b):
        na, nb = a.nd, b.nd
        n = max(na, nb)
        shape, ma, mb = [], [], []
        for d in range(n):
            da = a.shape[d - (n - na)] if d >= n - na else None
            db = b.shape[d - (n - nb)] if d >= n - nb else None
            one = lambda t: t is not None and z3.is_int_value(z3.simplify(t)) and z3.simplify(t).as_long() == 1
            if da is None:
                shape.append(db)
                mb.append(d)
            elif db is None:
                shape.append(da)
                ma.append(d)
            elif one(da) and not one(db):
                shape.append(db)
                ma.append(None)
                mb.append(d)
            elif one(db) and not one(da):
                shape.append(da)
                ma.append(d)
                mb.append(None)
            else:
                if not da.eq(db) and not self.quick(da == db):
                    self.oblige("shapes match", da == db)
                shape.append(da)
                ma.append(d)
                mb.append(d)
        pick = lambda m: (lambda i: [z3.IntVal(0) if d is None else i[d] for d in m])
        return shape, pick(ma), pick(mb)

    def compare(self, op, a, b):
        ca, cb = self.snap(a), self.snap(b)
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else z3.Not(r)
        if op in ("In", "NotIn"):
            r = self.models.contains(self, ca, cb)
            return r if op == "In" else z3.Not(r)
        if isinstance(ca, VNone) or isinstance(cb, VNone):
            r = self.identical(a, b)
            if op == "Eq":
                return r
            if op == "NotEq":
                return z3.Not(r)
            raise Unsupported("comparison with None")
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.heap[a.id], Obj) and op in ("Eq", "NotEq"):
            r = self.identical(a, b)
            return r if op == "Eq" else z3.Not(r)
        if isinstance(ca, PyList):
            ca = self.models.as_array(self, ca)
        if isinstance(cb, PyList):
            cb = self.models.as_array(self, cb)
        if isinstance(ca, Arr) or isinstance(cb, Arr):
            if (isinstance(ca, Arr) and ca.islist) or (isinstance(cb, Arr) and cb.islist):
                if not (isinstance(ca, Arr) and isinstance(cb, Arr) and not (ca.islist and cb.islist)):
                    raise Unsupported("list comparison")
            return self.new(self.elementwise(op, ca, cb))
        if isinstance(ca, (VStr, VOpaque, VFunc, VClass)) or isinstance(cb, (VStr, VOpaque, VFunc, VClass)):
            raise Unsupported("comparison of opaque values")
        x, y = same_sort(num(ca), num(cb))
        return CMP[op](x, y)

    def identical(self, a, b):
        if isinstance(a, VNone) or isinstance(b, VNone):
            if isinstance(a, VNone) and isinstance(b, VNone):
                return z3.BoolVal(True)
            for x in (a, b):
                if isinstance(x, VMaybe):
                    return x.isnone
            if isinstance(a, VOpaque) or isinstance(b, VOpaque):
                raise Unsupported("identity of opaque")
            return z3.BoolVal(False)
        if isinstance(a, VMaybe) and isinstance(b, VMaybe):
            return a.ident == b.ident
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return z3.BoolVal(True)
            ia, ib = self.V.identity.get(a.id), self.V.identity.get(b.id)
            return z3.BoolVal(False)
        if is_z(a) and is_z(b) and a.sort() == B and b.sort() == B:
            return a == b
        if is_z(a) != is_z(b):
            return z3.BoolVal(False)
        raise Unsupported("identity")

    # -------------------------------------------------- subscripts
    def index(self, sl):
        """-> list of ('i', term) | ('s', lo, hi) | ('a', Arr)"""
        parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        out = []
        for q in parts:
            if isinstance(q, ast.Slice):
                st = None
                if q.step is not None:
                    st = self.ev(q.step)
                    ss = z3.simplify(num(st))
                    if z3.is_int_value(ss) and ss.as_long() == -1 and q.lower is None and q.upper is None:
                        out.append(("r",))
                        continue
                    if not (z3.is_int_value(ss) and ss.as_long() == 1):
                        raise Unsupported("slice step")
                lo = self.ev(q.lower) if q.lower is not None else None
                hi = self.ev(q.upper) if q.upper is not None else None
                lo = None if isinstance(lo, VNone) else lo
                hi = None if isinstance(hi, VNone) else hi
                out.append(("s", lo, hi))
            else:
                v = self.ev(q)
                c = self.snap(v)
                if isinstance(c, PyList):
                    c = self.models.as_array(self, c)
                if isinstance(c, VRange):
                    c = self.models.range_array(self, c)
                if isinstance(c, Arr) and c.nd == 0:
                    c = c.elt()
                if isinstance(c, Arr):
                    out.append(("a", c))
                elif is_z(c) and c.sort() == I:
                    out.append(("i", c))
                elif is_z(c) and c.sort() == RE:
                    raise Unsupported("real index")
                else:
                    raise Unsupported("index %s" % type(c).__name__)
        return out

    def norm_index(self, i, n, what="index in bounds"):
        s = z3.simplify(i)
        if z3.is_int_value(s) and s.as_long() < 0:
            self.oblige(what, n + s >= 0)
            return z3.simplify(n + s)
        if self.quick(i >= 0):
            self.oblige(what, i < n)
            return i
        if self.quick(i < 0):
            self.oblige(what, n + i >= 0)
            return n + i
        self.oblige(what, z3.And(-n <= i, i < n))
        return z3.If(i < 0, n + i, i)

    def norm_slice(self, lo, hi, n):
        def clamp(x, default):
            if x is None:
                return default
            x = zint(num(x))
            s = z3.simplify(x)
            if z3.is_int_value(s) and s.as_long() < 0:
                if self.quick(n + s >= 0):
                    return z3.simplify(n + s)
                return z3.If(n + s < 0, z3.IntVal(0), n + s)
            if s.eq(z3.simplify(n)):
                return n
            if not self.quick(x >= 0):
                if self.quick(x < 0):
                    x = n + x
                else:
                    x = z3.If(x < 0, z3.If(n + x < 0, 0, n + x), x)
            if self.quick(x <= n):
                return x
            return z3.If(x <= n, x, n)
        lo = clamp(lo, z3.IntVal(0))
        hi = clamp(hi, n)
        ln = z3.simplify(hi - lo)
        if not self.quick(hi >= lo):
            ln = z3.If(hi >= lo, hi - lo, z3.IntVal(0))
        return lo, ln

    def subscript(self, base, idx):
        c = self.snap(base)
        if isinstance(c, VTuple):
            k = z3.simplify(idx[0][1])
            if idx[0][0] == "i" and z3.is_int_value(k):
                return c.items[k.as_long()]
            raise Unsupported("tuple index")
        if isinstance(c, PyList):
            if idx[0][0] == "i":
                k = z3.simplify(idx[0][1])
                if z3.is_int_value(k):
                    kk = k.as_long()
                    if -len(c.items) <= kk < len(c.items):
                        return c.items[kk]
                    self.oblige("index in bounds", False)
                    raise PathEnd()
                c = self.models.as_array(self, c)
            elif idx[0][0] == "s":
                lo, hi = idx[0][1], idx[0][2]
                val = lambda x: None if x is None else z3.simplify(num(x))
                lo, hi = val(lo), val(hi)
                if (lo is None or z3.is_int_value(lo)) and (hi is None or z3.is_int_value(hi)):
                    return self.new(PyList(c.items[slice(None if lo is None else lo.as_long(),
                                                         None if hi is None else hi.as_long())]))
                c = self.models.as_array(self, c)
            else:
                raise Unsupported("list index")
        if isinstance(c, SeqOf):
            if idx[0][0] == "i":
                i = self.norm_index(idx[0][1], c.n)
                if len(idx) > 1:
                    raise Unsupported("list index")
                if isinstance(c, ObjSeq):
                    for k, ref in reversed(c.over):
                        if z3.simplify(k - i).eq(z3.IntVal(0)) or self.quick(k == i):
                            return ref
                        if not self.quick(k != i):
                            break
                    raise Unsupported("object of a list")
                if hasattr(c, "head"):
                    if self.is_head(i):
                        return c.head
                if isinstance(base, Ref):
                    return self.entry(base, c, i)
                return self.wrap(c.get(i))
            if idx[0][0] == "s" and not isinstance(c, ObjSeq):
                lo, ln = self.norm_slice(idx[0][1], idx[0][2], c.n)
                if hasattr(c, "head") and not self.quick(lo >= 1):
                    raise Unsupported("slice with the first entry")
                r = SeqOf(ln, lambda i: c.get(lo + i), tag=c.tag)
                r.shared, r.conv = True, getattr(c, "conv", None)
                return self.new(r)
            raise Unsupported("list index")
        if isinstance(c, Arr):
            if c.islist and (len(idx) > 1 or idx[0][0] == "a"):
                raise Unsupported("list index")
            return self.arr_get(base, c, idx)
        raise Unsupported("subscript of %s" % type(c).__name__)

    def is_head(self, i):
        """lists whose entry 0 is of another kind than the rest"""
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return i.as_long() == 0
        if not self.quick(i >= 1):
            self.oblige("index of a matrix", i >= 1)
        return False

    def entry(self, base, c, i):
        """Entry i of a list of structured values, as a reference that writes
        back to the list."""
        v = c.get(i)
        if isinstance(v, (Arr, SeqOf, Obj)):
            if isinstance(v, Arr):
                v = copy_arr(v)
                v.back = (base, i)
                v.bor = True
                v.slot = self.slots.get(base.id, 0)
            elif isinstance(v, SeqOf):
                v = self.models.copy_seq(v)
                v.back = (base, i)
                v.slot = self.slots.get(base.id, 0)
            r = self.new(v)
            return r
        return v

    def arr_get(self, base, c, idx):
        idx = list(idx)
        if getattr(c, "lst", None) is not None and (len(idx) > 1 or idx[0][0] == "a"):
            self.oblige("indexed as an array, not a list", z3.Not(c.lst))
        if len(idx) > c.nd:
            raise Unsupported("too many indices")
        while len(idx) < c.nd:
            idx.append(("s", None, None))
        adv = [k for k, q in enumerate(idx) if q[0] == "a"]
        if len(adv) == 1 and idx[adv[0]][1].nd == 1 or not adv:
            maps, shape = [], []
            islist = c.islist
            for k, q in enumerate(idx):
                n = c.shape[k]
                if q[0] == "i":
                    i = self.norm_index(q[1], n)
                    maps.append(("i", i))
                elif q[0] == "s":
                    lo, ln = self.norm_slice(q[1], q[2], n)
                    maps.append(("s", lo))
                    shape.append(ln)
                elif q[0] == "r":
                    maps.append(("r", n))
                    shape.append(n)
                else:
                    m = q[1]
                    sel = self.models.selector(self, m, n)
                    maps.append(("a", sel[1]))
                    shape.append(sel[0])

            def elt(*j):
                args, t = [], 0
                for m in maps:
                    if m[0] == "i":
                        args.append(m[1])
                    else:
                        if m[0] == "s":
                            lo = m[1]
                            args.append(j[t] if z3.is_int_value(lo) and lo.as_long() == 0 else lo + j[t])
                        elif m[0] == "r":
                            args.append(m[1] - 1 - j[t])
                        else:
                            args.append(m[1](j[t]))
                        t += 1
                return c.elt(*args)
            if not shape:
                return elt()
            # z terms of rows and columns
            z = zt = lin = None
            zero = lambda m: m[0] == "s" and z3.is_int_value(m[1]) and m[1].as_long() == 0
            if c.nd == 1 and zero(maps[0]):
                z = c.z
                lin = lin_of(c)
            elif c.nd == 2:
                m0, m1 = maps
                if m0[0] == "i" and zero(m1) and c.z is not None:
                    z = c.z[m0[1]]
                elif m1[0] == "i" and zero(m0) and c.zt is not None:
                    z = c.zt[m1[1]]
                elif zero(m0) and zero(m1):
                    z, zt = c.z, c.zt
            elif c.nd == 3:
                if maps[0][0] == "i" and zero(maps[1]) and zero(maps[2]) and c.z is not None:
                    z = c.z[maps[0][1]]
            r = Arr(shape, elt, c.sort, z=z, zt=zt, lin=lin, islist=islist and c.nd == 1)
            if not adv and not c.islist and isinstance(base, Ref):
                b = self.heap[base.id]
                r.src = b.src if getattr(b, "src", None) else (base.id, self.ver[base.id])
                r.viewof = (base, idx)
                r.bor = getattr(b, "bor", False)
            elif not adv and c.islist and c.nd > 1 and isinstance(base, Ref):
                r.src = (base.id, self.ver[base.id])
            return self.new(r)
        if len(adv) == 2 and c.nd == 2:
            a, b = idx[0][1], idx[1][1]
            if a.nd == b.nd == 1 and a.sort == I and b.sort == I:
                self.oblige("shapes match", a.shape[0] == b.shape[0])
                na, nb = c.shape
                sa = self.models.selector(self, a, na)
                sb = self.models.selector(self, b, nb)
                return self.new(Arr([a.shape[0]], lambda i: c.elt(sa[1](i), sb[1](i)), c.sort))
        raise Unsupported("advanced indexing")

    def setitem(self, node, base, idx, v):
        if not isinstance(base, Ref):
            raise Unsupported("item assignment to a value")
        c = self.heap[base.id]
        cv = self.snap(v)
        # assignment through a row view: A[i][j] = v
        if isinstance(c, Arr) and c.src is not None:
            vo = getattr(c, "viewof", None)
            if vo is None:
                raise Unsupported("write through a view")
            if c.src[1] != self.ver.get(c.src[0]):
                raise Unsupported("write through a stale view")
            b0, i0 = vo
            bc = self.heap[b0.id]
            full = compose_index(self, bc, i0, idx)
            self.setitem(None, b0, full, v)
            # the view itself now shows the new contents
            c2 = self.heap[b0.id]
            nc = self.heap[self.arr_get(b0, c2, i0).id]
            self.heap[base.id] = nc
            return
        back = getattr(c, "back", None)
        if back is not None:
            self.check_slot(c)
            new = self.updated(c, idx, v, cv)
            new.back, new.slot = back, getattr(c, "slot", 0)
            self.heap[base.id] = new
            self.ver[base.id] += 1
            # write back
            b0, i = back
            for k, l in self.frozen.items():
                if l == b0.id:
                    self.dead.add(k)
            plain = copy_arr(new) if isinstance(new, Arr) else self.models.copy_seq(new)
            n0 = self.slots.get(b0.id, 0)
            self.setitem(None, b0, [("i", i)], plain if not isinstance(plain, Ref) else plain)
            self.slots[b0.id] = n0
            return
        if isinstance(c, SeqOf):
            if isinstance(cv, Arr) and getattr(cv, "bor", False) and len(idx) == 1 and idx[0][0] == "i":
                # a view of the entry itself: the array it is a view of leaves the list
                vo = getattr(cv, "viewof", None)
                bk = getattr(self.heap[vo[0].id], "back", None) if vo else None
                if bk and bk[0].id == base.id and z3.simplify(bk[1] - num(idx[0][1])).eq(z3.IntVal(0)):
                    cv = copy_arr(cv)
                    cv.bor = False
            self.slots[base.id] = self.slots.get(base.id, 0) + 1
        new = self.updated(c, idx, v, cv)
        self.write(base, new)
        if isinstance(new, SeqOf) or (isinstance(new, Arr) and new.islist):
            self.freeze(v, base)

    def check_slot(self, c):
        """An entry taken from a list may be written only while it is still that entry."""
        if self.slots.get(c.back[0].id, 0) != getattr(c, "slot", 0):
            raise Unsupported("write to an entry after entries of the list were replaced")

    def updated(self, c, idx, v, cv):
        if isinstance(c, PyList):
            k = z3.simplify(idx[0][1]) if idx[0][0] == "i" else None
            if k is not None and z3.is_int_value(k):
                items = list(c.items)
                kk = k.as_long()
                if not -len(items) <= kk < len(items):
                    self.oblige("index in bounds", False)
                    raise PathEnd()
                items[kk] = v
                return PyList(items)
            c = self.models.as_array(self, c, islist=True)
        if isinstance(c, ObjSeq):
            raise Unsupported("item assignment to a list of objects")
        if isinstance(c, SeqOf):
            if len(idx) != 1 or idx[0][0] != "i":
                raise Unsupported("list slice assignment")
            i = self.norm_index(idx[0][1], c.n)
            if hasattr(c, "head") and self.is_head(i):
                r = SeqOf(c.n, c.get, c.tag)
                r.shared, r.conv, r.head = getattr(c, "shared", False), getattr(c, "conv", None), v
                r.conv_at, r.wrapget = getattr(c, "conv_at", None), getattr(c, "wrapget", None)
                return r
            return self.models.seq_like(self, c, c.n, i, cv)
        if isinstance(c, Arr):
            return self.arr_set(c, idx, cv)
        raise Unsupported("item assignment to %s" % type(c).__name__)

    def arr_set(self, c, idx, v):
        idx = list(idx)
        while len(idx) < c.nd:
            idx.append(("s", None, None))
        if isinstance(v, PyList):
            v = self.models.as_array(self, v)
        if not isinstance(v, Arr):
            vv = num(v)
            if vv.sort() == B and c.sort == I:
                vv = zint(vv)
            if vv.sort() == I and c.sort == RE:
                vv = z3.ToReal(vv)
            if vv.sort() != c.sort:
                if vv.sort() == RE and c.sort == I:
                    raise Unsupported("real stored in an integer array")
                raise Unsupported("sorts in assignment")
            v = Arr([], lambda: vv, vv.sort())
        elif v.sort != c.sort:
            if v.sort == I and c.sort == RE:
                v0 = v
                v = Arr(v.shape, lambda *i: z3.ToReal(v0.elt(*i)), RE)
            elif v.sort == B and c.sort == I:
                v0 = v
                v = Arr(v.shape, lambda *i: zint(v0.elt(*i)), I)
            else:
                raise Unsupported("sorts in assignment")
        conds, shape = [], []
        for k, q in enumerate(idx):
            n = c.shape[k]
            if q[0] == "i":
                i = self.norm_index(q[1], n)
                conds.append(("i", i))
            elif q[0] == "s":
                lo, ln = self.norm_slice(q[1], q[2], n)
                whole = z3.is_int_value(lo) and lo.as_long() == 0 and z3.simplify(ln).eq(z3.simplify(n))
                conds.append(("s", lo, ln, whole))
                shape.append(ln)
            elif q[0] == "a":
                cnt, sel, inv, isin = self.models.selector_inv(self, q[1], n)
                conds.append(("a", inv, isin))
                shape.append(cnt)
            else:
                raise Unsupported("slice assignment")
        if v.nd > len(shape):
            raise Unsupported("assignment broadcast")
        if v.nd:
            dummy = Arr(shape, None, v.sort)
            if v.nd == len(shape):
                for a, b in zip(v.shape, shape):
                    one = z3.simplify(a)
                    if z3.is_int_value(one) and one.as_long() == 1:
                        raise Unsupported("assignment broadcast")
                    if not a.eq(b):
                        self.oblige("shapes match in assignment", a == b)
            else:
                off = len(shape) - v.nd
                for a, b in zip(v.shape, shape[off:]):
                    if not a.eq(b):
                        self.oblige("shapes match in assignment", a == b)

        def elt(*j):
            cs, rest = [], []
            for q, x in zip(conds, j):
                if q[0] == "i":
                    cs.append(x == q[1])
                elif q[0] == "s":
                    if not q[3]:
                        cs.append(z3.And(q[1] <= x, x < q[1] + q[2]))
                    rest.append(x if (z3.is_int_value(q[1]) and q[1].as_long() == 0) else x - q[1])
                else:
                    cs.append(q[2](x))
                    rest.append(q[1](x))
            val = v.elt(*(rest[len(rest) - v.nd:] if v.nd else []))
            return z3.If(z3.And(*cs), val, c.elt(*j)) if cs else val
        z = zt = None
        kinds = "".join("i" if q[0] == "i" else ("w" if q[0] == "s" and q[3] else "x") for q in conds)
        if c.z is not None:
            if kinds == "i" and c.nd == 1:
                z = z3.Store(c.z, conds[0][1], v.elt())
            elif kinds == "ii":
                z = z3.Store(c.z, conds[0][1], z3.Store(c.z[conds[0][1]], conds[1][1], v.elt()))
            elif kinds == "iw" and v.nd == 1:
                vz = self.mat(v).z
                z = z3.Store(c.z, conds[0][1], vz)
            elif kinds == "ix" and v.nd <= 1:
                row = Arr([c.shape[1]], lambda k: elt(conds[0][1], k), c.sort)
                z = z3.Store(c.z, conds[0][1], self.mat(row).z)
        if c.zt is not None:
            if kinds == "wi" and v.nd == 1:
                zt = z3.Store(c.zt, conds[1][1], self.mat(v).z)
            elif kinds == "xi" and v.nd <= 1:
                row = Arr([c.shape[0]], lambda k: elt(k, conds[1][1]), c.sort)
                zt = z3.Store(c.zt, conds[1][1], self.mat(row).z)
            elif kinds == "ii":
                zt = z3.Store(c.zt, conds[1][1], z3.Store(c.zt[conds[1][1]], conds[0][1], v.elt()))
        if z is not None:
            out = arr_of(z, c.shape, c.sort, islist=c.islist)
            return out
        if zt is not None and c.nd == 2:
            return Arr(c.shape, lambda i, j: zt[j][i], c.sort, zt=zt)
        return Arr(c.shape, elt, c.sort, islist=c.islist)

    # -------------------------------------------------- materialisation
    def mat(self, a, col=False):
        """Give the array a z3 array term."""
        if isinstance(a, Ref):
            a = self.snap(a)
        if (a.zt if col else a.z) is not None:
            return a
        key = (id(a), col)
        if key in self.cache:
            return self.cache[key][1]
        Z = fresh("m", nested(a.nd, a.sort))
        idx = [z3.Int(fresh_name("i")) for _ in range(a.nd)]
        sel = Z
        for i in (reversed(idx) if col else idx):
            sel = sel[i]
        body = a.elt(*idx)
        saved, self.guards = self.guards, []
        self.pc.append(L.forall(idx, sel == body, [sel]))
        lin = lin_of(a)
        if lin and a.nd == 1 and a.sort == I and self.p is not None:
            # both the entries and the dot products as the same combination of rows
            v = z3.Const(fresh_name("v"), AI)
            n = z3.Int(fresh_name("n"))
            self.pc.append(L.forall(idx, L.cl(sel) == L.lincomb([(k, L.cl(zz[idx[0]])) for k, zz in lin]),
                                    [L.cl(sel)]))
            self.pc.append(L.forall([v, n], L.fdot(v, Z, n) == L.lincomb([(k, L.fdot(v, zz, n)) for k, zz in lin]),
                                    [L.fdot(v, Z, n)]))
        elif a.sort == I and self.p is not None:
            cb = L.CL(body, self.p)
            if not cb.eq(L.cl(body)):
                self.pc.append(L.forall(idx, L.cl(sel) == cb, [L.cl(sel)]))
        self.guards = saved
        if a.nd == 1:
            out = arr_of(Z, a.shape, a.sort, islist=a.islist)
        elif not col:
            out = arr_of(Z, a.shape, a.sort, islist=a.islist)
            out.zt = a.zt
        else:
            out = Arr(a.shape, lambda i, j: Z[j][i], a.sort, z=a.z, zt=Z)
        self.cache[key] = (a, out)
        return out

    # -------------------------------------------------- attributes
    def getattr(self, base, name):
        if isinstance(base, VFunc) and base.kind in ("ext",):
            if base.name + "." + name == "numpy.pi":
                pi = z3.Real("pi")
                self.pc.append(z3.And(pi > z3.RealVal("3.14"), pi < z3.RealVal("3.15")))
                return pi
            return VFunc("ext", base.name + "." + name)
        if isinstance(base, VFunc) and base.kind == "mod":
            return self.V.repo.resolve(base.name, name)
        if isinstance(base, VClass):
            try:
                node, mod = self.V.repo.find(base.mod + ":" + base.name + "." + name)
                return VFunc("repo", base.mod + ":" + base.name + "." + name, node=node, mod=mod)
            except Unsupported:
                pass
        c = self.snap(base)
        if isinstance(base, VMaybe):
            self.oblige("attribute of None", z3.Not(base.isnone))
            return self.getattr(base.value, name)
        if isinstance(base, Ref) and isinstance(self.heap[base.id], Obj):
            o = self.heap[base.id]
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, (Arr, SeqOf)):
                    raise Unsupported("raw field")
                return v
            cls = o.cls
            try:
                node, mod = self.V.repo.find(cls.mod + ":" + cls.name + "." + name)
                return VFunc("method", cls.mod + ":" + cls.name + "." + name, bound=base, node=node, mod=mod)
            except Unsupported:
                raise Unsupported("attribute %s" % name)
        if isinstance(c, (Arr, PyList, SeqOf)):
            if name == "T":
                return self.models.transpose(self, base)
            if name == "shape" and isinstance(c, Arr):
                return VTuple(list(c.shape))
            if name == "size" and isinstance(c, Arr) and not c.islist:
                r = z3.IntVal(1)
                for s in c.shape:
                    r = r * s
                return z3.simplify(r)
            if name == "ndim" and isinstance(c, Arr):
                return z3.IntVal(c.nd)
            return VFunc("amethod", name, bound=base)
        if isinstance(base, VStr):
            return VFunc("opaque", name)
        if isinstance(c, VOpaque) and isinstance(base, Ref):
            return VFunc("amethod", name, bound=base)
        raise Unsupported("attribute %s of %s" % (name, type(c).__name__))

    def setattr(self, base, name, v):
        if isinstance(base, Ref) and isinstance(self.heap[base.id], Obj):
            o = self.heap[base.id]
            f = dict(o.fields)
            f[name] = v if not isinstance(v, (Arr, SeqOf, PyList)) else self.new(v)
            self.heap[base.id] = Obj(o.cls, f)
            self.ver[base.id] += 1
            return
        raise Unsupported("attribute assignment")

    # -------------------------------------------------- calls
    def call(self, f, args, kw, node=None):
        if isinstance(f, VFunc):
            if f.kind == "repo":
                return self.call_repo(f, args, kw)
            if f.kind == "method":
                return self.call_repo(f, [f.bound] + args, kw)
            if f.kind == "ext":
                return self.models.ext(self, f.name, args, kw)
            if f.kind == "builtin":
                return self.models.builtin(self, f.name, args, kw)
            if f.kind == "amethod":
                return self.models.method(self, f.name, f.bound, args, kw)
            if f.kind == "opaque":
                return VOpaque("text")
            if f.kind == "lambda":
                env = dict(f.bound.env)
                for a, v in zip(f.node.args.args, args):
                    env[a.arg] = v
                self.frames.append(Frame(f.bound.mod, env, f.bound.fname, f.bound.node))
                try:
                    return self.ev(f.node.body)
                finally:
                    self.frames.pop()
        if isinstance(f, VClass):
            return self.construct(f, args, kw)
        raise Unsupported("call of %s" % type(f).__name__)

    def construct(self, cls, args, kw):
        fields = {}
        node = self.V.repo.mod(cls.mod).names[cls.name][1]
        for n in node.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                fields[n.targets[0].id] = self.ev(n.value)
        key = cls.mod + ":" + cls.name + ".__init__"
        ref = self.new(Obj(cls, fields))
        init, mod = self.V.repo.find(key)
        self.call_repo(VFunc("repo", key, node=init, mod=mod), [ref] + args, kw)
        return ref

    def bind(self, node, mod, args, kw):
        a = node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.kwarg:
            raise Unsupported("**kwargs")
        for nm, v in zip(names, args):
            env[nm] = v
        if len(args) > len(names):
            if not a.vararg:
                raise Unsupported("too many arguments")
            env[a.vararg.arg] = VTuple(args[len(names):])
        elif a.vararg:
            env[a.vararg.arg] = VTuple([])
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k not in names + kwn or k in env:
                raise Unsupported("keyword %s" % k)
            env[k] = v
        nd = len(a.defaults)
        for nm, d in zip(names[len(names) - nd:], a.defaults):
            if nm not in env:
                self.frames.append(Frame(mod, {}, "default", None))
                env[nm] = self.ev(d)
                self.frames.pop()
        for nm, d in zip(kwn, a.kw_defaults):
            if nm not in env and d is not None:
                env[nm] = self.ev(d)
        for nm in names:
            if nm not in env:
                raise Unsupported("missing argument %s" % nm)
        return env

    def call_repo(self, f, args, kw):
        con = CONTRACTS.get(f.name)
        if con is not None and f.name != self.con.key or (con is not None and f.name == self.con.key):
            if f.name not in self.con.inline:
                return self.call_contract(con, f, args, kw)
        if f.node.decorator_list:
            raise Unsupported("%s is decorated" % f.name)
        if len(self.frames) > 6:
            raise Unsupported("inlining depth")
        if any(fr.fname == f.name for fr in self.frames):
            raise Unsupported("recursion without contract: %s" % f.name)
        env = self.bind(f.node, f.mod, args, kw)
        self.frames.append(Frame(f.mod, env, f.name, f.node))
        self.V.inlined.add(f.name)
        try:
            self.block(f.node.body)
            return NONE
        except Ret as r:
            return r.v
        finally:
            self.frames.pop()

    def call_contract(self, con, f, args, kw):
        self.V.used.add(con.key)
        env = self.bind(f.node, f.mod, args, kw)
        fr = Frame(f.mod, env, f.name, f.node)
        saved_p = self.p
        c = Ctx(self, fr)
        c.env = env
        c.call = True
        if con.setup:
            con.setup(c)
        if con.p:
            pv = num(self.snap(env[con.p]))
            if self.p is None:
                raise Unsupported("modular callee in a function without modulus")
            if not pv.eq(self.p):
                self.oblige("same modulus in call of %s" % con.key, pv == self.p)
        for name, g in (con.requires(c) if con.requires else []):
            self.oblige("call %s requires: %s" % (con.key.split(":")[1], name), g)
        old = Snapshot(self, fr)
        c.old = old
        for exc, cond in con.raises.items():
            if self.choose(fresh("raises", B) if cond is None else cond(c)):
                raise PyRaise(exc)
        # effects
        for nm in con.modifies if con.effect is None else ():
            v = env[nm]
            cells = set()
            self.collect_cells(v, cells)
            for hid in cells:
                self.heap[hid] = self.havoc_content(self.heap[hid], nm)
                self.ver[hid] += 1
        if con.effect is not None:
            con.effect(c)
        res = con.result(c) if con.result else NONE
        if isinstance(res, (Arr, SeqOf, PyList)):
            res = self.new(res)
        c2 = Ctx(self, fr, old=old, result=self.snap_tuple(res))
        c2.env = env
        c2.call = True
        for name, g in (con.ensures(c2) if con.ensures else []):
            self.assume(g)
        self.calls.append((con, env, c2.result, old))
        return res

    def snap_tuple(self, res):
        if isinstance(res, VTuple):
            return VTuple([self.snap(x) for x in res.items])
        return self.snap(res)

    # -------------------------------------------------- lists
    def concat(self, a, b):
        n = a.shape[0]
        if a.sort != b.sort:
            raise Unsupported("list sorts")
        return Arr([a.shape[0] + b.shape[0]] + a.shape[1:],
                   lambda i, *r: z3.If(i < n, a.elt(i, *r), b.elt(i - n, *r)), a.sort, islist=True)


class Snapshot(object):
    """Values of a frame at a point, for old(.)"""

    def __init__(self, run, fr):
        self.vals = {}
        self.run = run
        for k, v in fr.env.items():
            try:
                self.vals[k] = run.snap(v)
                if isinstance(v, Ref) and isinstance(run.heap[v.id], Obj):
                    o = run.heap[v.id]
                    self.vals[k] = Obj(o.cls, {n: run.snap(x) for n, x in o.fields.items()})
                if isinstance(v, VTuple):
                    self.vals[k] = run.snap_tuple(v)
            except Unsupported:
                pass
        self.heap = dict(run.heap)
        self.ver = dict(run.ver)

    def __getitem__(self, name):
        name = self.run.rename.get(name, name)
        if name not in self.vals:
            raise MissingName(name)
        return self.vals[name]


class VEnum(object):
    def __init__(self, base, start):
        self.base, self.start = base, start


class VZip(object):
    def __init__(self, parts):
        self.parts = parts


class VMaybe(object):
    """None or a value."""

    def __init__(self, isnone, value, ident=None):
        self.isnone, self.value, self.ident = isnone, value, ident


CMP = {"Eq": lambda x, y: x == y, "NotEq": lambda x, y: x != y, "Lt": lambda x, y: x < y,
       "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y}

pow2 = z3.Function("pow2", I, I)


def L_pow2(n):
    return pow2(n)


def num(v):
    if is_z(v):
        return v
    if isinstance(v, (bool, int, float)):
        return zscalar(v)
    if isinstance(v, Arr) and v.nd == 0:
        return v.elt()
    raise Unsupported("not a number: %s" % type(v).__name__)


def zero_of(sort):
    if sort == I:
        return z3.Int("zero!")
    if sort == RE:
        return z3.Real("zero!r")
    return z3.Bool("zero!b")


def lin_of(a):
    if not isinstance(a, Arr) or a.nd != 1 or a.sort != I:
        return None
    if a.lin:
        return a.lin
    if a.z is not None:
        return [(L.f1, a.z)]
    return None


def row_of(c, i):
    z = c.z[i] if c.z is not None else None
    r = Arr(c.shape[1:], lambda *j: c.elt(i, *j), c.sort, z=z)
    return r


def copy_arr(c):
    r = Arr(c.shape, c._elt, c.sort, z=c.z, zt=c.zt, lin=c.lin, islist=c.islist, tag=c.tag)
    if getattr(c, "eml", False):
        r.eml = True
    if getattr(c, "exact", None) is not None:
        r.exact = c.exact
    if getattr(c, "lst", None) is not None:
        r.lst = c.lst
    return r


def lst_of(a):
    """is this sequence of rows a list (and not an array)?"""
    return a.lst if getattr(a, "lst", None) is not None else z3.BoolVal(bool(a.islist))


def ite_val(cond, a, b):
    cs = z3.simplify(cond)
    if z3.is_true(cs):
        return a
    if z3.is_false(cs):
        return b
    if isinstance(a, VOpaque) or isinstance(b, VOpaque):
        return VOpaque("ite")
    if is_z(a) and is_z(b):
        a, b = same_sort(a, b)
        return z3.If(cond, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.nd == b.nd and a.sort == b.sort:
        r = Arr([z3.If(cond, x, y) if not x.eq(y) else x for x, y in zip(a.shape, b.shape)],
                lambda *i: z3.If(cond, a.elt(*i), b.elt(*i)), a.sort,
                z=z3.If(cond, a.z, b.z) if a.z is not None and b.z is not None else None,
                zt=z3.If(cond, a.zt, b.zt) if a.zt is not None and b.zt is not None else None,
                islist=a.islist and b.islist)
        if getattr(a, "eml", False) or getattr(b, "eml", False):
            r.eml = True
        if getattr(a, "lst", None) is not None or getattr(b, "lst", None) is not None:
            r.lst = z3.If(cond, lst_of(a), lst_of(b))
        return r
    if isinstance(a, SeqOf) and isinstance(b, SeqOf):
        r = SeqOf(z3.If(cond, a.n, b.n), lambda i: ite_val(cond, a.get(i), b.get(i)))
        if getattr(a, "conv", None) is not None and getattr(a, "conv", None) is getattr(b, "conv", None) \
                and not hasattr(a, "head") and not hasattr(b, "head"):
            r.conv, r.shared = a.conv, getattr(a, "shared", False) or getattr(b, "shared", False)
        return r
    if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
        return VTuple([ite_val(cond, x, y) for x, y in zip(a.items, b.items)])
    return VOpaque("ite")


def compose_index(run, c, outer, inner):
    """Index of base for view[inner] where view = base[outer]."""
    out = list(outer)
    while len(out) < c.nd:
        out.append(("s", None, None))
    k = 0
    inner = list(inner)
    res = []
    for d, q in enumerate(out):
        if q[0] == "i":
            res.append(q)
        elif q[0] == "s":
            if k < len(inner):
                w = inner[k]
                k += 1
                lo, ln = run.norm_slice(q[1], q[2], c.shape[d])
                if z3.is_int_value(lo) and lo.as_long() == 0 and z3.simplify(ln).eq(z3.simplify(c.shape[d])):
                    res.append(w)
                elif w[0] == "i":
                    i = run.norm_index(w[1], ln)
                    res.append(("i", lo + i))
                elif w[0] == "s":
                    l2, n2 = run.norm_slice(w[1], w[2], ln)
                    res.append(("s", z3.simplify(lo + l2), z3.simplify(lo + l2 + n2)))
                else:
                    raise Unsupported("nested view assignment")
            else:
                res.append(q)
        else:
            raise Unsupported("assignment through fancy index")
    return res
