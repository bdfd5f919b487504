"""Enumerates the paths of a function under contract and collects obligations."""
import ast
import z3
from . import logic as L
from . import vals
from .vals import *
from .engine import (Repo, Run, Frame, Ctx, Snapshot, CONTRACTS, PyRaise, Ret, Brk, Cont, PathEnd,
                     Oblig, num, UNDEF)
from .models import Models
from . import align

MUTATORS = {"append", "sort", "extend", "insert", "pop", "remove", "reverse", "clear", "fill", "add_entry",
            "minus", "update"}


class Restart(Exception):
    pass


class Verifier(object):
    def __init__(self, repo, key, rename=None, baseline=None):
        self.repo, self.key, self.baseline = repo, key, baseline
        self._table, self.structure, self.adhoc = None, [], set()
        self.con = CONTRACTS[key]
        self.obs, self.trivial = [], 0
        self.rename = rename or {}
        self.models = Models()
        self.inlined, self.used = set(), set()
        self.assumptions = set()
        self.identity = {}
        self.lemmas = set()
        self.vacuity = []
        self.paths = 0
        self.notes = []
        self.wide = set()       # loops whose aliasing is taken conservatively

    # loops of the contract are numbered in source order of the baseline text
    def loop_lookup(self, run, fr, s):
        """-> (loop contract or None, ordinal, baseline loop node or None)"""
        if self.con.key == fr.fname or self.is_new(fr.fname):
            table = self.table()
            if id(s) in table:
                k = table[id(s)]
                return (self.con.loops.get(k) if k is not None else None), k, self.base_loops[k] \
                    if k is not None else None
        loops = align.own_loops(fr.node) if fr.node is not None else []
        k = [id(x) for x in loops].index(id(s)) if id(s) in [id(x) for x in loops] else None
        return None, k, None

    def is_new(self, fname):
        return self.baseline is not None and fname not in self.baseline["functions"]

    def table(self):
        if self._table is None:
            base = (self.baseline or {}).get("functions", {}).get(self.key)

            def helper(c):
                try:
                    if isinstance(c.func, ast.Name):
                        v = self.repo.resolve(self.mod, c.func.id)
                    elif isinstance(c.func, ast.Attribute):
                        v = self.method_named(self.mod, c.func.attr)
                    else:
                        return None
                except Unsupported:
                    return None
                if isinstance(v, VFunc) and v.kind == "repo" and self.is_new(v.name) \
                        and v.name not in CONTRACTS:
                    return v.node
                return None
            cur = align.spliced_loops(self.node, helper)
            if base is None:
                self.base_loops = cur
                m = list(range(len(cur)))
            else:
                bn = ast.parse(base).body[0]
                self.base_loops = align.own_loops(bn)
                m = align.align(self.base_loops, cur)
            self._table = {id(x): k for x, k in zip(cur, m)}
            got = set(self._table.values())
            for k in self.con.loops:
                if k not in got:
                    self.structure.append("contract of loop %d of %s has no counterpart" % (k, self.key))
        return self._table

    def adhoc_loop(self, run, fr, s):
        """Loops without contract: the trivial invariant."""
        from .engine import Loop
        self.adhoc.add((fr.fname, ast.unparse(s).split("\n")[0]))
        return Loop(inv=lambda c: [])

    def modified(self, run, fr, s):
        """(names assigned, names whose objects may be mutated) in the loop."""
        names, mut = set(), set()

        def base_name(t):
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                t = t.value
            return t.id if isinstance(t, ast.Name) else None

        def go(n, depth, sub):
            for c in ast.walk(n):
                if isinstance(c, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
                    ts = c.targets if isinstance(c, ast.Assign) else [c.target]
                    for t in ts:
                        for q in (ast.walk(t) if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            if isinstance(q, ast.Name):
                                if depth == 0:
                                    names.add(q.id)
                                if isinstance(c, ast.AugAssign):
                                    mut.add(sub.get(q.id, q.id) if depth else q.id)
                            elif isinstance(q, (ast.Subscript, ast.Attribute)):
                                b = base_name(q)
                                if b:
                                    if depth == 0:
                                        mut.add(b)
                                    elif b in sub and sub[b]:
                                        mut.add(sub[b])
                elif isinstance(c, ast.Call):
                    f = c.func
                    if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                        b = base_name(f.value)
                        if b:
                            if depth == 0:
                                mut.add(b)
                            elif b in sub and sub[b]:
                                mut.add(sub[b])
                    callee = None
                    off = 0
                    try:
                        if isinstance(f, ast.Name):
                            v = self.repo.resolve(fr.mod, f.id)
                            if isinstance(v, VFunc) and v.kind == "repo":
                                callee = v
                        elif isinstance(f, ast.Attribute):
                            # method of a repo class: any method of that name
                            callee = self.method_named(fr.mod, f.attr)
                            off = 1
                    except Unsupported:
                        callee = None
                    if callee is not None and depth < 3:
                        ps = [a.arg for a in callee.node.args.args]
                        m2 = {}
                        actual = list(c.args)
                        if off:
                            actual = [f.value] + actual
                        for pn, a in zip(ps, actual):
                            b = base_name(a)
                            m2[pn] = (sub.get(b, b) if depth else b) if b else None
                        for k2 in c.keywords:
                            b = base_name(k2.value)
                            m2[k2.arg] = (sub.get(b, b) if depth else b) if b else None
                        con = CONTRACTS.get(callee.name)
                        if con is not None:
                            for pn in con.modifies:
                                if m2.get(pn):
                                    mut.add(m2[pn])
                        else:
                            for st in callee.node.body:
                                go(st, depth + 1, m2)
                elif isinstance(c, (ast.ListComp, ast.GeneratorExp)):
                    pass
        body = list(s.body)
        if isinstance(s, ast.For):
            for q in ast.walk(s.target):
                if isinstance(q, ast.Name):
                    names.add(q.id)
        for st in body:
            go(st, 0, {})
        # aliases: row/column variables bound to views of arrays are read only (writes through
        # views are resolved to their base by the engine), so add bases of local names
        changed = True
        while changed:
            changed = False
            for c in ast.walk(s):
                if isinstance(c, ast.Assign) and len(c.targets) == 1 and isinstance(c.targets[0], ast.Name):
                    if c.targets[0].id in mut and isinstance(c.value, (ast.Subscript, ast.Name, ast.Attribute)):
                        b = base_name(c.value)
                        if b and b not in mut:
                            mut.add(b)
                            changed = True
                if isinstance(c, ast.For) and id(s) in self.wide:
                    tn = {q.id for q in ast.walk(c.target) if isinstance(q, ast.Name)}
                    if tn & mut:
                        for q in ast.walk(c.iter):
                            if isinstance(q, ast.Name) and q.id not in mut and q.id in fr.env:
                                mut.add(q.id)
                                changed = True
        return names, mut

    def method_named(self, mod, attr):
        m = self.repo.mod(mod)
        cands = []
        for nm in list(m.names):
            try:
                v = self.repo.resolve(mod, nm)
            except Unsupported:
                continue
            if isinstance(v, VClass):
                try:
                    node, mm = self.repo.find(v.mod + ":" + v.name + "." + attr)
                    cands.append(VFunc("repo", v.mod + ":" + v.name + "." + attr, node=node, mod=mm))
                except Unsupported:
                    pass
        return cands[0] if len(cands) == 1 else None

    # ---------------------------------------------------------------- run
    def run(self, maxpaths=400):
        node, mod = self.repo.find(self.key)
        self.node, self.mod = node, mod
        base = (self.baseline or {}).get("functions", {}).get(self.key)
        if base is not None:
            self.rename.update(align.renames(ast.parse(base).body[0], node))
        if self.con.loops:
            self.table()
        while True:
            try:
                work = [[]]
                while work:
                    prefix = work.pop()
                    self.paths += 1
                    if self.paths > maxpaths:
                        raise Unsupported("too many paths")
                    self.one(node, mod, prefix, work)
                return self.obs
            except Restart:
                self.obs, self.trivial, self.paths, self.vacuity = [], 0, 0, []

    def aliased(self, s):
        """The body of loop s changed an object that its havoc did not cover."""
        if id(s) in self.wide:
            raise Unsupported("aliasing in a loop")
        self.wide.add(id(s))
        raise Restart()

    def one(self, node, mod, prefix, work):
        con = self.con
        vals._ctr = __import__("itertools").count()
        run = Run(self, con, prefix, work)
        fr = Frame(mod, {}, self.key, node)
        run.frames.append(fr)
        ctx = Ctx(run, fr)
        given = con.params(ctx)
        names = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        if node.args.vararg:
            names.append(node.args.vararg.arg)
        base_names = list(given.keys())
        # parameters are matched by position, so renaming one is harmless
        if len(names) != len(base_names):
            for n in names:
                if n not in given:
                    k = names.index(n) - (len(names) - len(node.args.defaults))
                    if k < 0:
                        raise Unsupported("parameters of %s changed" % self.key)
        for n, b in zip(names, base_names):
            if n != b:
                run.rename = self.rename
                self.rename[b] = n
            v = given[b]
            fr.env[n] = run.new(v) if isinstance(v, (Arr, SeqOf, PyList, Obj)) else v
        for n in names[len(base_names):]:
            d = node.args.defaults[names.index(n) - len(names)]
            fr.env[n] = run.ev(d)
        if con.p:
            run.p = num(fr.env[self.rename.get(con.p, con.p)])
            run.pc.extend(L.ring_axioms(run.p))
            run.pc.extend(L.fdot_axioms())
            run.pc.extend(L.ipv_axiom())
        elif con.axioms == "ipv":
            run.pc.extend(L.ipv_axiom())
        if con.setup:
            con.setup(ctx)
        for name, g in (con.requires(ctx) if con.requires else []):
            run.pc.append(g)
        if con.axioms and con.axioms != "ipv":
            for g in con.axioms(ctx):
                run.pc.append(g)
        npre = len(run.pc)
        if not prefix:
            self.vacuity.append(("precondition", list(run.pc)))
        run.old = Snapshot(run, fr)
        oldheap = dict(run.heap)
        nold = run.hid
        protected = {}
        for n in names:
            v = fr.env[n]
            b = {x: k for k, x in self.rename.items()}.get(n, n)
            if b in con.modifies or n in con.modifies:
                continue
            cells = set()
            run.collect_cells(v, cells)
            for h in cells:
                protected.setdefault(h, n)
        for b in con.modifies:
            cells = set()
            run.collect_cells(fr.env[self.rename.get(b, b)], cells)
            for h in cells:
                protected.pop(h, None)
        run.argcells = set()
        for v in fr.env.values():
            run.collect_cells(v, run.argcells)
        try:
            try:
                run.block(node.body)
                res = NONE
            except Ret as r:
                res = r.v
        except PathEnd:
            return
        except PyRaise as ex:
            c = Ctx(run, fr, old=run.old, ghosts=getattr(fr, "ghosts", {}))
            if con.raise_hints:
                for h in con.raise_hints(c, ex.exc):
                    run.hint(h)
            cond = con.raises.get(ex.exc)
            if ex.exc not in con.raises:
                run.oblige("no %s" % ex.exc, False)
            elif cond is not None:
                c2 = Ctx(run, fr, old=run.old)
                c2.raising = True
                run.oblige("%s only when specified" % ex.exc, cond(c2))
            return
        c = Ctx(run, fr, old=run.old, result=run.snap_tuple(res), ghosts=getattr(fr, "ghosts", {}))
        c.resref = res
        if con.hints:
            for h in con.hints(c):
                run.hint(h)
        for exc, cond in con.raises.items():
            if cond is None:
                continue
            run.oblige("returns normally only when no %s is due" % exc, z3.Not(cond(c)), assume=False)
        for name, g in (con.ensures(c) if con.ensures else []):
            run.oblige("ensures: %s" % name, g, assume=False)
        for h, n in protected.items():
            if run.heap[h] is not oldheap[h]:
                new, old = run.heap[h], oldheap[h]
                if isinstance(new, Arr) and isinstance(old, Arr) and new.nd == old.nd and new.sort == old.sort:
                    idx = [z3.Int(vals.fresh_name("i")) for _ in range(new.nd)]
                    rng = z3.And(*[L.inrange(i, s) for i, s in zip(idx, old.shape)])
                    run.oblige("frame: argument %s unchanged" % n, z3.And(
                        *([a == b for a, b in zip(new.shape, old.shape)] +
                          [z3.ForAll(idx, z3.Implies(rng, new.elt(*idx) == old.elt(*idx)))])), assume=False)
                else:
                    run.oblige("frame: argument %s unchanged" % n, False, assume=False)
        self.vacuity.append(("path %s reaches its end" % run.pathname(), list(run.pc)))
