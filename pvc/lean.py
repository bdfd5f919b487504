"""Check the lemmas the contracts use with Lean (the files of /verif/lemmas)."""
import os
import re
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# lemma of the contracts -> theorems of /verif/lemmas that state it
WHERE = {
    "Arith.lean": dict(prime_divisor=1, mod_unique=1, neg_unique=1, dot_split=1, dot_neg=1, dot_scatter=1, idot_scatter=1, dot_masked=1),
    "Solve.lean": dict(solve_complete=1),
    "Order.lean": dict(incr_unique=1, enum_unique=1, facet_intersection=1, facet_difference=1, square_mono=1, norm_ext=1,
                       norm_scale=1, row_major=1, row_major_3=1, torus_point=1, pigeonhole=1, pigeonhole_room=1),
    "Grid.lean": dict(number_of_equal=1, number_additive=1, prod_of_equal=1, grid_order=1, grid_at=1, grid_number=1,
                      grid_successor=1, grid_first=1, grid_cover=1),
}
# facts about residues and dot products that pvc/logic.py states as axioms
FIELD = ["cl_zero", "cl_one", "cl_add", "cl_sub", "cl_neg", "cl_mul", "cl_mod", "cl_p", "cl_idot", "cl_inj", "zero_ne_one",
         "eq_iff_mod", "cancel", "fdot_zero_terms", "fdot_congr", "fdot_linear", "fdot_linear_one", "fdot_unit"]
# what turns the postconditions into the statement of the property
COMPOSE = {
    "C05": [("Flag.lean", ["flag_complex", "clique_incr", "diameter_step"])],
    "C06": [("Flag.lean", ["flag_complex", "clique_incr"])],
    "C07": [("Boundary.lean", ["bcoef_eq", "dd_zero"]), ("Flag.lean", ["clique_face"])],
    "C08": [("Flag.lean", ["flag_complex"])],
    "C09": [("Flag.lean", ["flag_complex"])],
    "C11": [("Barcode.lean", ["clearing", "barcode_rank"])],
}
DEFINITIONS = ("definition of ", "solvable_intro")
STANDARD = {"propext", "Classical.choice", "Quot.sound"}


class Job(object):
    """Lean runs in the background while the solvers work."""

    def __init__(self, pid, lemmas, field):
        self.lemmas = [l for l in lemmas if not l.startswith(DEFINITIONS)]
        want = {}
        self.missing = []
        for l in self.lemmas:
            f = [k for k, v in WHERE.items() if l in v]
            if f:
                want.setdefault(f[0], []).append(l)
            else:
                self.missing.append(l)
        if field:
            want.setdefault("Arith.lean", []).extend(FIELD)
        for f, ths in COMPOSE.get(pid, []):
            want.setdefault(f, []).extend(ths)
        self.want = want
        self.procs = []
        for f, ths in want.items():
            try:
                src = open(os.path.join(V, "lemmas", f)).read()
                d = tempfile.mkdtemp(prefix="pvc_lean_")
                path = os.path.join(d, f)
                with open(path, "w") as h:
                    h.write(src + "\n" + "".join("#print axioms PMV.%s\n" % t for t in ths))
                p = subprocess.Popen(["lean", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                self.procs.append((f, ths, d, path, p))
            except OSError as ex:
                self.procs.append((f, ths, None, None, str(ex)))

    def result(self, timeout=150):
        out = dict(checked=[], not_checked=list(self.missing))
        for f, ths, d, path, p in self.procs:
            txt = ""
            if d is not None:
                try:
                    txt = p.communicate(timeout=timeout)[0].decode("utf8", "replace")
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                try:
                    os.unlink(path)
                    os.rmdir(d)
                except OSError:
                    pass
            flat = re.sub(r"\s+", " ", txt)
            for t in ths:
                m = re.search(r"'PMV\.%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % re.escape(t), flat)
                ok = bool(m) and set(x.strip() for x in (m.group(2) or "").split(",") if x.strip()) <= STANDARD
                (out["checked"] if ok and "error" not in flat else out["not_checked"]).append("%s: %s" % (f, t))
        return out
