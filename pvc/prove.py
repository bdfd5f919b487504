"""Generate and discharge the obligations of one property.

usage: python3-vt pvc/prove.py PID [--tier quick|thorough] [--out FILE] [--baseline]
"""
import argparse
import ast
import glob
import importlib
import json
import os
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from pvc import align, lean, solve                                 # noqa: E402
from pvc.vals import Unsupported                                 # noqa: E402
from contracts.props import PROPS                                # noqa: E402

BASE = os.path.join(V, "contracts", "baseline.json")


def load_contracts():
    from contracts.props import MODULES
    for n in MODULES:
        importlib.import_module("contracts." + n)


def all_functions(repo):
    """key -> normalised text of every function and method of the package."""
    out = {}
    root = repo.src
    for path in sorted(glob.glob(os.path.join(root, "**", "*.py"), recursive=True)):
        rel = os.path.relpath(path, root)[:-3].split(os.sep)
        mod = ".".join(["permaviss"] + rel)
        if mod.endswith(".__init__"):
            mod = mod[:-len(".__init__")]
        tree = ast.parse(open(path).read())
        rest = []
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                out[mod + ":" + n.name] = align.norm(n)
            elif isinstance(n, ast.ClassDef):
                for q in n.body:
                    if isinstance(q, ast.FunctionDef):
                        out[mod + ":" + n.name + "." + q.name] = align.norm(q)
                    elif not (isinstance(q, ast.Expr) and isinstance(q.value, ast.Constant)):
                        rest.append(ast.unparse(q))
            elif not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                rest.append(ast.unparse(n))
        out[mod + ":"] = "\n".join(rest)
    return out


def generate(args):
    """In a worker: obligations of one function as SMT-LIB texts."""
    key, baseline = args
    t0 = time.time()
    try:
        load_contracts()
        from pvc.engine import Repo
        from pvc.verifier import Verifier
        v = Verifier(Repo(), key, baseline=baseline)
        d = dict(key=key, error=None)
        try:
            v.run()
        except Unsupported as ex:
            d["error"] = "outside the verifier's reach: %s" % ex
        except RecursionError:
            d["error"] = "outside the verifier's reach: recursion"
        obs, seen = [], {}
        if d["error"] is None:
            for o in v.obs:
                k = seen.get(o.name, 0)
                seen[o.name] = k + 1
                nm = o.name if k == 0 else "%s #%d" % (o.name, k + 1)
                obs.append((nm, solve.smt2(o.hyps, o.goal)))
        vac = [(nm, solve.smt2(h, None)) for nm, h in v.vacuity[:8]]
        d.update(obs=obs, trivial=v.trivial, paths=v.paths, vacuity=vac, inlined=sorted(v.inlined),
                 used=sorted(v.used), lemmas=sorted(v.lemmas), ext=sorted(v.models.usedext),
                 assumptions=sorted(v.assumptions), structure=v.structure, adhoc=sorted(v.adhoc),
                 gen_s=time.time() - t0)
        return d
    except Exception:
        return dict(key=key, error="generator error: " + traceback.format_exc()[-1500:], obs=[], trivial=0,
                    paths=0, vacuity=[], inlined=[], used=[], lemmas=[], ext=[], assumptions=[],
                    structure=[], adhoc=[], gen_s=time.time() - t0)


def prove(pid, tier="quick", mkbase=False, keys=None):
    t0 = time.time()
    load_contracts()
    from pvc.engine import Repo, CONTRACTS
    repo = Repo()
    cur = all_functions(repo)
    baseline = json.load(open(BASE)) if os.path.exists(BASE) else None
    if mkbase:
        baseline = None
    keys = keys or PROPS[pid]
    res = dict(functions=[], obligations=[], errors=[], assumptions=[], trusted=[], by_backend={},
               solver_s=0.0, vacuity={}, lemmas=[], trivially_true=0)
    with ProcessPoolExecutor(min(8, len(keys))) as ex:
        gens = list(ex.map(generate, [(k, baseline) for k in keys]))
    used = sorted({l for g in gens for l in g["lemmas"]})
    lj = lean.Job(pid, used, any("Dot" in t or "(cl " in t for g in gens for _, t in g["obs"])) if not mkbase else None
    deadline = t0 + (400 if tier == "quick" else 2400)
    jobs = []
    for g in gens:
        k = g["key"]
        touched = [k, k.split(":")[0] + ":"] + g["inlined"]
        g["changed"] = baseline is not None and any(
            cur.get(f) != baseline["functions"].get(f) for f in touched)
        newad = [a for a in g["adhoc"] if [k] + list(a) not in (baseline or {}).get("adhoc", [])] \
            if baseline is not None else []
        g["soft"] = list(g["structure"]) + ["loop without invariant: %s" % a[1] for a in newad]
        hints = (baseline or {}).get("obligations", {}).get(k, {})
        for nm, txt in g["obs"]:
            jobs.append((g, nm, txt, hints.get(nm)))
        g["nfail"] = 0
    lock = threading.Lock()

    def run(job):
        g, nm, txt, h = job
        left = deadline - time.time()
        if left < 1:
            return ("skipped", None, 0.0, {})
        stage = 3
        if g["changed"] and g["nfail"] >= 4:
            stage = 1
        elif g["changed"] and g["nfail"] >= 1:
            stage = 2
        r = solve.discharge(txt, hint=h[0] if h and h[0] != "z3-new" else None, maxstage=stage,
                            scale=1.0 if tier == "quick" else 3.0)
        if r[0] != "unsat":
            with lock:
                g["nfail"] += 1
        return r
    jobs.sort(key=lambda j: -(j[3][1] if j[3] else 0.0))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(run, jobs))
        vac = []
        for g in gens:
            for nm, txt in g["vacuity"]:
                vac.append((g, nm, ex.submit(solve.run_text, txt, "z3-new", 3)))
        vac = [(g, nm, f.result()) for g, nm, f in vac]
    times = {}
    for (g, nm, txt, h), r in zip(jobs, outs):
        res["solver_s"] += r[2]
        times.setdefault(g["key"], {})[nm] = [r[1], round(r[2], 2)]
        if r[0] == "unsat":
            st = "proved"
            res["by_backend"][r[1]] = res["by_backend"].get(r[1], 0) + 1
        elif g["changed"] and not g["soft"] and r[0] != "skipped":
            st = "failed"
        else:
            st = "undecided"
        o = dict(name=nm, function=g["key"], status=st, backend=r[1], seconds=round(r[2], 2))
        if st != "proved":
            o["answers"] = r[3]
        res["obligations"].append(o)
    for g in gens:
        k = g["key"]
        res["trivially_true"] += g["trivial"]
        if g["error"]:
            res["errors"].append("%s: %s" % (k, g["error"]))
            res["obligations"].append(dict(name="%s / obligations generated" % k.split(":")[1], function=k,
                                           status="undecided", seconds=0, answers=g["error"][-300:]))
        elif not g["obs"] and not g["trivial"]:
            res["errors"].append("%s: no obligations" % k)
        mine = [o for o in res["obligations"] if o["function"] == k]
        res["functions"].append(dict(function=k, obligations=len(mine), trivially_true=g["trivial"],
                                     discharged=sum(o["status"] == "proved" for o in mine),
                                     paths=g["paths"], changed=g["changed"], inlined=g["inlined"],
                                     callees_by_contract=g["used"], generation_s=round(g["gen_s"], 2),
                                     loops_without_invariant=["%s: %s" % a for a in g["adhoc"]],
                                     not_matched=g["soft"], note=CONTRACTS[k].note))
        res["trusted"] += g["ext"]
        res["assumptions"] += g["assumptions"]
        res["lemmas"] += g["lemmas"]
        if not g["error"]:
            ans = [(nm, r) for gg, nm, r in vac if gg is g]
            pre = [r for nm, r in ans if nm == "precondition"]
            ends = [r for nm, r in ans if nm != "precondition"]
            if "unsat" in pre:
                res["errors"].append("%s: the precondition is contradictory" % k)
            if ends and all(r == "unsat" for r in ends):
                res["errors"].append("%s: no path reaches its end" % k)
            res["vacuity"][k] = "precondition %s; %d of %d path ends not refuted" % (
                "not refuted" if "unsat" not in pre else "CONTRADICTORY",
                sum(r != "unsat" for r in ends), len(ends))
    res["trusted"] = ["assumed contract (pvc/models.py): " + x for x in sorted(set(res["trusted"]))]
    res["assumptions"] = sorted(set(res["assumptions"]))
    res["lemmas"] = sorted(set(res["lemmas"]))
    res["lean"] = lj.result() if lj else {}
    res["solver_s"] = round(res["solver_s"], 2)
    res["wall_s"] = round(time.time() - t0, 2)
    if mkbase:
        return res, times, cur, [[g["key"]] + list(a) for g in gens for a in g["adhoc"]]
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--baseline", action="store_true")
    a = ap.parse_args()
    if a.baseline:
        # (re)write contracts/baseline.json from the current tree
        keys = sorted({k for ks in PROPS.values() for k in ks})
        if a.pid != "ALL":
            keys = [k for k in keys if a.pid in k]
        res, times, cur, adhoc = prove(None, "quick", True, keys)
        old = json.load(open(BASE)) if os.path.exists(BASE) and a.pid != "ALL" else dict(
            functions={}, obligations={}, adhoc=[])
        old["functions"] = cur
        old["obligations"].update(times)
        old["adhoc"] = sorted([x for x in old["adhoc"] if x[0] not in keys] + adhoc)
        json.dump(old, open(BASE, "w"), indent=0, sort_keys=True)
    else:
        res = prove(a.pid, a.tier)
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1)
    n = len(res["obligations"])
    print("%d/%d discharged, %.1f s solver, %.1f s wall" % (
        sum(o["status"] == "proved" for o in res["obligations"]), n, res["solver_s"], res["wall_s"]))
    for o in res["obligations"]:
        if o["status"] != "proved":
            print("  ", o["status"], o["name"], o.get("answers"))
    for e in res["errors"]:
        print("   error:", e)


if __name__ == "__main__":
    main()
