"""dev: python3-vt -m pvc.dev KEYPART [-v]"""
import sys, time, importlib, glob, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pvc.engine import Repo, CONTRACTS
from pvc.verifier import Verifier
from pvc import solve
from concurrent.futures import ThreadPoolExecutor
import z3
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "contracts", "*.py"))):
    n = os.path.basename(f)[:-3]
    if n not in ("__init__", "props", "baseline"):
        importlib.import_module("contracts." + n)
keys = [k for k in CONTRACTS if sys.argv[1] in k]
stage = int(os.environ.get("STAGE", "2"))
for k in keys:
    t0 = time.time()
    v = Verifier(Repo(), k)
    v.run()
    print("==", k, "paths", v.paths, "obligations", len(v.obs), "trivial", v.trivial, "gen %.1fs" % (time.time() - t0))
    texts = [solve.smt2(o.hyps, o.goal) for o in v.obs]
    os.makedirs("/tmp/pvc", exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: solve.discharge(t, maxstage=stage), texts))
    for i, (o, r) in enumerate(zip(v.obs, res)):
        if r[0] != "unsat" or "-v" in sys.argv:
            print("  ", r[0], r[1], "%.1fs" % r[2], o.name, "" if r[0] == "unsat" else r[3])
        if r[0] != "unsat":
            open("/tmp/pvc/%d.smt2" % i, "w").write(texts[i])
            print("      -> /tmp/pvc/%d.smt2" % i, "" if "-g" not in sys.argv else o.goal)
    print("   proved %d/%d  %.1fs" % (sum(r[0] == "unsat" for r in res), len(res), time.time() - t0))
    for nm, h in v.vacuity:
        st = solve.discharge(solve.smt2(h, None), maxstage=1)
        if st[0] == "unsat":
            print("   VACUOUS", nm)
    print("   inlined", v.inlined, "lemmas", v.lemmas, "ext", v.models.usedext)
