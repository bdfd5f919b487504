"""Run-time contract check of one property on the real code.

  run.py PID --tier quick --seed 1 --budget 40 --jobs 7 --out FILE
  run.py PID --replay FILE        (exit 1 when the recorded case fails)
Runs under /opt/venv/bin/python. Prints nothing but the JSON result.
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("NPY_DISABLE_CPU_FEATURES",
                      "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


def one(mod, case, tlimit):
    """-> (status, detail): ok / trivial / skip / fail / noapi"""
    from common import Fail, Skip, Slow, limit
    try:
        with limit(tlimit):
            r = mod.check(case)
        return ("trivial" if r == "trivial" else "ok"), r
    except Skip:
        return "skip", ""
    except Fail as e:
        return "fail", str(e)
    except Slow:
        if getattr(mod, "SLOW_IS_SKIP", False):
            return "skip", "slow"
        return "fail", "no result within %g s (slow)" % tlimit
    except (ImportError, AttributeError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        # a name the harness itself looks up and does not find: not explored
        obj = str(e).split(" has no attribute")[0]
        private = obj.startswith("module ") or obj in (
            "'spectral_sequence' object", "'local_chains' object", "'barcode_basis' object",
            "type object 'local_chains'", "type object 'barcode_basis'")
        if isinstance(e, ImportError) or (tb[-1].filename.startswith(HERE) and private):
            return "noapi", repr(e)
        return "fail", "%s: %s at %s" % (type(e).__name__, e, tb[-1])
    except RecursionError as e:
        return "fail", "RecursionError"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [t for t in tb if not t.filename.startswith(HERE)]
        if not inside:
            return "fail", "malformed result: %s: %s at %s:%s" % (
                type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno)
        return "fail", "%s: %s at %s:%s (%s)" % (
            type(e).__name__, str(e)[:200], os.path.basename(inside[-1].filename),
            inside[-1].lineno, inside[-1].name)


def worker(a):
    import numpy as np
    from common import jsonable
    mod = importlib.import_module(a.pid.lower())
    t0 = time.time()
    res = dict(evaluations=0, trivial=0, skipped=0, fails=[], samples=[], noapi=[],
               kinds={}, hashes=[])
    hs = set()
    tl = getattr(mod, "TIME_LIMIT", 60)

    def go(kind, case):
        if any(f["detail"].endswith("(slow)") for f in res["fails"]):
            return
        case = jsonable(case)
        key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        st, det = one(mod, case, tl)
        if st == "skip":
            res["skipped"] += 1
            return
        res["evaluations"] += 1
        res["kinds"][kind] = res["kinds"].get(kind, 0) + 1
        if st == "trivial":
            res["trivial"] += 1
        elif st == "ok":
            hs.add(key)
            if len(res["samples"]) < 2 and len(json.dumps(case)) < 700:
                res["samples"].append(case)
        elif st == "noapi":
            res["noapi"].append(det)
        else:
            res["fails"].append(dict(case=case, detail=det, size=len(json.dumps(case))))
            if a.stop and not os.path.exists(a.stop):
                open(a.stop, "w").close()

    if a.shard == 0 or getattr(mod, "CORNERS_SHARDED", False):
        for i, (kind, case) in enumerate(mod.corners()):
            if getattr(mod, "CORNERS_SHARDED", False) and i % a.jobs != a.shard:
                continue
            go("corner:" + kind, case)
    rng = np.random.RandomState(a.seed * 1000 + a.shard)
    maxn = a.maxcases

    def stop():
        # another worker has failures: a few more seconds for smaller ones
        try:
            return a.stop and time.time() - os.path.getmtime(a.stop) > 8
        except OSError:
            return False
    while time.time() - t0 < a.budget and not stop() and res["evaluations"] < maxn and len(res["fails"]) < 12 and not any(
            f["detail"].endswith("(slow)") for f in res["fails"]):
        try:
            kind, case = mod.gen(rng, a.tier)
        except TypeError:
            raise
        if case is None:
            res["skipped"] += 1
            continue
        go(kind, case)
    res["fails"].sort(key=lambda f: f["size"])
    res["fails"] = res["fails"][:3]
    res["hashes"] = sorted(hs)
    res["noapi"] = res["noapi"][:2]
    json.dump(res, sys.__stdout__)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--shard", type=int, default=-1)
    ap.add_argument("--maxcases", type=int, default=10 ** 9)
    ap.add_argument("--out")
    ap.add_argument("--stop", help="file made by the first worker that fails")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        mod = importlib.import_module(a.pid.lower())
        d = json.load(open(a.replay))
        st, det = one(mod, d["case"], getattr(mod, "TIME_LIMIT", 60))
        print(st, det)
        sys.exit(1 if st == "fail" else 0)
    if a.shard >= 0:
        return worker(a)
    t0 = time.time()
    procs = []
    tmpd = tempfile.mkdtemp(prefix="rt-")
    for s in range(a.jobs):
        cmd = [sys.executable, os.path.abspath(__file__), a.pid, "--tier", a.tier, "--seed",
               str(a.seed), "--budget", str(a.budget), "--shard", str(s), "--jobs", str(a.jobs),
               "--stop", os.path.join(tmpd, "stop")]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    tot = dict(evaluations=0, trivial=0, skipped=0, fails=[], samples=[], kinds={}, errors=[], noapi=[])
    hs = set()
    for pr in procs:
        try:
            o, e = pr.communicate(timeout=a.budget + 240)
        except subprocess.TimeoutExpired:
            pr.kill()
            o, e = pr.communicate()
            tot["errors"].append("worker timeout")
            continue
        try:
            r = json.loads(o)
        except Exception:
            tot["errors"].append(e.decode()[-1500:])
            continue
        for k in ("evaluations", "trivial", "skipped"):
            tot[k] += r[k]
        tot["fails"] += r["fails"]
        tot["noapi"] += r["noapi"]
        tot["samples"] = (tot["samples"] + r["samples"])[:3]
        hs |= set(r["hashes"])
        for k, v in r["kinds"].items():
            tot["kinds"][k] = tot["kinds"].get(k, 0) + v
    shutil.rmtree(tmpd, ignore_errors=True)
    tot["fails"].sort(key=lambda f: f["size"])
    tot["distinct_nontrivial"] = len(hs)
    tot["wall_s"] = time.time() - t0
    tot["rule"] = importlib.import_module(a.pid.lower()).RULE
    s = json.dumps(tot)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(json.dumps({k: (v if k != "samples" else len(v)) for k, v in tot.items()}, indent=1))


if __name__ == "__main__":
    main()
