"""Discharging obligations with a portfolio of SMT solvers (command line)."""
import os
import re
import subprocess
import tempfile
import time
import shutil
import z3
from concurrent.futures import ThreadPoolExecutor

BACK = {
    "z3-new": lambda f, t: ["z3-new", "-T:%d" % t, "smt.mbqi=false", "auto_config=false", f],
    "z3": lambda f, t: ["z3", "-T:%d" % t, "smt.mbqi=false", "auto_config=false", f],
    "z3-default": lambda f, t: ["z3-new", "-T:%d" % t, f],
    "cvc5": lambda f, t: ["cvc5", "--tlimit=%d" % (t * 1000), f],
    "cvc5-enum": lambda f, t: ["cvc5", "--enum-inst", "--tlimit=%d" % (t * 1000), f],
    "z3-seed": lambda f, t: ["z3-new", "-T:%d" % t, "smt.mbqi=false", "auto_config=false",
                             "smt.random_seed=7", "smt.case_split=3", f],
    "z3-nl": lambda f, t: ["z3-new", "-T:%d" % t, "smt.arith.nl.order=true", "smt.arith.solver=6", f],
}
STAGES = [(["z3-new"], 5), (["z3", "cvc5"], 15), (["z3-default", "z3-nl", "z3-seed", "cvc5-enum"], 30)]


_sk = [0]


def skolem(g):
    """Replace the universally quantified variables of a goal by constants."""
    if z3.is_quantifier(g) and g.is_forall():
        cs = []
        for k in range(g.num_vars()):
            _sk[0] += 1
            cs.append(z3.Const("sk!%s!%d" % (g.var_name(k).split("!")[0], _sk[0]), g.var_sort(k)))
        return skolem(z3.substitute_vars(g.body(), *reversed(cs)))
    if z3.is_and(g):
        return z3.And(*[skolem(x) for x in g.children()])
    if z3.is_implies(g):
        return z3.Implies(g.arg(0), skolem(g.arg(1)))
    return g


def inner_ground(g):
    """Ground applications that occur only below a quantifier of the goal: the
    solvers do not see them as terms, so they are named in (vacuous) facts."""
    out, seen, memo = {}, set(), {}

    def has_var(t):
        k = t.get_id()
        if k not in memo:
            if z3.is_var(t):
                memo[k] = True
            elif z3.is_quantifier(t):
                memo[k] = True
            else:
                memo[k] = any(has_var(c) for c in t.children())
        return memo[k]

    def go(t, under):
        key = (t.get_id(), under)
        if key in seen:
            return
        seen.add(key)
        if z3.is_quantifier(t):
            go(t.body(), True)
            return
        if under and z3.is_app(t) and t.num_args() > 0 and not has_var(t) and (
                z3.is_select(t) or t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            out[t.get_id()] = t
        for c in t.children():
            go(c, under)
    go(g, False)
    return list(out.values())


def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    if goal is not None:
        _sk[0] = 0
        goal = skolem(goal)
        for t in inner_ground(goal)[:60]:
            s.add(z3.Function("touch_" + "".join(ch for ch in str(t.sort()) if ch.isalnum()),
                              t.sort(), z3.BoolSort())(t))
        s.add(z3.Not(goal))
    txt = s.to_smt2()
    logic = "(set-logic ALL)\n"
    return logic + txt


def run_one(backend, path, t):
    t0 = time.time()
    try:
        r = subprocess.run(BACK[backend](path, t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=t + 5)
        out = r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        out = "timeout"
    first = "timeout"
    for l in out.splitlines():
        if l.strip() in ("sat", "unsat", "unknown", "timeout"):
            first = l.strip()
            break
        if "error" in l:
            first = "error " + l[:200]
            break
    return first, time.time() - t0, out


def discharge(text, scale=1.0, hint=None, maxstage=3, d=None):
    """-> (status, backend, seconds, detail): unsat / sat / unknown / timeout"""
    own = d is None
    d = d or tempfile.mkdtemp(prefix="pvc")
    fd, path = tempfile.mkstemp(suffix=".smt2", dir=d)
    os.write(fd, text.encode())
    os.close(fd)
    tot, answers = 0.0, {}
    try:
        stages = list(STAGES[:maxstage])
        if hint:
            stages = [([hint], 20)] + stages
        for names, t in stages:
            for b in names:
                if answers.get(b) in ("sat", "unknown"):
                    continue
                st, dt, out = run_one(b, path, max(1, int(t * scale)))
                tot += dt
                answers[b] = st
                if st == "unsat":
                    return "unsat", b, tot, answers
        if any(v == "sat" for v in answers.values()):
            return "sat", None, tot, answers
        if any(v == "timeout" for v in answers.values()):
            return "timeout", None, tot, answers
        return "unknown", None, tot, answers
    finally:
        os.unlink(path)
        if own:
            shutil.rmtree(d, ignore_errors=True)


def run_text(text, backend, t):
    fd, path = tempfile.mkstemp(suffix=".smt2")
    os.write(fd, text.encode())
    os.close(fd)
    try:
        return run_one(backend, path, t)[0]
    finally:
        os.unlink(path)
