"""R06: an asynchronous failure inside a call reaches the caller, or leaves no mark on the result."""
import copy

import numpy as np

from sim import common, proc, seams, state, targets, zoo
from sim.tracer import FAULTS, StepBudget, Tracer, pick_fault

PID = "R06"
LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 20000}
RULE = ("a run counts when at least one planned fault actually fired inside library code; each run tries several faults on "
        "one call, each from the same starting state; distinct = distinct (callee, fault kind, fault site) tuples")
STATE_MEASURE = "distinct (fault kind, source line) pairs at which a fault fired"
STUB = ["numerical routines of numpy.linalg, scipy.linalg and scipy.optimize are wrapped; a planned call raises instead of running"]
ASSUMPTIONS = ["failures of numerical routines inside the Wishart sampler are judged by R11 (a fallback draw is legitimate there)"]
TOL = dict(rtol=1e-6, atol=1e-8)
PER_RUN = 10


def generate(rng, i, tier):
    t = targets.gen_target(rng)
    sp = t.get("spec")
    if sp and sp["params"].get("max_iter") == 60:
        sp["params"]["max_iter"] = 6
    fs = []
    for _ in range(PER_RUN):
        r = rng.random()
        if r < 0.75:
            fs.append({"kind": "KeyboardInterrupt" if rng.random() < 0.45 else "MemoryError", "u_site": rng.random(), "u_occ": rng.random()})
        else:
            fs.append({"kind": "numeric", "exc": rng.choice(["LinAlgError", "LinAlgError", "FloatingPointError", "MemoryError", "ValueError"]), "u": rng.random()})
    return {"target": t, "faults": fs, "stream": rng.randrange(10 ** 6)}


EXC = {"LinAlgError": np.linalg.LinAlgError, "FloatingPointError": FloatingPointError, "MemoryError": MemoryError, "ValueError": ValueError}


def reference(t, stream):
    common.quiet()
    common.seed_streams(stream)
    thunk, collect = targets.prepare(t)
    if thunk is None:
        return None
    common.seed_streams(stream)
    nf = seams.NumFault()
    tr = Tracer(record=True)
    with seams.numerics(nf):
        try:
            with tr:
                r = thunk()
            out = ("ok",)
        except Exception as e:
            return ("raise", type(e).__name__), None, tr.seq, nf.log
    return out, collect(r), tr.seq, nf.log


def attempt(t, stream, f, budget):
    """One faulty execution in its own fork."""
    common.quiet()
    common.seed_streams(stream)
    thunk, collect = targets.prepare(t)
    common.seed_streams(stream)
    numeric = f["kind"] == "numeric"
    nf = seams.NumFault(at=f["at"], make=EXC[f["exc"]]) if numeric else None
    tr = Tracer(fault=None if numeric else f, budget=budget)
    try:
        with seams.numerics(nf):
            with tr:
                r = thunk()
        res = ("ok", collect(r))
    except StepBudget as e:
        res = ("raise", "StepBudget", str(e), [], False)
    except BaseException as e:
        want = EXC[f["exc"]] if numeric else FAULTS[f["kind"]]
        chain, x = [], e
        while x is not None and len(chain) < 10:
            chain.append(type(x).__name__)
            x = x.__cause__ or x.__context__
        res = ("raise", type(e).__name__, str(e)[:200], chain, isinstance(e, want))
    fired = nf.fired if numeric else tr.fired
    return res, fired, tr.steps


def execute(plan):
    common.quiet()
    t, stream = plan["target"], plan["stream"]
    who = targets.name(t)
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    ref = proc.call(reference, t, stream)
    if ref is None or ref[0][0] != "ok":
        return {"status": "ok", "stats": stats, "note": "reference raises"}
    out, want, seq, numlog = ref
    hits = []
    budget = 20 * len(seq) + 20000
    for f in plan["faults"]:
        if f["kind"] == "numeric":
            if "at" not in f:
                if not numlog or who.startswith("WP"):
                    continue
                # a failing Cholesky is how "not positive definite" is established: a statement
                # about the matrix, not a failure of the routine
                names = sorted(n for n in set(numlog) if not n.endswith(".cholesky"))
                if not names:
                    continue
                n = names[int(f["u"] * len(names)) % len(names)]
                occ = [k for k, x in enumerate(numlog) if x == n]
                f = dict(f, at=1 + occ[int(f["u"] * 7919) % len(occ)])
        elif "site" not in f:
            if not seq:
                continue
            f = pick_fault(seq, f["kind"], f["u_site"], f["u_occ"])
        res, fired, steps = proc.call(attempt, t, stream, f, budget)
        stats["steps"] += steps
        if not fired:
            continue
        kind = f["kind"] if f["kind"] != "numeric" else "numeric_" + f["exc"]
        stats["faults"][kind] = stats["faults"].get(kind, 0) + 1
        site = fired if isinstance(fired, str) else "%s:%d" % (fired[0], fired[2])
        stats["states"].append("%s@%s" % (kind, site))
        hits.append("%s|%s|%s" % (who, kind, site))
        bad = None
        if res[0] == "ok":
            d = state.diff(want, res[1], **TOL)
            if d:
                bad = ("swallowed", "the call returned normally with a wrong result: " + d)
        elif f["kind"] != "numeric":
            if res[1] == "StepBudget":
                bad = ("never-returns", "more than %d steps after the fault (a fault-free call takes %d)" % (budget, len(seq)))
            elif not res[4]:
                bad = ("replaced", "the caller saw %s: %s" % (res[1], res[2]))
        elif not (res[4] or set(res[3]) & {f["exc"], "LinAlgError"} or res[1] == f["exc"]):
            if res[1] == "StepBudget":
                bad = ("never-returns", "more than %d steps after the fault" % budget)
            elif len(res[3]) == 1:
                bad = ("replaced", "the caller saw %s: %s with no trace of the failure" % (res[1], res[2]))
        if bad:
            return {"status": "violation", "cls": bad[0], "stats": stats, "fault": f,
                    "detail": "%s, %s at %s: %s" % (who, kind, fired, bad[1]),
                    "trace": ["call %s" % who, "inject %s at %s" % (kind, fired), "outcome %s" % (res[:3] if res[0] == "raise" else "returned normally",)]}
    return {"status": "ok", "stats": stats, "digest": state.digest(hits), "nontrivial": ";".join(hits) or None,
            "note": "%s: %d faults fired" % (who, len(hits))}


def concretise(plan, res):
    p = copy.deepcopy(plan)
    p["faults"] = [res["fault"]]
    return p


def shrinks(plan):
    for c in targets.shrink(plan["target"]):
        p = copy.deepcopy(plan)
        p["target"] = c
        yield p
