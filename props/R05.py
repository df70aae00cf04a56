"""R05: calls leave no trace in process-wide state."""
import copy
import json
import os
import subprocess
import sys

import numpy as np

from sim import boot, common, footprint, gens, proc, seams, state, targets, zoo
from sim.tracer import Tracer, drop_cleanup, pick_fault

PID = "R05"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 30000}
RULE = ("a run counts when a process-wide footprint was compared around a call that executed at least 5 library steps (or an import); "
        "distinct = distinct (callee, options, ending, fault site) tuples")
STATE_MEASURE = "distinct (ending, callee, fault site) tuples"
STUB = ["numerical routines may be replaced by a planned failure"]
ASSUMPTIONS = ["single-threaded: Python's own warning machinery is not thread-safe",
               "no interruption inside clean-up code itself (with headers, try lines, finally/except bodies), where no Python code can restore anything"]

DETERMINISTIC = [n for n in zoo.ALL if n not in zoo.RANDOM_FIT]
BAD = ["nan", "short_y", "1d", "empty", "inf", "bogus_psi", "bogus_init", "strings"]
RANDOM_FN = {"ising_sampler", "poisson_sampler", "graph_k_means", "genInvCov"}


def generate(rng, i, tier):
    if i < 3:
        return {"mode": "import", "order": rng.randrange(10 ** 6), "shuffle": i > 0}
    r = rng.random()
    if r < 0.06:
        return {"mode": "stdout", "steps": [rng.choice(["print", "nest", "raise", "interrupt", "spec"]) for _ in range(rng.randint(1, 4))],
                "spec": zoo.gen_spec(rng)}
    t = targets.gen_target(rng)
    p = {"mode": "call", "target": t, "stream": rng.randrange(10 ** 6), "fault": None, "bad": None, "filters": rng.choice(["default", "error", "ignore", "mixed"]),
         "err": rng.choice(["default", "raise", "ignore"])}
    if r < 0.55:
        p["fault"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "u_site": rng.random(), "u_occ": rng.random()}
    elif r < 0.65:
        p["fault"] = {"kind": "numeric", "u": rng.random()}
    elif r < 0.78 and t["t"] == "est":
        p["bad"] = rng.choice(BAD)
    return p


def corrupt(t, how):
    """A failing variant of a fit: (thunk, collect)."""
    spec = copy.deepcopy(t["spec"])
    if how == "bogus_psi":
        spec["params"]["psi" if "psi" in spec["params"] else "init"] = "no-such-option"
    elif how == "bogus_init":
        spec["params"]["init"] = "no-such-option"
    try:
        est = zoo.make_est(spec)
    except Exception:
        est = zoo.make_est(t["spec"])
    args = [np.array(a, copy=True) for a in zoo.make_data(t["spec"]["data"])]
    X = args[0].astype(float) if args[0].dtype.kind in "fi" else args[0]
    if how == "nan":
        X.flat[0] = np.nan
    elif how == "inf":
        X.flat[-1] = np.inf
    elif how == "1d":
        X = X.ravel()
    elif how == "empty":
        X = X[:0]
    elif how == "strings":
        X = np.array([["a"] * X.shape[-1]] * 4)
    elif how == "short_y" and len(args) > 1:
        args[1] = args[1][:-1]
    args[0] = X
    return lambda: est.fit(*args)


def is_random(t):
    if t["t"] in ("est", "call"):
        return t["spec"]["est"] in zoo.RANDOM_FIT
    if t["t"] == "fn":
        return t["item"]["fn"] in RANDOM_FN
    return not (t["req"]["gen"] in gens.HAS_STATE and t["req"]["kw"].get("random_state") is not None)


def set_scene(plan):
    import warnings
    warnings.resetwarnings()
    if plan["filters"] == "ignore":
        warnings.simplefilter("ignore")
    elif plan["filters"] == "error":
        warnings.filterwarnings("error", category=ResourceWarning)
        warnings.filterwarnings("ignore", category=UserWarning)
    elif plan["filters"] == "mixed":
        warnings.filterwarnings("once", message="never seen")
        warnings.filterwarnings("ignore", category=RuntimeWarning)
    np.seterr(all={"default": "warn", "raise": "print", "ignore": "ignore"}[plan["err"]])
    np.set_printoptions(precision=5)


def execute(plan):
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    if plan["mode"] == "import":
        return run_import(plan, stats)
    if plan["mode"] == "stdout":
        return run_stdout(plan, stats)
    t = plan["target"]
    who = targets.name(t)
    rng = not is_random(t)

    def once(fault, record):
        common.seed_streams(plan["stream"])
        thunk, _ = targets.prepare(t)
        if plan["bad"] and thunk is not None:
            thunk = corrupt(t, plan["bad"])
        if thunk is None:
            return None
        set_scene(plan)
        common.seed_streams(plan["stream"])
        numeric = fault is not None and fault["kind"] == "numeric"
        nf = seams.NumFault(at=fault.get("at") if numeric else None, make=np.linalg.LinAlgError)
        tr = Tracer(record=record, fault=fault if fault and not numeric else None)
        before = footprint.take(rng)
        with seams.numerics(nf):
            try:
                with tr:
                    thunk()
                end = "success"
            except (KeyboardInterrupt, MemoryError) as e:
                end = type(e).__name__
            except Exception as e:
                end = "error:" + type(e).__name__
        after = footprint.take(rng)
        return footprint.compare(before, after), end, tr.seq, nf.log, nf.fired or tr.fired, tr.steps

    fault = plan["fault"]
    if fault and "site" not in fault and "at" not in fault:
        pre = proc.call(once, None, True)
        if pre is None:
            return {"status": "ok", "stats": stats, "note": "cannot be prepared"}
        if fault["kind"] == "numeric":
            fault = {"kind": "numeric", "at": 1 + int(fault["u"] * len(pre[3]))} if pre[3] else None
        else:
            fault = pick_fault(drop_cleanup(pre[2]), fault["kind"], fault["u_site"], fault["u_occ"])
    r = once(fault, False)
    if r is None:
        return {"status": "ok", "stats": stats, "note": "cannot be prepared"}
    d, end, _, _, fired, steps = r
    stats["steps"] = steps
    if fired:
        stats["faults"][fault["kind"]] = 1
    if plan["bad"]:
        stats["faults"]["bad_input_" + plan["bad"]] = 1
    if d:
        return {"status": "violation", "cls": "footprint", "stats": stats, "fault": fault,
                "detail": "%s ending in %s%s: %s" % (who, end, " (fault at %s)" % (fired,) if fired else "", d)}
    key = "%s|%s|%s" % (end, who, fired)
    stats["states"].append(key)
    return {"status": "ok", "stats": stats, "digest": state.digest([key, steps]), "note": "%s: %s" % (who, end),
            "nontrivial": key + str(sorted((t.get("spec") or {}).get("params", {}).items(), key=str)) if steps >= 5 else None}


IMPORT = r"""
import sys, json, random
sys.dont_write_bytecode = True
sys.path.insert(0, %(repo)r); sys.path.insert(0, %(verif)r)
import importlib, warnings
import joblib, networkx, pandas, scipy.optimize, scipy.stats, scipy.signal, sklearn.model_selection
import sklearn.gaussian_process, sklearn.cluster, sklearn.datasets, sklearn.covariance, sklearn.discriminant_analysis, sklearn.linear_model
import matplotlib.pyplot, prox_tv, six, tqdm
from sim import footprint
mods = %(mods)r
before = footprint.take(True)
bad = None
for m in mods:
    try:
        importlib.import_module(m)
    except ImportError:
        pass
    after = footprint.take(True)
    d = footprint.compare(before, after)
    if d:
        bad = "importing %%s: %%s" %% (m, d)
        break
print("RESULT" + json.dumps(bad))
"""


def run_import(plan, stats):
    import random
    mods = list(boot.MODULES)
    if plan["shuffle"]:
        random.Random(plan["order"]).shuffle(mods)
    code = IMPORT % {"repo": boot.REPO, "verif": boot.VERIF, "mods": mods}
    env = dict(os.environ)
    out = subprocess.run([sys.executable, "-X", "pycache_prefix=/nonexistent-regain-pycache", "-c", code], capture_output=True, text=True, env=env, timeout=200)
    line = [x for x in out.stdout.splitlines() if x.startswith("RESULT")]
    if not line:
        return {"status": "error", "cls": "import-probe", "detail": out.stderr[-1500:], "stats": stats}
    bad = json.loads(line[0][6:])
    if bad:
        return {"status": "violation", "cls": "import", "detail": bad, "stats": stats}
    stats["probes"]["modules_imported"] = len(mods)
    return {"status": "ok", "stats": stats, "digest": "import", "nontrivial": "import%d" % plan["order"], "note": "%d modules imported" % len(mods)}


def run_stdout(plan, stats):
    from regain.utils import suppress_stdout

    common.quiet()
    before = footprint.take(True)
    out0 = sys.stdout

    class Boom(Exception):
        pass

    def body(steps):
        s = steps[0]
        if sys.stdout is out0:
            return "output not suppressed inside the block"
        if s == "print":
            print("x")
        elif s == "nest":
            inner = sys.stdout
            with suppress_stdout():
                print("y")
            if sys.stdout is not inner:
                return "inner block did not restore the stream it found"
        elif s == "raise":
            raise Boom()
        elif s == "interrupt":
            raise KeyboardInterrupt()
        elif s == "spec":
            common.outcome(lambda: zoo.make_est(plan["spec"]).fit(*zoo.make_data(plan["spec"]["data"])))
        if len(steps) > 1:
            with suppress_stdout():
                return body(steps[1:])
        return None

    common.seed_streams(3)
    before = footprint.take(False)
    bad = None
    try:
        with suppress_stdout():
            bad = body(plan["steps"])
    except (Boom, KeyboardInterrupt) as e:
        if ("raise" not in plan["steps"]) and ("interrupt" not in plan["steps"]):
            bad = "unexpected %r" % e
        stats["faults"][type(e).__name__] = 1
    else:
        if "raise" in plan["steps"] or "interrupt" in plan["steps"]:
            bad = bad or "an exception raised inside the block was swallowed"
    d = bad or footprint.compare(before, footprint.take(False))
    if d:
        return {"status": "violation", "cls": "stdout", "detail": "suppress_stdout around %s: %s" % (plan["steps"], d), "stats": stats}
    return {"status": "ok", "stats": stats, "digest": "-".join(plan["steps"]), "nontrivial": "stdout" + "-".join(plan["steps"]), "note": "suppress_stdout %s" % plan["steps"]}


def concretise(plan, res):
    if plan["mode"] != "call" or not res.get("fault"):
        return plan
    return dict(copy.deepcopy(plan), fault=res["fault"])


def shrinks(plan):
    if plan["mode"] == "stdout":
        for k in range(len(plan["steps"])):
            if len(plan["steps"]) > 1:
                p = copy.deepcopy(plan)
                del p["steps"][k]
                yield p
        return
    if plan["mode"] != "call":
        return
    if plan["fault"]:
        yield dict(copy.deepcopy(plan), fault=None)
    for c in targets.shrink(plan["target"]):
        p = copy.deepcopy(plan)
        p["target"] = c
        yield p
