"""R04: parallel work gives the sequential result under every schedule."""
import copy

import numpy as np

from sim import common, jobs, proc, state, zoo
from sim.tracer import FAULTS

PID = "R04"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("a run counts when at least two batches of one parallel call were executed by the simulated pool; distinct = distinct "
        "(target, jobs, completion order, switches) tuples")
STATE_MEASURE = "distinct completion orders per (target, number of jobs, kind of worker)"
REAL = ["regain.linear_model, regain.model_selection and the estimators fitted inside (all code, from /repo)", "joblib.Parallel's dispatch and retrieval",
        "sklearn.model_selection.GridSearchCV"]
STUB = ["joblib's worker pool: a simulated backend runs the batches (threads under the baton scheduler, or forked workers with pickled arguments)"]
ASSUMPTIONS = ["random estimators are not used inside parallel calls", "wall-clock fields of cv_results_ are not compared",
               "the number of jobs itself, and whether per-target lists are lists or tuples, are not part of the result"]
TOL = dict(rtol=1e-6, atol=1e-8)


def gen_target(rng):
    kind = rng.choice(["glo", "glo", "gmss", "grid"])
    if kind == "glo":
        name = rng.choice(["GLO", "GLO", "GLOC"])
        spec = zoo.gen_spec(rng, [name])
        if name == "GLO":
            spec["data"]["targets"] = rng.choice([2, 2, 3, 4, 5, 6, 1, 0])
        spec["data"]["T"] = rng.choice([2, 3, 4, 5])
        spec["data"]["dtype"] = rng.choice(["f8", "f8", "f8", "int", "f4"])
        if spec["params"]["max_iter"] > 8:
            spec["params"]["max_iter"] = rng.choice([8, 20])
        return {"kind": kind, "spec": spec}
    name = rng.choice(["GL", "LGL", "TGL", "LTGL", "KTGL", "MGL"] if kind == "gmss" else ["GL", "TGL", "LTGL", "GLO", "GLOC", "DA", "LGL"])
    spec = zoo.gen_spec(rng, [name])
    if name == "MGL":
        spec["est"] = name = "GL"
        spec["data"]["kind"] = "plain"
    P = spec["params"]
    for k in ("init", "kernel", "priors", "ker_param", "max_iter_ext"):
        P.pop(k, None)
    P["max_iter"] = rng.choice([1, 2, 4])
    P.pop("max_iter") if name == "DA" else None
    D = spec["data"]
    D["n"] = rng.choice([9, 14, 16])
    D["ragged"] = False
    D["layout"] = "C" if D["layout"] == "readonly" else D["layout"]
    if P.get("alpha") == "max":
        P["alpha"] = 0.1
    t = {"kind": kind, "spec": spec}
    if name == "DA":
        t["grid"] = {"ensure_posdef": [True, False]}
    else:
        t["grid"] = {"alpha": rng.sample([0.01, 0.1, 0.3, 0.7, 1.5], rng.choice([1, 2, 3]))}
        if name in ("TGL", "LTGL") and rng.random() < 0.3:
            t["grid"]["beta"] = [0.1, 2.0]
    if kind == "gmss":
        t["n_repetitions"] = rng.choice([2, 3, 4])
        t["sampling_size"] = rng.choice([None, 12, 12, 10])
        t["pre_dispatch"] = rng.choice(["2*n_jobs", "all", 1, "n_jobs"])
        t["refit"] = rng.random() < 0.8
        t["return_train_score"] = rng.random() < 0.3
    else:
        t["cv"] = rng.choice([2, 3])
        t["pre_dispatch"] = rng.choice(["2*n_jobs", "all", 1])
    return t


def generate(rng, i, tier):
    t = gen_target(rng)
    pool = {"kind": rng.choice(["threads", "threads", "procs"]), "seed": rng.randrange(10 ** 6), "n_jobs": rng.choice([2, 2, 3, 4, 8, 1]),
            "batch": rng.choice([1, 1, 2, 3]), "p": rng.choice([0.0, 0.02, 0.1, 0.3, 0.5]), "memmap": rng.random() < 0.4}
    if rng.random() < 0.45:
        pool["fault"] = {"kind": rng.choice(["dies", "lost", "KeyboardInterrupt", "MemoryError", "MemoryError", "main_interrupt"]),
                         "batch": rng.randrange(6), "step": 1 + int(10 ** (rng.random() * 3))}
    return {"target": t, "pool": pool, "via": rng.choice(["context", "context", "param"]), "stream": rng.randrange(10 ** 6), "again": rng.random() < 0.5,
            "again_pool": {"kind": "threads", "seed": rng.randrange(10 ** 6), "n_jobs": rng.choice([1, 2, 5]), "batch": 1, "p": 0.05}}


def build(t, n_jobs):
    """n_jobs: None = taken from the pool's context."""
    sp = t["spec"]
    if t["kind"] == "glo":
        est = zoo.make_est(sp)
        return est.set_params(n_jobs=n_jobs)
    inner = zoo.make_est(sp)
    if t["kind"] == "gmss":
        from regain.model_selection.stability_optimization import GraphicalModelStabilitySelection as G

        return G(inner, copy.deepcopy(t["grid"]), n_jobs=n_jobs, n_repetitions=t["n_repetitions"], sampling_size=t["sampling_size"],
                 pre_dispatch=t["pre_dispatch"], refit=t["refit"], return_train_score=t["return_train_score"])
    from sklearn.model_selection import GridSearchCV, KFold, StratifiedKFold

    cv = (StratifiedKFold if sp["data"]["kind"] in ("time", "clf") else KFold)(t["cv"])
    return GridSearchCV(inner, copy.deepcopy(t["grid"]), cv=cv, n_jobs=n_jobs, error_score="raise", pre_dispatch=t["pre_dispatch"])


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


def fitted(t, est, args):
    """What the caller can see of the result, without timings."""
    if t["kind"] == "glo":
        return {"coef": np.array(est.coef_), "intercept": plain(np.asarray(est.intercept_).tolist()), "n_iter": plain(est.n_iter_),
                "history": state.encode(plain(est.history_)), "predict": est.predict(args[0])}
    out = {}
    for k, v in est.cv_results_.items():
        if "time" in k or k == "params":
            continue
        out[k] = np.ma.filled(np.ma.asarray(v).astype(float), np.nan) if np.asarray(v).dtype.kind != "O" or k.startswith("param_") else state.encode(v)
    out["best_index"] = int(est.best_index_)
    out["best_params"] = {k: plain(v) for k, v in est.best_params_.items()}
    if getattr(est, "refit", True):
        b = est.best_estimator_
        out["best"] = [state.encode(getattr(b, a)) for a in ("precision_", "latent_", "coef_", "intercept_", "covariance_", "location_") if hasattr(b, a)]
    if t["kind"] == "gmss":
        out["instab"] = np.array(est.monotonized_instabilities)
    return out


def call(t, est, args, stream):
    common.seed_streams(stream)
    try:
        est.fit(*args)
        return ("ok", fitted(t, est, args))
    except KeyboardInterrupt as e:
        return ("raise", "KeyboardInterrupt", str(e)[:200])
    except Exception as e:
        return ("raise", type(e).__name__, str(e)[:200])


def reference(t, stream):
    common.quiet()
    est = build(t, 1)
    args = zoo.make_data(t["spec"]["data"])
    r = call(t, est, args, stream)
    solo = None
    if r[0] == "ok" and t["kind"] == "glo" and t["spec"]["est"] == "GLO" and np.ndim(args[1]) == 2 and args[1].shape[1] > 1:
        solo = []
        for k in range(args[1].shape[1]):
            e = zoo.make_est(t["spec"])
            e.fit(args[0], np.ascontiguousarray(np.asarray(args[1])[:, k]))
            solo.append(np.array(e.coef_))
    return r, solo


def simulated(plan):
    common.quiet()
    jobs.install()
    t = plan["target"]
    n = plan["pool"]["n_jobs"]
    est = build(t, None if plan["via"] == "context" else n)
    args = zoo.make_data(t["spec"]["data"])
    with jobs.pool(plan["pool"]) as core:
        r = call(t, est, args, plan["stream"])
    info = {"fired": core.fired, "log": core.log, "submitted": core.submitted, "steps": core.steps, "switches": core.switches}
    r2 = None
    if plan["again"] or core.fired:
        with jobs.pool(plan["again_pool"]):
            r2 = call(t, est, args, plan["stream"])
    return r, r2, info


def execute(plan):
    common.quiet()
    t = plan["target"]
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    ref, solo = proc.call(reference, t, plan["stream"])
    if ref[0] != "ok":
        return {"status": "ok", "stats": stats, "note": "sequential run raises " + ref[1]}
    got, again, info = proc.call(simulated, plan)
    who = "%s/%s" % (t["kind"], t["spec"]["est"])
    stats["faults"] = info["fired"]
    stats["steps"] = info["steps"]
    stats["probes"] = {"batches": info["submitted"], "thread switches": info["switches"]}
    if info["log"]:
        stats["states"].append("%s|%d|%s|%s" % (who, plan["pool"]["n_jobs"], plan["pool"]["kind"], ",".join(map(str, info["log"]))))
    tol = dict(TOL)
    if t["spec"]["data"]["dtype"] == "f4":
        tol = dict(rtol=2e-3, atol=1e-4)
    bad = None
    if got[0] == "ok":
        d = state.diff(ref[1], got[1], **tol)
        if d:
            bad = ("wrong-result" if not info["fired"] else "partial-result", "result differs from the sequential one%s: %s" % (" after an injected worker failure" if info["fired"] else "", d))
        elif solo is not None:
            c = got[1]["coef"].reshape(len(solo), -1)
            for k, s in enumerate(solo):
                d = state.diff(s.ravel(), c[k], **tol)
                if d:
                    bad = ("target", "coefficients of target %d differ from those of a fit on that target alone: %s" % (k, d))
                    break
    elif not info["fired"]:
        bad = ("raises", "the parallel call raises %s: %s where the sequential one succeeds" % (got[1], got[2]))
    if bad is None and again is not None:
        if again[0] != "ok":
            bad = ("again-raises", "a repeated call raises %s: %s" % (again[1], again[2]))
        else:
            d = state.diff(ref[1], again[1], **tol)
            if d:
                bad = ("again-differs", "a repeated call differs from the sequential result: " + d)
    if bad:
        return {"status": "violation", "cls": bad[0], "stats": stats, "detail": "%s: %s" % (who, bad[1]),
                "trace": ["%s with %d jobs (%s workers)" % (who, plan["pool"]["n_jobs"], plan["pool"]["kind"]), "fault %s" % plan["pool"].get("fault"),
                          "batches completed in order %s" % info["log"], bad[1]]}
    return {"status": "ok", "stats": stats, "digest": state.digest([got[0], info["log"], str(info["fired"])]),
            "nontrivial": "%s|%s|%s|%s" % (who, plan["pool"]["n_jobs"], info["log"], info["switches"]) if info["submitted"] >= 2 else None,
            "note": "%s: %d batches, order %s, faults %s" % (who, info["submitted"], info["log"], info["fired"])}


def shrinks(plan):
    def var(f):
        p = copy.deepcopy(plan)
        f(p)
        return p

    if plan["again"]:
        yield var(lambda p: p.update(again=False))
    if plan["pool"].get("fault"):
        yield var(lambda p: p["pool"].pop("fault"))
    if plan["pool"]["p"]:
        yield var(lambda p: p["pool"].update(p=0.0))
    if plan["pool"]["batch"] > 1:
        yield var(lambda p: p["pool"].update(batch=1))
    if plan["pool"]["n_jobs"] > 2:
        yield var(lambda p: p["pool"].update(n_jobs=2))
    if plan["pool"]["memmap"]:
        yield var(lambda p: p["pool"].update(memmap=False))
    g = plan["target"].get("grid")
    if g:
        for k in g:
            if len(g[k]) > 1:
                yield var(lambda p, k=k: p["target"]["grid"].update({k: g[k][:-1]}))
    D = plan["target"]["spec"]["data"]
    if D.get("targets", 0) > 2:
        yield var(lambda p: p["target"]["spec"]["data"].update(targets=2))
