"""R14: stability selection follows its rule for every resampling."""
import copy
import sys
import types

import numpy as np

from sim import common, jobs, proc, scripted, state

PID = "R14"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("a run counts when a selection was completed and every one of its fits was recorded; distinct = distinct vectors of raw instabilities "
        "with the chosen candidate")
STATE_MEASURE = "distinct (mode, dimension, number of candidates, eligible candidates, chosen candidate) tuples"
REAL = ["regain.model_selection.stability_optimization (all code, from /repo)", "regain's own estimators in part of the runs", "sklearn resampling"]
STUB = ["most runs select over a scripted estimator whose edges are a seeded function of its parameters and its subsample, so that any pattern of instabilities occurs",
        "netanalytics (not installed) is replaced by a stand-in whose graphlet distance counts differing edges", "joblib's pool in part of the runs (see R04)"]
ASSUMPTIONS = ["when no candidate satisfies the threshold the choice is not judged", "one grid, or a list of grids, over alpha and beta"]
THR = 0.05


def gen_fit(rng, real, d, times):
    f = {"n": rng.choice([14, 16, 20, 24, 30, 40])}
    if times:
        per = max(6, f["n"] // times)
        f["n"] = per * times
        f["sizes"] = [per] * times
        if rng.random() < 0.3:
            f["sizes"] = [per + rng.choice([-2, 0, 0, 2, 3]) for _ in range(times)]
            f["n"] = sum(f["sizes"])
        f["shuffle"] = rng.random() < 0.5
        f["labels"] = rng.choice(["int", "gap"])
    pool = [0.01, 0.05, 0.1, 0.2, 0.3, 0.5, 0.8, 1.3]
    g = {"alpha": rng.sample(pool, rng.choice([1, 2, 3, 4, 6]))}
    if rng.random() < 0.25 and not (real in ("GL", "LGL")):
        g["beta"] = rng.sample([0.1, 0.5, 2.0], 2)
    f["grid"] = g
    if rng.random() < 0.1:
        f["grid"] = [{"alpha": rng.sample(pool, 2)}, {"alpha": rng.sample([2.0, 3.0, 4.0], 2)}]
    f["n_repetitions"] = rng.choice([2, 3, 4, 5, 8, 12])
    f["sampling_size"] = rng.choice([None, None, 6, 8, 9, 10, 12])
    f["seed"] = rng.randrange(10 ** 6)
    return f


def generate(rng, i, tier):
    real = rng.choice([None, None, None, "GL", "TGL", "LGL", "LTGL"]) if rng.random() < 0.35 else None
    d = rng.choice([2, 3, 4, 5])
    times = rng.choice([2, 3]) if real in ("TGL", "LTGL") or (real is None and rng.random() < 0.5) else 0
    script = None
    if real is None:
        script = {"seed": rng.randrange(10 ** 6), "d": d, "weight": rng.choice([0.1, 1e-9, 3.0]),
                  "probs": rng.choice([[0, 1], [0, 1, 0.03], [0, 0, 1, 0.05], [0, 1, 0.5], [0.05], [0, 0, 0, 1, 0.5], [0.02, 0.98, 0, 1]])}
    plan = {"real": real, "d": d, "times": times, "script": script, "mode": rng.choice(["stars", "stars", "gstars"]) if times == 0 or rng.random() < 0.9 else "gstars",
            "refit": rng.random() < 0.9, "train_score": rng.random() < 0.2, "fits": [], "pool": None, "max_iter": rng.choice([1, 3, 10])}
    for _ in range(rng.choice([1, 1, 2, 3])):
        plan["fits"].append(gen_fit(rng, real, d, times))
        plan["fits"][-1]["how"] = rng.choice(["same", "same", "clone", "new"])
        if rng.random() < 0.15:
            plan["fits"][-1]["interrupt"] = rng.randrange(1, 8)
    if rng.random() < 0.35:
        plan["pool"] = {"kind": "threads", "seed": rng.randrange(10 ** 6), "n_jobs": rng.choice([2, 3, 5]), "batch": rng.choice([1, 2, 3]), "p": rng.choice([0.0, 0.0, 0.1])}
    return plan


def fake_netanalytics():
    m, g = types.ModuleType("netanalytics"), types.ModuleType("netanalytics.graphlets")
    g.graphlet_degree_vectors = lambda nodes, edges, graphlet_size=4: frozenset(tuple(sorted(e)) for e in edges)
    g.GCD = lambda a, b: (None, float(len(a ^ b)))
    m.graphlets = g
    sys.modules["netanalytics"], sys.modules["netanalytics.graphlets"] = m, g


def data(plan, f):
    rs = np.random.RandomState(f["seed"])
    n = f["n"]
    X = rs.randn(n, max(plan["d"], 2))
    y = None
    if plan["times"]:
        lab = np.arange(plan["times"]) if f["labels"] == "int" else np.arange(plan["times"]) * 3 + 1
        y = np.repeat(lab, f["sizes"])
        if f["shuffle"]:
            y = y[rs.permutation(n)]
    if plan["real"] is None:
        X[:, 0] = np.arange(n)
    else:
        X[:, 1] += 0.6 * X[:, 0]
    return X, y


def edges(P):
    """One 0/1 row per time point."""
    P = np.asarray(P)
    P = P[None] if P.ndim == 2 else P
    iu = np.triu_indices(P.shape[1], 1)
    return np.array([(p[iu] != 0).astype(float) for p in P])


def judge(plan, f, est, X, y, log):
    n, k = len(X), f["n_repetitions"]
    size = f["sampling_size"]
    if size is None:
        size = int(min(10 * np.sqrt(n), n - 10))
    if y is not None:
        c = len(np.unique(y))
        size = (size // c) * c
    res = est.cv_results_
    cands = [dict(p) for p in res["params"]]
    grids = f["grid"] if isinstance(f["grid"], list) else [f["grid"]]
    want = []
    for g in grids:
        for a in g["alpha"]:
            for b in g.get("beta", [None]):
                want.append((a, b))
    got = [(float(c["alpha"]), float(c["beta"]) if "beta" in c else None) for c in cands]
    if sorted(map(str, got)) != sorted(map(str, want)):
        return "candidates", "the candidates tried are %s, asked for were %s" % (got, want)
    at = 0
    for g in grids:  # within a grid every parameter is tried from its largest value to its smallest
        part = got[at:at + len(g["alpha"]) * len(g.get("beta", [None]))]
        at += len(part)
        for i, (a, b) in enumerate(part):
            if any((a2 > a and b2 == b) or (a2 == a and b2 is not None and b2 > b) for a2, b2 in part[i + 1:]):
                return "order", "candidates are not ordered from sparse to dense: %s" % (got,)
    row_of = {float(v): i for i, v in enumerate(X[:, 0])}
    full = [r for r in log if len(r["ids"]) == n]
    sub = [r for r in log if len(r["ids"]) != n] if size != n else log[:len(cands) * k]
    if plan["refit"]:
        if len(full) != 1:
            return "refit", "%d fits on all data (one was due)" % len(full)
        if full[0] is not log[-1]:
            return "refit", "the final model is not the last one fitted"
    elif full:
        return "refit", "a fit on all data although refit=False"
    for r in sub:
        rows = [row_of[float(v)] for v in r["ids"]]
        if len(set(rows)) != len(rows) or len(rows) != size:
            return "subsample", "a subsample has %d rows (%d distinct); requested size %d" % (len(rows), len(set(rows)), size)
        if y is not None:
            if [y[i] for i in rows] != list(r["y"]):
                return "mixed-times", "rows of a subsample carry another time point's label"
            for c in np.unique(y):
                q = size * np.mean(y == c)
                have = sum(1 for v in r["y"] if v == c)
                if abs(have - q) > 1 + 1e-9:
                    return "subsample", "%d rows of time point %s in a subsample of %d (%.1f expected)" % (have, c, size, q)
    by = {}
    for r in sub:
        by.setdefault((r["params"]["alpha"], r["params"]["beta"]), []).append(r)
    raw, ups, glets = [], [], []
    beta0 = sub[0]["params"]["beta"] if sub else 0.0
    for a, b in got:
        rs = by.get((a, beta0 if b is None else b), [])
        if len(rs) != k:
            return "repetitions", "candidate alpha=%s beta=%s was fitted on %d subsamples, %d requested" % (a, b, len(rs), k)
        E = np.array([edges(r["precision"]) for r in rs])
        fr = E.mean(0)
        th = float(np.mean(2 * fr * (1 - fr)))
        raw.append(th)
        ups.append(4 * th * (1 - th))
        dist = [np.abs(E[i] - E[j]).sum(1).mean() for i in range(k) for j in range(i + 1, k)]
        glets.append(2.0 / (k * (k - 1)) * sum(dist))
    raw = np.array(raw)
    mono = np.maximum.accumulate(raw)
    if not np.allclose(res["raw_test_instability"], raw, rtol=0, atol=1e-9):
        return "instability", "reported instabilities %s; those of the candidates' subsamples are %s" % (np.round(res["raw_test_instability"], 5).tolist(), np.round(raw, 5).tolist())
    if not np.allclose(est.monotonized_instabilities, mono, rtol=0, atol=1e-9):
        return "monotone", "monotonised instabilities %s; expected %s" % (np.round(est.monotonized_instabilities, 5).tolist(), np.round(mono, 5).tolist())
    b = int(est.best_index_)
    if dict(est.best_params_) != cands[b]:
        return "choice", "best_params_ is not candidate best_index_"
    edge = np.abs(raw - THR) < 1e-9
    if not edge.any():
        ok = mono <= THR
        if plan["mode"] == "stars":
            if ok.any():
                if not ok[b]:
                    return "choice", "chosen candidate %d has monotonised instability %.5f > %.2f although %s satisfy the threshold" % (b, mono[b], THR, np.where(ok)[0].tolist())
                if mono[b] < mono[ok].max() - 1e-9:
                    return "choice", "chosen candidate %d (%.5f) is not the densest stable one (%.5f)" % (b, mono[b], mono[ok].max())
                if abs(float(est.best_score_) - mono[b]) > 1e-9:
                    return "choice", "best_score_ is %.5f, the chosen candidate's instability %.5f" % (est.best_score_, mono[b])
        else:
            um = np.maximum.accumulate(np.array(ups))
            if not (np.abs(np.array(ups) - THR) < 1e-9).any():
                lb = np.where(ok)[0]
                ub = np.where(um <= THR)[0]
                lb = lb[-1] if lb.size else len(mono)
                ub = ub[-1] if ub.size else 0
                gl = np.array(glets)
                win = [i for i in range(len(mono)) if ub <= i <= lb]
                if b not in win or gl[b] > min(gl[i] for i in win) + 1e-9:
                    return "choice", "chosen candidate %d (graphlet instability %.4f) is not the best of the window %s (%s)" % (b, gl[b], win, np.round(gl, 4).tolist())
    if plan["refit"]:
        r = full[0]
        rows = [row_of[float(v)] for v in r["ids"]]
        if sorted(rows) != list(range(n)) or (y is not None and [y[i] for i in rows] != list(r["y"])):
            return "refit", "the final model was not fitted on the data as given"
        if r["params"]["alpha"] != float(cands[b]["alpha"]) or ("beta" in cands[b] and r["params"]["beta"] != float(cands[b]["beta"])):
            return "refit", "the final model was fitted with %s, chosen was %s" % (r["params"], cands[b])
        if not np.array_equal(np.asarray(est.best_estimator_.get_precision()), r["precision"]):
            return "refit", "best_estimator_ is not the model fitted on all data"
    return None, {"raw": raw, "best": b, "ok": (mono <= THR).tolist()}


class Stop(KeyboardInterrupt):
    pass


def body(plan):
    common.quiet()
    fake_netanalytics()
    jobs.install()
    from sklearn.base import clone

    from regain.model_selection.stability_optimization import GraphicalModelStabilitySelection as G

    est = None
    out = []
    fired = 0

    def make(f):
        if plan["real"] is None:
            inner = scripted.Scripted(script=plan["script"], times=plan["times"])
        else:
            inner = scripted.recording(plan["real"])(max_iter=plan["max_iter"])
        return G(inner, copy.deepcopy(f["grid"]), n_repetitions=f["n_repetitions"], sampling_size=f["sampling_size"], mode=plan["mode"],
                 refit=plan["refit"], return_train_score=plan["train_score"])

    for no, f in enumerate(plan["fits"]):
        if est is None or f["how"] == "new":
            est = make(f)
        else:
            if f["how"] == "clone":
                est = clone(est)
            est.set_params(param_grid=copy.deepcopy(f["grid"]), n_repetitions=f["n_repetitions"], sampling_size=f["sampling_size"])
        X, y = data(plan, f)
        del scripted.LOG[:]
        left = [f.get("interrupt") or -1]

        def hook():
            left[0] -= 1
            if left[0] == 0:
                raise Stop("injected")

        scripted.HOOK = hook
        np.random.seed(f["seed"])
        try:
            if plan["pool"]:
                with jobs.pool(plan["pool"]):
                    est.fit(X, y)
            else:
                est.fit(X, y)
        except Stop:
            fired += 1
            out.append(("interrupted",))
            continue
        except Exception as e:
            out.append(("raise", type(e).__name__, str(e)[:200]))
            continue
        finally:
            scripted.HOOK = None
        if f.get("interrupt") and left[0] <= 0:
            return ("bad", no, "swallowed", "an interruption inside a subsample's fit was swallowed"), fired
        try:
            v = judge(plan, f, est, X, y, list(scripted.LOG))
        except (KeyError, IndexError) as e:
            return ("bad", no, "foreign-rows", "a fit saw rows that are not in the data, or results are missing: %r" % e), fired
        if v[0]:
            return ("bad", no) + v, fired
        out.append(("ok", v[1]))
    return ("ok", out), fired


def execute(plan):
    common.quiet()
    res, fired = proc.call(body, plan)
    stats = {"faults": {"interrupt": fired} if fired else {}, "probes": {}, "steps": len(plan["fits"]), "states": []}
    who = "%s/%s%s" % (plan["mode"], plan["real"] or "scripted", "" if not plan["times"] else "/%d times" % plan["times"])
    if res[0] == "bad":
        return {"status": "violation", "cls": res[2], "stats": stats, "detail": "%s, fit %d: %s" % (who, res[1], res[3]),
                "trace": ["fit %d %s" % (i, {k: f[k] for k in ("how", "n", "grid", "n_repetitions", "sampling_size", "interrupt") if k in f})
                          for i, f in enumerate(plan["fits"][:res[1] + 1])] + [res[3]]}
    nt = []
    for f, o in zip(plan["fits"], res[1]):
        if o[0] == "ok":
            r = o[1]
            stats["states"].append("%s|%d|%d|%s|%d" % (who, plan["d"], len(r["raw"]), "".join("1" if x else "0" for x in r["ok"]), r["best"]))
            nt.append("%s>%d" % (np.round(r["raw"], 6).tolist(), r["best"]))
        elif o[0] == "raise":
            stats["probes"]["raised " + o[1]] = stats["probes"].get("raised " + o[1], 0) + 1
    return {"status": "ok", "stats": stats, "digest": state.digest(nt), "nontrivial": ";".join(nt) or None, "note": "%s %s" % (who, [o[0] for o in res[1]])}


def shrinks(plan):
    def var(fn):
        p = copy.deepcopy(plan)
        fn(p)
        return p

    if plan["pool"]:
        yield var(lambda p: p.update(pool=None))
    for i in range(len(plan["fits"])):
        if len(plan["fits"]) > 1:
            yield var(lambda p, i=i: p["fits"].pop(i))
    for i, f in enumerate(plan["fits"]):
        if "interrupt" in f:
            yield var(lambda p, i=i: p["fits"][i].pop("interrupt"))
        if isinstance(f["grid"], dict):
            if "beta" in f["grid"]:
                yield var(lambda p, i=i: p["fits"][i]["grid"].pop("beta"))
            for j in range(len(f["grid"]["alpha"])):
                if len(f["grid"]["alpha"]) > 1:
                    yield var(lambda p, i=i, j=j: p["fits"][i]["grid"]["alpha"].pop(j))
