"""R17: Bayesian updating does not depend on how the data arrived."""
import copy
import pickle

import numpy as np
from scipy import stats as st

from sim import common, proc, state
from sim.tracer import FAULTS, Tracer, pick_fault

PID = "R17"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("a run counts when at least one posterior was reached by two or more updates, or after an interrupted update, and judged; "
        "distinct = distinct histories (operations, batch sizes, fault sites)")
STATE_MEASURE = "distinct (operation, depth of the updated belief, fault site) triples"
REAL = ["regain.bayesian.wishart_distribution_ (all code, from /repo)", "scipy.stats, statsmodels"]
STUB = ["the caller: batches, orders, interruptions and reuse of buffers are chosen by the simulator"]
ASSUMPTIONS = ["relative tolerance 1e-7 of parameters and densities; draws are judged by exact pivotal (chi-square) statistics at p < 1e-11"]
KINDS = ["niw", "niw", "niw", "iw", "w"]


def generate(rng, i, tier):
    d = rng.choice([2, 2, 3, 4])
    ops, n = [], 1
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        k = rng.randrange(n)
        if r < 0.45:
            op = {"op": "update", "k": k, "rows": rng.choice([1, 1, 2, 3, 7, 20]), "seed": rng.randrange(10 ** 6), "reuse": rng.random() < 0.4,
                  "layout": rng.choice(["C", "F", "readonly", "strided"])}
            n += 1
        elif r < 0.57:
            op = {"op": "interrupt", "k": k, "rows": rng.choice([1, 3, 7]), "seed": rng.randrange(10 ** 6), "kind": rng.choice(["KeyboardInterrupt", "MemoryError"]),
                  "u_site": rng.random(), "u_occ": rng.random(), "what": rng.choice(["posterior", "posterior", "sample", "log_likelihood"])}
        elif r < 0.67:
            op = {"op": rng.choice(["pickle", "copy", "deepcopy", "clone"]), "k": k}
            n += 1
        elif r < 0.72:
            op = {"op": "set", "k": k, "seed": rng.randrange(10 ** 6)}
            n += 1
        elif r < 0.86:
            op = {"op": "draw", "k": k, "n": rng.choice([1, 2, 150]), "seed": rng.randrange(10 ** 6)}
        else:
            op = {"op": "density", "k": k, "seed": rng.randrange(10 ** 6)}
        ops.append(op)
    if rng.random() < 0.6:  # the same data once more, in another order and split
        ups = [o for o in ops if o["op"] == "update" and o["k"] == 0]
        ops.append({"op": "replay", "order": rng.randrange(10 ** 6), "split": rng.choice([1, 2, 3, 50])}) if ups else None
    return {"d": d, "prior": rng.randrange(10 ** 6), "kind": rng.choice(KINDS), "ops": [o for o in ops if o]}


def spd(rs, d, s=1.0):
    A = rs.randn(d, d)
    return s * (A.dot(A.T) + 0.3 * np.eye(d))


def rows(op, d):
    rs = np.random.RandomState(op["seed"])
    X = rs.randn(op["rows"], d) * rs.choice([0.5, 1.0, 3.0]) + rs.randn(d)
    lay = op.get("layout", "C")
    if lay == "F":
        X = np.asfortranarray(X)
    elif lay == "strided":
        X = np.repeat(X, 2, axis=0)[::2]
    elif lay == "readonly":
        X.setflags(write=False)
    return X


def classes():
    from regain.bayesian import wishart_distribution_ as m
    return {"w": m.WishartDistribution, "iw": m.InverseWishartDistribution, "niw": m.NormalInverseWishartDistribution}


def make(ref):
    c = classes()[ref["c"]]
    if ref["c"] == "niw":
        return c(ref["mu"].copy(order="K"), ref["kappa"], ref["nu"], ref["S"].copy(order="K"))
    return c(ref["nu"], ref["S"].copy(order="K"))


def updated(ref, X):
    """Textbook update in the centred form."""
    n, m = len(X), X.mean(axis=0)
    C = (X - m).T.dot(X - m)
    k = ref["kappa"] + n
    v = (m - ref["mu"])[:, None]
    return {"c": "niw", "mu": ref["mu"] + n / k * v[:, 0], "kappa": k, "nu": ref["nu"] + n, "S": ref["S"] + C + ref["kappa"] * n / k * v.dot(v.T), "depth": ref["depth"] + 1}


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=tol, atol=tol * max(1e-12, np.abs(b).max() if b.size else 0)))


def judge(dist, ref, who):
    names = ["mu", "kappa", "nu", "S"] if ref["c"] == "niw" else ["nu", "S"]
    for a in names:
        if not near(getattr(dist, a), ref[a]):
            return ("posterior" if ref["depth"] else "changed", "%s: %s is %s, expected %s" % (who, a, np.round(getattr(dist, a), 6).tolist(), np.round(ref[a], 6).tolist()))
    D, nu, S = len(ref["S"]), ref["nu"], ref["S"]
    if ref["c"] == "w":
        want = {"mean": nu * S, "mode": (nu - D - 1) * S if nu > D + 1 else np.nan}
    elif ref["c"] == "iw":
        want = {"mean": S / (nu - D - 1), "mode": S / (nu + D + 1)}
    else:
        want = {"mean": S / (nu - D - 1)}
        m = dist.mode
        if not near(m[0], ref["mu"]) or not near(m[1], S / (nu + D + 2)):
            return ("moments", "%s: the mode is wrong" % who)
    for a, v in want.items():
        got = getattr(dist, a)
        if not (near(got, v) or (np.isscalar(v) and np.isnan(v) and np.all(np.isnan(got)))):
            return ("moments", "%s: the %s is %s, expected %s" % (who, a, np.round(got, 6).tolist(), np.round(v, 6).tolist()))
    return None


def density(dist, ref, seed):
    rs = np.random.RandomState(seed)
    D = len(ref["S"])
    X = spd(rs, D, 0.7)
    keep = X.copy()
    bad = None
    if ref["c"] == "w":
        want = st.wishart.logpdf(X, ref["nu"], ref["S"])
        got = dist.log_likelihood(X)
        if not near(dist.likelihood(X), np.exp(want), 1e-6):
            bad = "likelihood"
    elif ref["c"] == "iw":
        want, got = st.invwishart.logpdf(X, ref["nu"], ref["S"]), dist.log_likelihood(X)
    else:
        m = ref["mu"] + 0.3 * rs.randn(D)
        want = st.invwishart.logpdf(X, ref["nu"], ref["S"]) + st.multivariate_normal.logpdf(m, ref["mu"], X / ref["kappa"])
        got = dist.log_likelihood(m, X)
        df = ref["nu"] - D + 1
        a, b = dist.marginals
        for t, sc, what in ((a, ref["S"] / (ref["kappa"] * df), "marginal"), (dist.predictive(), (ref["kappa"] + 1) / (ref["kappa"] * df) * ref["S"], "predictive")):
            if not near(t.logpdf(m), st.multivariate_t.logpdf(m, ref["mu"], sc, df), 1e-6):
                bad = what
        if not near(b.log_likelihood(X), st.invwishart.logpdf(X, ref["nu"], ref["S"]), 1e-6):
            bad = "marginal of the covariance"
    if not near(got, want, 1e-6):
        bad = "log-density (%g, expected %g)" % (got, want)
    if not np.array_equal(keep, X):
        bad = "argument (overwritten)"
    return bad


def draw(dist, ref, n, seed):
    common.seed_streams(seed)
    out = dist.sample(n)
    D, nu, S = len(ref["S"]), ref["nu"], ref["S"]
    if ref["c"] == "niw":
        pairs = [out] if n == 1 else list(out)
        mus, mats = [np.asarray(p[0]) for p in pairs], [np.asarray(p[1]) for p in pairs]
    else:
        mus, mats = [], [np.asarray(out)] if n == 1 else list(np.asarray(out))
    if len(mats) != n or any(m.shape != (D, D) for m in mats) or any(m.shape != (D,) for m in mus):
        return "%d draws of the wrong number or shape" % n, None
    q, dof = 0.0, n * nu * D
    for m in mats:
        if not np.allclose(m, m.T, rtol=1e-6) or np.linalg.eigvalsh(m)[0] <= 0:
            return "a drawn matrix is not symmetric positive definite", None
        q += np.trace(np.linalg.solve(S, m)) if ref["c"] == "w" else np.trace(np.linalg.solve(m, S))
    tests = [("matrices", q, dof)]
    if mus:
        tests.append(("means", sum(ref["kappa"] * (u - ref["mu"]).dot(np.linalg.solve(m, u - ref["mu"])) for u, m in zip(mus, mats)), n * D))
    for what, q, dof in tests:
        if min(st.chi2.cdf(q, dof), st.chi2.sf(q, dof)) < 1e-11:
            return "the drawn %s do not have the distribution's spread (statistic %.4g, degrees of freedom %g)" % (what, q, dof), None
    return None, [np.array(mus), np.array(mats)]


def perform(dist, ref, op, d):
    if op["what"] == "posterior" and ref["c"] == "niw":
        return dist.posterior(rows(op, d))
    if op["what"] == "sample":
        common.seed_streams(op["seed"])
        return dist.sample(2)
    X = spd(np.random.RandomState(op["seed"]), d)
    return dist.log_likelihood(np.zeros(d), X) if ref["c"] == "niw" else dist.log_likelihood(X)


def sites(plan, ref, op):
    common.quiet()
    with Tracer(record=True) as tr:
        common.outcome(lambda: perform(make(ref), ref, op, plan["d"]))
    return tr.seq


def execute(plan):
    common.quiet()
    d = plan["d"]
    rs = np.random.RandomState(plan["prior"])
    c = plan["kind"]
    ref = {"c": c, "nu": d + 2 + int(rs.randint(0, 6)) + float(rs.choice([0, 0.5])), "S": spd(rs, d), "depth": 0}
    if c == "niw":
        ref.update(mu=rs.randn(d), kappa=float(rs.choice([0.5, 1.0, 4.0])))
    pool = [(make(ref), ref, [])]
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    trace, counted = ["prior %s, d=%d" % (c, d)], False

    def viol(cls, detail):
        return {"status": "violation", "cls": cls, "detail": "%s: %s" % (c, detail), "stats": stats, "trace": trace}

    for op in plan["ops"]:
        name = op["op"]
        if name != "replay" and op["k"] >= len(pool):
            continue
        if name != "replay":
            dist, ref, data = pool[op["k"]]
        stats["steps"] += 1
        stats["states"].append("%s/%s/%d" % (name, c, ref["depth"]))
        trace.append("%s %s" % (name, {k: v for k, v in op.items() if k not in ("op", "u_site", "u_occ")}))
        try:
            if name in ("update",):
                if ref["c"] != "niw":
                    continue
                X = rows(op, d)
                keep = np.array(X)
                new = dist.posterior(X)
                if not np.array_equal(keep, X):
                    return viol("argument-changed", "the update overwrote its data")
                if op["reuse"] and X.flags.writeable:
                    X[...] = 1e3
                    stats["faults"]["buffer_reused"] = stats["faults"].get("buffer_reused", 0) + 1
                pool.append((new, updated(ref, keep), data + [keep] if data is not None else None))
                counted = counted or pool[-1][1]["depth"] > 1
            elif name == "interrupt":
                f = op if "site" in op else pick_fault(proc.call(sites, plan, ref, op), op["kind"], op["u_site"], op["u_occ"])
                if f is None:
                    continue
                with Tracer(fault=f) as tr:
                    try:
                        perform(dist, ref, op, d)
                        if tr.fired:
                            return viol("swallowed", "an interrupted %s returned" % op["what"])
                    except (KeyboardInterrupt, MemoryError):
                        pass
                if tr.fired:
                    counted = True
                    stats["faults"][op["kind"]] = stats["faults"].get(op["kind"], 0) + 1
                    stats["states"].append("site:%s" % (f["site"],))
            elif name in ("pickle", "copy", "deepcopy", "clone"):
                from sklearn.base import clone
                g = {"pickle": lambda x: pickle.loads(pickle.dumps(x)), "copy": copy.copy, "deepcopy": copy.deepcopy, "clone": clone}[name]
                pool.append((g(dist), ref, data))
            elif name == "set":
                r2 = np.random.RandomState(op["seed"])
                new = copy.deepcopy(dist)
                S = spd(r2, d)
                new.set_params(S=S, nu=ref["nu"] + 1)
                pool.append((new, dict(ref, S=S.copy(), nu=ref["nu"] + 1), None))
            elif name == "draw":
                bad, got = draw(dist, ref, op["n"], op["seed"])
                if bad:
                    return viol("draws", bad)
                # (rebuilt from the very same floats: the singular value decomposition behind the draws amplifies rounding)
                twin = make(dict(ref, **{a: getattr(dist, a) for a in ("mu", "kappa", "nu", "S") if a in ref}))
                again = draw(twin, ref, op["n"], op["seed"])[1]
                if again is None or not (near(got[0], again[0], 1e-5) and near(got[1], again[1], 1e-5)):
                    return viol("draws", "draws of one stream differ from those of a new distribution with the same parameters")
            elif name == "density":
                bad = density(dist, ref, op["seed"])
                if bad:
                    return viol("density", "wrong " + bad)
            elif name == "replay":
                full = max((p for p in pool if p[2]), key=lambda p: len(p[2]), default=None)
                if full is None or c != "niw":
                    continue
                X = np.vstack(full[2])
                X = X[np.random.RandomState(op["order"]).permutation(len(X))]
                dist = pool[0][0]
                if not full[2] or pool[0][1]["depth"]:
                    continue
                for part in np.array_split(X, min(op["split"], len(X))):
                    dist = dist.posterior(part)
                bad = judge(dist, full[1], "the same data in another order and split")
                if bad:
                    return viol(*bad)
        except Exception as e:
            return viol("crash", "%s raised %s: %s" % (name, type(e).__name__, str(e)[:150]))
        for k, (x, r, _) in enumerate(pool):
            bad = judge(x, r, "belief %d after %s" % (k, name))
            if bad:
                return viol(*bad)
    img = [[np.round(np.asarray(getattr(x, a), float), 6) for a in (["mu", "kappa", "nu", "S"] if r["c"] == "niw" else ["nu", "S"])] for x, r, _ in pool]
    out = {"status": "ok", "stats": stats, "digest": state.digest(state.encode(img)), "note": c}
    if counted or c != "niw":
        out["nontrivial"] = str(plan["ops"]) + c
    return out


def concretise(plan, res):
    return plan


def shrinks(plan):
    for k in range(len(plan["ops"])):
        p = copy.deepcopy(plan)
        del p["ops"][k]
        yield p
    if plan["d"] > 2:
        yield dict(copy.deepcopy(plan), d=2)
    for k, op in enumerate(plan["ops"]):
        for a, v in (("rows", 1), ("reuse", False), ("layout", "C"), ("n", 1)):
            if a in op and op[a] != v:
                p = copy.deepcopy(plan)
                p["ops"][k][a] = v
                yield p
