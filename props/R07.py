"""R07: every solver path reaches the optimum of its penalised problem."""
import contextlib
import copy
import io
import warnings

import numpy as np

from sim import common, optimum, refadmm as ref, state, zoo
from sim.tracer import Tracer

PID = "R07"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 15000}
RULE = ("a run counts when at least two solver schedules (starting point, penalty parameter and its update rule, relaxation, step choice, sample order, "
        "stop/resume sequence or interruption) were run to convergence on one problem and compared with one another and with the reference optimum; "
        "distinct = hash of (problem, schedules, iteration counts)")
STATE_MEASURE = "distinct (estimator, penalty, schedule feature) combinations that were run to convergence"
REAL = ["estimators, solvers, proximal operators, step-size and penalty update rules, prox_tv"]
STUB = ["the schedule: stop points, restarts, interrupts, sample order, penalty updates are chosen by the simulator"]
ASSUMPTIONS = ["an independent recursion run to a residual of 3e-10 is taken as the optimum; a runtime perturbation test guards it",
               "gap allowed: 2e-5 of 1+|F*| for a run that reports convergence at tolerances 1e-8"]
NAMES = {"GL": 4, "LGL": 3, "IC": 1, "TGL": 4, "LTGL": 4, "KTGL": 3, "KLTGL": 3, "LTMD": 2, "FB": 3, "GLO": 3, "GGLM": 2, "POISSON": 2, "ISING": 2, "TISING": 2, "TPOISSON": 1}
ADMM = ("GL", "LGL", "IC", "TGL", "LTGL", "KTGL", "KLTGL", "LTMD")
TIME = ("TGL", "LTGL", "KTGL", "KLTGL", "LTMD", "FB")
LATENT = ("LGL", "IC", "LTGL", "KLTGL", "LTMD")
BUDGET = 2500
GAP = 2e-5


def generate(rng, i, tier):
    s = rng.choices(list(NAMES), weights=list(NAMES.values()))[0]
    d = rng.choice([2, 3, 3, 4])
    T = rng.choice([1, 2, 3, 3, 4]) if s in TIME else 1
    if s in ("KTGL", "KLTGL", "FB"):
        T = rng.choice([2, 2, 3, 3, 4, 5]) if s != "FB" else min(3, max(2, T))
        if T > 3:
            d = 2
    D = {"seed": rng.randrange(10 ** 6), "d": d, "T": T, "n": [rng.choice([4 * d, 6 * d, 10 * d]) for _ in range(T)], "scale": rng.choice([1.0, 1.0, 0.5, 2.0]),
         "shift": rng.choice([0.0, 3.0])}
    if rng.random() < 0.5 or s == "LTMD":
        D["n"] = [D["n"][0]] * T
    P = {}
    if s in ADMM + ("FB",):
        P["alpha"] = rng.choice([0.02, 0.1, 0.3, 1.0])
        if s in ("TGL", "LTGL", "KTGL", "KLTGL", "FB"):
            P["alpha"] = rng.choice([0.1, 1.0, 4.0])
        if rng.random() < 0.3 and s not in ("IC", "LTMD"):
            P["assume_centered"] = True
    if s in LATENT:
        P["tau"] = rng.choice([0.1, 0.5, 2.0]) if s in ("LGL", "IC", "LTMD") else rng.choice([0.3, 1.0, 5.0])
    if s in ("TGL", "LTGL", "LTMD", "FB"):
        P["beta"] = rng.choice([0.1, 1.0, 5.0])
    if s in ("LTGL", "LTMD"):
        P["eta"] = rng.choice([0.1, 1.0, 5.0])
    if s in ("TGL", "LTGL", "KTGL", "KLTGL", "LTMD"):
        P["psi"] = rng.choice(["laplacian", "laplacian", "l1", "l1", "l2", "l2", "linf"])
    if s in ("LTGL", "KLTGL", "LTMD"):
        P["phi"] = rng.choice(["laplacian", "laplacian", "l1", "l1", "l2", "l2", "linf"])
    if rng.random() < 0.13 and "psi" in P and T > 1:
        P[rng.choice([k for k in ("psi", "phi") if k in P])] = "node"
        D["d"], D["T"], D["n"] = min(d, 3), min(T, 2), D["n"][:2]
    if s in ("KTGL", "KLTGL"):
        D["kseed"] = rng.randrange(10 ** 6)
        if rng.random() < 0.5:  # a kernel class evaluated at the time labels
            D["kfun"] = [[rng.choice(["RBF", "RBF", "ConstantKernel"]), rng.choice([0.5, 1.0, 2.0])] for _ in range(2)]
    if s in TIME and s != "LTMD" and rng.random() < 0.5:
        lab = sorted(rng.sample([-3, -1, 0, 1, 2, 4, 5, 7, 0.5, 2.25], D["T"]))
        D["labels"] = lab
    if s == "FB":
        P["time_norm"] = 1  # the prox for other norms is iterative with a fixed small budget
        P["delta"] = rng.choice([0.2, 0.4])
        P["laplacian_penalty"] = rng.random() < 0.3
        D["T"] = min(3, T)
        D["n"] = D["n"][:D["T"]]
    if s == "GLO":
        P["alpha"] = rng.choice([0.3, 2.0, 10.0])
        P["groups"] = zoo.gen_groups(rng, d)
        P["fit_intercept"] = rng.random() < 0.5
        D["n"] = [3 * d + 5]
        D["targets"] = rng.choice([0, 0, 2])
        if rng.random() < 0.4:
            P["mode"] = "paspal"
            P["alpha"] = rng.choice([0.02, 0.1, 0.5])
            D["shrink"] = rng.choice([1, 0.1])
    if s in ("GGLM", "POISSON", "ISING", "TPOISSON"):
        P["alpha"] = rng.choice([0.02, 0.1, 0.3])
        if s in ("GGLM", "POISSON"):
            P["reconstruction"] = rng.choice(["union", "intersection"])
        D["n"] = [rng.choice([12, 25])] if s != "ISING" else [rng.choice([8, 12])]
        if s == "ISING":
            D["d"] = min(3, d)
            P["alpha"] = rng.choice([0.1, 0.3])
            if rng.random() < 0.35:  # one penalised logistic regression per variable
                P.update(mode="logistic_regression", alpha=rng.choice([0.5, 2.0, 5.0]), reconstruction=rng.choice(["union", "intersection"]))
                D.update(d=d, n=[rng.choice([25, 40])])
        D["scale"] = 1.0
    if s == "TISING":
        P["alpha"] = rng.choice([0.03, 0.1, 0.3])
        P["psi"] = rng.choice(["laplacian", "l1", "l2"])
        D.update(d=rng.choice([2, 2, 3]), T=rng.choice([1, 2, 2, 3]), kseed=rng.randrange(10 ** 6), kscale=rng.choice([0.05, 0.3, 1.0]))
        D["n"] = [rng.choice([6, 10])] * D["T"]
    if s == "TPOISSON":  # its inner solver has a fixed budget of 100 steps
        P["alpha"], D["n"] = rng.choice([0.1, 0.3]), [25]
    V = [{}]
    for _ in range(rng.choice([2, 3, 4]) if not is_node(P) and s != "TISING" else 1):
        v = {}
        if s in ADMM or s == "GLO":
            if rng.random() < 0.6:
                v["rho"] = rng.choice([0.2, 0.5, 2.0, 6.0])
        if s in ADMM:
            if rng.random() < 0.5:
                v["update_rho_options"] = rng.choice([{"mu": 2}, {"mu": 12, "tau_inc": 3}, {"tau_dec": 1.5}, {"mu": 3, "tau_inc": 1.5, "tau_dec": 1.2}, {"mu": 1e9}, {"mu": 1e9}, {"mu": 1e9}])
        if s == "GL" and rng.random() < 0.5:
            v["over_relax"] = rng.choice([1.2, 1.5, 1.8])
        if s in ("GL", "LGL", "TGL", "LTGL", "KTGL", "KLTGL", "FB") and rng.random() < 0.5:
            v["init"] = rng.choice(["spd", "spd", "zeros"]) if s != "FB" else "spd"
            v["iseed"] = rng.randrange(1000)
        if s in ("GL", "LGL", "TGL", "LTGL", "KTGL", "KLTGL", "FB") and rng.random() < 0.4:
            v["stops"] = [rng.choice([1, 2, 3, 5, 10, 30]) for _ in range(rng.choice([1, 1, 2, 4]))]
        if s == "FB":
            if rng.random() < 0.5:
                v["choose"] = rng.choice(["lamda", "both", "fixed"])
                v["lamda_criterion"] = rng.choice(["a", "b", "c"])
            if rng.random() < 0.5:
                v["gamma"] = rng.choice([0.5, 0.1])
            if v.get("choose") == "fixed":
                v["gamma"] = 0.002
        if s == "TISING":
            v = {"gamma": rng.choice([0.1, 0.2])}
            if rng.random() < 0.6:
                v["rho"] = rng.choice([0.3, 0.5, 2.0])
            if rng.random() < 0.4:
                v["update_rho_options"] = rng.choice([{"mu": 12, "tau_inc": 3}, {"mu": 1e9}])
        if s in ("GGLM", "ISING"):
            v["gamma"] = rng.choice([0.02, 0.05, 0.1] if s == "GGLM" else [0.1, 0.2])
        if s not in ("LTMD", "IC", "TISING") and rng.random() < 0.35:
            v["perm"] = rng.randrange(10 ** 6)
        if rng.random() < 0.15 and s != "TISING":
            v["fault"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "step": int(10 ** rng.uniform(0.5, 3.3))}
        if rng.random() < 0.15 and s in ADMM:
            v["compute_objective"] = False
        V.append(v)
    return {"est": s, "data": D, "params": P, "variants": V}


# ---------------------------------------------------------------- data
def make_data(s, D):
    rs = np.random.RandomState(D["seed"])
    d, T = D["d"], D["T"]
    B = np.eye(d) + 0.5 * rs.randn(d, d) * (rs.rand(d, d) < 0.6)
    X, y = [], []
    for t in range(T):
        x = rs.randn(D["n"][t], d).dot(B) * D["scale"]
        X.append(x + D["shift"] * (s not in ("GLO", "GGLM")) * rs.randn(d))
        y += [t] * D["n"][t]
        B = B + 0.15 * rs.randn(d, d)
    X, y = np.concatenate(X), np.array(y)
    if s in ("GL", "LGL"):
        return (X,)
    if s in TIME and s != "LTMD":
        return X, np.array(D["labels"][:T])[y] if "labels" in D else y
    if s in ("LTMD", "IC"):
        C, _ = optimum.covariances(X, y, False)
        return (C,) if s == "LTMD" else (C[0],)
    if s == "GLO":
        y = np.array([X.dot(rs.randn(d) * (rs.rand(d) < 0.7)) + 0.5 * rs.randn(len(X)) + D["shift"] for _ in range(max(1, D.get("targets", 0)))])
        return X * D.get("shrink", 1), y.T if D.get("targets") else y[0]
    if s == "GGLM":
        return (X - X.mean(0),)
    if s == "ISING":
        X = np.where(X + 0.5 * X[:, :1] > X.mean(0), 1.0, -1.0)
        X[0, X.max(axis=0) < 0], X[0, X.min(axis=0) > 0] = 1.0, -1.0  # no constant variable
        return (X,)
    if s == "TISING":
        X = np.where(X + 0.5 * X[:, :1] > X.mean(0), 1.0, -1.0)
        return (X.reshape(T, D["n"][0], d),)
    if s in ("POISSON", "TPOISSON"):
        X = np.minimum(rs.poisson(0.7, size=X.shape), 4).astype(float)
        return (X,) if s == "POISSON" else (X, np.zeros(len(X)))
    raise KeyError(s)


def kernel(D, k):
    if "kfun" in D:
        name, a = D["kfun"][k]
        t = np.array(D["labels"][:D["T"]] if "labels" in D else range(D["T"]), dtype=float)
        q = (t[:, None] - t[None, :]) ** 2
        return np.exp(-q / (2 * a * a)) if name == "RBF" else np.full(q.shape, a)
    r = np.random.RandomState(D["kseed"] + k)
    m = np.abs(r.randn(D["T"], D["T"])) * (r.rand(D["T"], D["T"]) < 0.8)
    m = (m + m.T) / 2
    np.fill_diagonal(m, 1.0 if D["kseed"] % 2 else 0.7)
    return m


def build_problem(plan, args):
    s, D, P = plan["est"], plan["data"], plan["params"]
    if s in ADMM + ("FB",):
        T = D["T"]
        Q = {"alpha": P["alpha"], "psi": P.get("psi", "l1"), "phi": P.get("phi", "l1"), "wpsi": {}, "wphi": {}}
        if s in ("GL", "LGL"):
            S, n = optimum.covariances(args[0], np.zeros(len(args[0])), P.get("assume_centered", False))
            n = np.ones(1)
        elif s in ("LTMD", "IC"):
            S = args[0] if s == "LTMD" else args[0][None]
            n = np.ones(len(S))
        else:
            S, n = optimum.covariances(args[0], args[1], P.get("assume_centered", False))
        if s in ("TGL", "LTGL", "LTMD"):
            Q["wpsi"] = ref.chain(T, P["beta"])
        if s in ("LTGL", "LTMD"):
            Q["wphi"] = ref.chain(T, P["eta"])
        if s in ("KTGL", "KLTGL"):
            Q["wpsi"] = ref.dense(kernel(D, 0))
        if s == "KLTGL":
            Q["wphi"] = ref.dense(kernel(D, 1))
        if s in LATENT:
            Q["tau"] = P["tau"]
        if s == "FB":
            Q.update(fb=True, vareps=1e-5, beta=P["beta"], time_norm=P["time_norm"], laplacian=P["laplacian_penalty"])
        return optimum.Cov(S, n, Q, {"LTMD": 1.0, "IC": 0.5}.get(s, 0.0))
    return None


def permuted(s, args, seed):
    r = np.random.RandomState(seed)
    n = len(args[0])
    o = r.permutation(n)
    return tuple(a[o] for a in args)


# ---------------------------------------------------------------- one schedule
def one(plan, args, v, steps):
    """Returns (estimate list, converged, attributes) of one solver schedule."""
    s, D, P = plan["est"], plan["data"], plan["params"]
    if "perm" in v:
        args = permuted(s, args, v["perm"])
    kw = dict(P)
    for k in ("rho", "update_rho_options", "over_relax", "choose", "lamda_criterion", "gamma", "compute_objective"):
        if k in v:
            kw[k] = copy.deepcopy(v[k])
    if s in ("KTGL",):
        kw["kernel"] = kernel(D, 0)
    if s == "KLTGL":
        kw["kernel_psi"], kw["kernel_phi"] = kernel(D, 0), kernel(D, 1)
    if "kfun" in D:
        from sklearn.gaussian_process import kernels as gpk

        for k, names in enumerate([("kernel", "ker_param")] if s == "KTGL" else [("kernel_psi", "ker_psi_param"), ("kernel_phi", "ker_phi_param")]):
            kw[names[0]], kw[names[1]] = getattr(gpk, D["kfun"][k][0]), D["kfun"][k][1]
    if "init" in v:
        if v["init"] == "spd":
            r = np.random.RandomState(v["iseed"])
            m = np.array([np.eye(D["d"]) + 0.3 * (lambda q: q.dot(q.T))(r.randn(D["d"], D["d"])) for _ in range(D["T"])])
            kw["init"] = m if s in TIME else m[0]
        else:
            kw["init"] = v["init"]
    if s == "GLO":
        kw.update(tol=1e-9, rtol=1e-9, max_iter=30000)
    elif s in ("GGLM", "ISING"):
        kw.update(tol=1e-10 if s == "GGLM" else 1e-7, max_iter=20000 if s == "GGLM" else 2500)
        kw.setdefault("gamma", 0.1)
    elif s in ("POISSON", "TPOISSON"):
        kw.update(tol=1e-9, max_iter=20000 if s == "POISSON" else 50)
    elif s == "FB":
        kw.update(tol=1e-7, max_iter=800)
    else:
        kw.update(tol=1e-8, rtol=1e-8, max_iter=BUDGET)
        if is_node(P):  # every step runs an inner solver with the same budget
            kw.update(tol=1e-7, rtol=1e-7, max_iter=700)
            kw.setdefault("compute_objective", False)
    with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        if s == "TISING":
            f = zoo._c("generalized_linear_model.glm_time_ising._fit_time_ising_model")
            kw.update(kernel=kernel(D, 0) * D["kscale"], tol=1e-6, rtol=1e-6, max_iter=400)
            kw.setdefault("gamma", 0.2)
            K, n = f(args[0].copy(), return_n_iter=True, **kw)
            res = {"K": K, "L": None, "n_iter": n}
        elif s == "IC":
            from regain.covariance.infimal_convolution_ import infimal_convolution

            K, L, n = infimal_convolution(args[0].copy(), **kw)[:3] if False else _ic(infimal_convolution, args[0].copy(), kw)
            res = {"K": K[None], "L": L[None], "n_iter": n}
        else:
            cls = zoo._c(zoo.CLASSES[s][0])
            gam = kw.pop("gamma") if s == "GGLM" else None
            fit = (lambda e: e.fit(*[a.copy() for a in args], gamma=gam)) if gam is not None else (lambda e: e.fit(*[a.copy() for a in args]))
            est = cls(**copy.deepcopy(kw))
            if v.get("fault"):
                with Tracer(fault=v["fault"]) as tr:
                    try:
                        fit(est)
                    except (KeyboardInterrupt, MemoryError):
                        steps["faults"][v["fault"]["kind"]] = steps["faults"].get(v["fault"]["kind"], 0) + 1
            for b in v.get("stops", ()):
                e = cls(**dict(copy.deepcopy(kw), max_iter=b))
                fit(e)
                kw["init"] = e.precision_.copy()
                steps["faults"]["stop/resume"] = steps["faults"].get("stop/resume", 0) + 1
            if v.get("stops"):
                est = cls(**copy.deepcopy(kw))
            del ws[:]
            fit(est)
            res = {"est": est}
            if s in ("GL", "LGL", "TGL", "KTGL", "FB", "LTGL", "KLTGL", "LTMD"):
                K = np.asarray(est.precision_)
                L = getattr(est, "latent_", None) if s in LATENT else None
                res.update(K=K if s in TIME else K[None], L=None if L is None else (L if s in TIME else L[None]), n_iter=est.n_iter_)
                if s not in ("GL", "LTMD"):
                    C = np.asarray(est.covariance_)
                    res["C"] = C if s in TIME else C[None]
            elif s == "GLO":
                res.update(w=np.atleast_2d(np.asarray(est.coef_)), n_iter=est.n_iter_)
            else:
                K = np.asarray(est.precision_)
                res.update(K=K if s == "TPOISSON" else K[None], L=None, n_iter=len(est.history[-1]) if s == "ISING" and "mode" not in P else 0)
    res["converged"] = not any("converge" in str(w.message) for w in ws)
    if s == "GLO":
        res["converged"] = int(np.max(res["n_iter"])) < 29990
    return res


def _ic(f, S, kw):
    out = f(S, return_n_iter=True, **kw)
    return out[0], out[1], out[-1]


def execute(plan):
    common.quiet()
    s = plan["est"]
    args = make_data(s, plan["data"])
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    trace = []

    def bad(cls, detail):
        return {"status": "violation", "cls": cls, "detail": "%s: %s" % (s, detail), "stats": stats, "trace": trace}

    runs = []
    for k, v in enumerate(plan["variants"]):
        r = one(plan, args, v, stats)
        runs.append(r)
        trace.append("schedule %d %s -> converged=%s n_iter=%s" % (k, v, r["converged"], r["n_iter"]))
        if isinstance(r["n_iter"], (int, np.integer)):
            stats["steps"] += int(r["n_iter"])
        for f in v:
            if f in ("iseed", "lamda_criterion"):
                continue
            stats["faults"]["schedule:" + f] = stats["faults"].get("schedule:" + f, 0) + (f != "fault")
            stats["states"].append("%s|%s|%s|%s" % (s, plan["params"].get("psi"), plan["params"].get("phi"), f))
    try:
        out = judge(plan, args, runs, stats, trace)
    except ValueError as e:
        return {"status": "error", "cls": "reference", "detail": str(e), "stats": stats, "trace": trace}
    if out is not None and isinstance(out, tuple):
        return bad(*out)
    dig = state.digest([s, repr(plan["data"]), repr(sorted(plan["params"].items(), key=str)), repr(plan["variants"]), [repr(r["n_iter"]) for r in runs]])
    ok = sum(r["converged"] for r in runs) >= 2 and out != "no reference"
    return {"status": "ok", "stats": stats, "digest": dig, "nontrivial": dig if ok else None, "trace": trace,
            "note": "%s: %d schedules, %s" % (s, len(runs), out or "all at the optimum")}


def judge(plan, args, runs, stats, trace):
    s, P = plan["est"], plan["params"]
    for k, r in enumerate(runs):
        v = r["converged"] and shape_facts(s, r, s == "LTMD" and {"l2", "linf"} & {P["psi"], P["phi"]})
        if v:
            return v[0], "schedule %d: %s" % (k, v[1])
    if s == "GLO":
        return judge_glo(plan, args, runs)
    if s in ("GGLM", "POISSON", "TPOISSON") or P.get("mode") == "logistic_regression":
        return judge_neighbourhood(plan, args, runs)
    if s == "ISING":
        best, F = optimum.ising(args[0], P["alpha"])
        f0 = F(best)
        for k, r in enumerate(runs):
            th = r["K"][0]
            if F(th) > f0 + GAP * (1 + abs(f0)):
                return "not-optimal", "schedule %d reached %.8g, the optimum is %.8g" % (k, F(th), f0)
            if np.max(np.abs(th - best)) > 2e-2:
                return "not-optimal", "schedule %d: estimate off the optimum by %.3g" % (k, np.max(np.abs(th - best)))
        return None
    if s == "TISING":
        D = plan["data"]
        w = kernel(D, 0) * D["kscale"]
        best, F = optimum.ising_time(args[0], P["alpha"], {(a, b): w[a, b] for a in range(D["T"]) for b in range(a + 1, D["T"])}, P["psi"])
        if best is None:
            return "no reference"
        f0 = F(best)
        for k, r in enumerate(runs):
            f = F(r["K"])
            trace.append("objective %.9g, reference %.9g" % (f, f0))
            if f < f0 - 1e-5 * (1 + abs(f0)):
                raise ValueError("the reference optimum %.9g was beaten by %.9g" % (f0, f))
            if r["converged"] and f > f0 + 6e-4 * (1 + abs(f0)):
                return "not-optimal", "schedule %d reports convergence at %.8g, the optimum is %.8g" % (k, f, f0)
        return None
    prob = build_problem(plan, args)
    vals = [prob.value(r["K"], r["L"]) for r in runs]
    g = prob.reference()
    star = None
    if g is not None:
        est, its = g
        stats["probes"]["reference iterations"] = its
        star = prob.value(*est)
        guard(prob, est, star)
    fin = [f for f, r in zip(vals, runs) if np.isfinite(f)]
    low = min(fin + ([star] if star is not None and np.isfinite(star) else []), default=None)
    trace.append("objective values %s, reference %s" % (["%.9g" % f for f in vals], star))
    if low is None:
        return "no reference"
    for k, (f, r) in enumerate(zip(vals, runs)):
        if not r["converged"]:
            if star is not None and its < 1500 and plain(s, plan, k, prob) and (not np.isfinite(f) or f > star + 1e-3 * (1 + abs(star))):
                return "no-progress", "schedule %d did not converge in its budget (%.8g, optimum %.8g reached by the reference in %d iterations)" % (k, f, star, its)
            continue
        tol = (GAP if s != "FB" else 2e-4) * (1 + abs(low))
        if not np.isfinite(f) or f > low + tol:
            return "not-optimal", "schedule %d (%s) reports convergence at objective %.9g, but %.9g is attainable (reference %s)" % (k, plan["variants"][k], f, low, star)
        if star is not None and f < star - 10 * tol and not np.isinf(star):
            raise ValueError("the reference optimum %.9g was beaten by %.9g" % (star, f))
        if star is not None and s != "FB":
            R = r["K"] if r["L"] is None else r["K"] - r["L"]
            Q = est[0] if r["L"] is None else est[0] - est[1]
            e = np.max(np.abs(R - Q)) / (1 + np.max(np.abs(Q)))
            stats["probes"]["max argument error e-6"] = max(stats["probes"].get("max argument error e-6", 0), int(e * 1e6))
            if e > 2e-2:
                return "not-optimal", "schedule %d: the estimate differs from the unique optimum by %.3g (relative)" % (k, e)
    return None if star is not None else "no reference"


def is_node(P):
    return "node" in (P.get("psi"), P.get("phi"))


def plain(s, plan, k, prob):
    """Schedules and data for which the method has no excuse for not finishing."""
    v = plan["variants"][k]
    if s == "FB" or is_node(plan["params"]) or v.get("update_rho_options", {}).get("mu", 10) < 10 or v.get("over_relax", 1) > 1:
        return False
    return all(np.linalg.cond(c) < 60 for c in prob.S)


def guard(prob, est, star):
    """The reference itself must not be improvable."""
    r = np.random.RandomState(0)
    for _ in range(12):
        pert = []
        for j, e in enumerate(est):
            q = r.randn(*e.shape) * 1e-3
            q = (q + np.swapaxes(q, -1, -2)) / 2
            if j == 1:
                q = np.einsum("tij,tkj->tik", q, q)
            pert.append(e + q)
        f = prob.value(*pert)
        if f < star - 1e-6 * (1 + abs(star)):
            raise ValueError("the reference optimum is improvable: %.10g < %.10g" % (f, star))


def shape_facts(s, r, loose):
    # loose: a least-squares split with a column-wise penalty has no reason to be symmetric
    if "K" in r:
        K = r["K"]
        if not np.all(np.isfinite(K)):
            return "not-finite", "the estimate contains non-finite values"
        sc = 1 + np.max(np.abs(K))
        if not loose and np.max(np.abs(K - np.swapaxes(K, -1, -2))) > 1e-6 * sc:
            return "asymmetric", "the estimated precision is not symmetric (by %.3g)" % np.max(np.abs(K - np.swapaxes(K, -1, -2)))
    if r.get("L") is not None:
        L = r["L"]
        m = min(np.linalg.eigvalsh((l + l.T) / 2).min() for l in L)
        if m < -1e-7 * (1 + np.max(np.abs(L))) or not loose and np.max(np.abs(L - np.swapaxes(L, -1, -2))) > 1e-6 * (1 + np.max(np.abs(L))):
            return "latent-not-psd", "the latent component has eigenvalue %.3g" % m
    if "C" in r:
        for k, c in zip(r["K"], r["C"]):
            w = np.abs(np.linalg.eigvalsh(k))
            if w.min() > 1e-4 * w.max():
                e = np.max(np.abs(c.dot(k) - np.eye(len(k))))
                if e > 1e-4:
                    return "covariance", "the stored covariance is not the inverse of the precision (off by %.3g)" % e
    return None


def judge_glo(plan, args, runs):
    P = plan["params"]
    X, Y = args
    Y = Y.reshape(len(X), -1)
    if P["fit_intercept"]:
        X, Y = X - X.mean(0), Y - Y.mean(0)
    groups = [list(g) for g in P["groups"]]
    for j in range(Y.shape[1]):
        y = Y[:, j]
        if P.get("mode") == "paspal":
            best, F = optimum.latent_group_lasso(X, y, P["alpha"], groups)
        else:
            best = optimum.group_lasso(X, y, P["alpha"], groups)
            F = lambda z: optimum.group_value(X, y, P["alpha"], groups, z)
        f0 = F(best)
        for k, r in enumerate(runs):
            if not r["converged"]:
                continue
            if r["w"].shape != (Y.shape[1], X.shape[1]):
                return "not-optimal", "schedule %d: coefficients of shape %s for %d targets" % (k, r["w"].shape, Y.shape[1])
            f = F(r["w"][j])
            if f > f0 + 2e-4 * (1 + abs(f0)):
                return "not-optimal", "schedule %d (%s) reached %.8g for target %d, the optimum is %.8g" % (k, P.get("mode", "admm"), f, j, f0)
            if P.get("mode") == "paspal" and np.abs(r["w"][j] - best).max() > 2e-2 * max(0.5, np.abs(best).max()):
                return "not-optimal", "schedule %d: coefficients off the optimum by %.3g" % (k, np.abs(r["w"][j] - best).max())
    return None


def judge_neighbourhood(plan, args, runs):
    P = plan["params"]
    X = args[0]
    d = X.shape[1]
    want = np.zeros((d, d))
    for ix in range(d):
        w, F = optimum.neighbourhood(X, ix, P["alpha"], {"GGLM": "gauss", "ISING": "logistic"}.get(plan["est"], "poisson"))
        if plan["est"] == "ISING" and F < 0.3:
            return "no reference"
        want[ix, [k for k in range(d) if k != ix]] = w
    tol = 4e-2 if plan["est"] == "ISING" else 5e-3  # (the logistic regressions stop at a tolerance that cannot be set)
    sure = np.abs(want) > 0.4 * tol
    zero = np.abs(want) < 1e-9
    out = (want + want.T) / 2
    if P.get("reconstruction") == "intersection":
        both = sure & sure.T
        none = zero | zero.T
        out[none] = 0
        mask = both | (none & none.T)
    else:
        mask = np.ones((d, d), bool)
    np.fill_diagonal(mask, False)
    for k, r in enumerate(runs):
        if plan["est"] in ("GGLM", "POISSON") and max(len(p[-1]) for p in r["est"].history) >= 19999:
            continue  # these methods do not report running out of budget
        e = np.abs(r["K"][0] - out) * mask
        if np.max(e, initial=0) > tol:
            return "not-optimal", "schedule %d: the estimated edges differ from the combined neighbourhood optima by %.3g" % (k, np.max(e))
    return None


def shrinks(plan):
    for k in range(len(plan["variants"])):
        if len(plan["variants"]) > 1:
            p = copy.deepcopy(plan)
            del p["variants"][k]
            yield p
    for k, v in enumerate(plan["variants"]):
        for f in list(v):
            p = copy.deepcopy(plan)
            del p["variants"][k][f]
            yield p
    if plan["data"]["T"] > 2:
        p = copy.deepcopy(plan)
        p["data"]["T"] -= 1
        p["data"]["n"] = p["data"]["n"][:p["data"]["T"]]
        yield p
