"""Every public estimator of regain, with generators of configurations and data.

A spec is pure JSON: {"est": name, "params": {...}, "data": {...}}.
"""
import numpy as np

KERNELS = ("RBF", "ConstantKernel")


def _c(path):
    import importlib

    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module("regain." + mod), name)


# name -> (class path, data kind, family)
CLASSES = {
    "GL": ("covariance.graphical_lasso_.GraphicalLasso", "plain", "cov"),
    "LGL": ("covariance.latent_graphical_lasso_.LatentGraphicalLasso", "plain", "cov"),
    "TGL": ("covariance.time_graphical_lasso_.TimeGraphicalLasso", "time", "cov"),
    "LTGL": ("covariance.latent_time_graphical_lasso_.LatentTimeGraphicalLasso", "time", "cov"),
    "KTGL": ("covariance.kernel_time_graphical_lasso_.KernelTimeGraphicalLasso", "time", "cov"),
    "KLTGL": ("covariance.kernel_latent_time_graphical_lasso_.KernelLatentTimeGraphicalLasso", "time", "cov"),
    "STGL": ("covariance.kernel_time_graphical_lasso_.SimilarityTimeGraphicalLasso", "time", "cov"),
    "SLTGL": ("covariance.kernel_latent_time_graphical_lasso_.SimilarityLatentTimeGraphicalLasso", "time", "cov"),
    "MGL": ("covariance.missing_graphical_lasso_.MissingGraphicalLasso", "missing", "cov"),
    "LTMD": ("covariance.latent_time_matrix_decomposition.LatentTimeMatrixDecomposition", "cube", "cov"),
    "FB": ("forward_backward.time_graphical_lasso_.TimeGraphicalLassoForwardBackward", "time", "cov"),
    "WP": ("bayesian.wishart_process_.WishartProcess", "time", "bayes"),
    "BGL": ("bayesian.gwishart_inference.BayesianGraphicalLasso", "plain", "bayes"),
    "GGLM": ("generalized_linear_model.glm_gaussian.Gaussian_GLM_GM", "plain", "glm"),
    "ISING": ("generalized_linear_model.glm_ising.IsingGraphicalModel", "binary", "glm"),
    "POISSON": ("generalized_linear_model.glm_poisson.PoissonGraphicalModel", "counts", "glm"),
    "TISING": ("generalized_linear_model.glm_time_ising.TemporalIsingModel", "binary_time", "glm"),
    "TPOISSON": ("generalized_linear_model.glm_time_poisson.TemporalPoissonModel", "counts_time", "glm"),
    "STISING": ("generalized_linear_model.glm_time_ising.SimilarityTemporalIsingModel", "binary_time", "glm"),
    "GLO": ("linear_model.group_lasso_overlap_.GroupLassoOverlap", "reg", "linear"),
    "GLOC": ("linear_model.group_lasso_overlap_.GroupLassoOverlapClassifier", "clf", "linear"),
    "DA": ("discriminant_analysis.DiscriminantAnalysis", "clf", "da"),
}

RANDOM_FIT = {"WP", "BGL"}  # estimators whose fit consumes the global random stream
ALL = list(CLASSES)
# relative generation weights: the covariance family is the heart of the library
WEIGHTS = {"GL": 3, "LGL": 2, "TGL": 4, "LTGL": 3, "KTGL": 3, "KLTGL": 2, "STGL": 2, "SLTGL": 1, "MGL": 2, "LTMD": 2,
           "FB": 2, "WP": 2, "BGL": 1, "GGLM": 2, "ISING": 2, "POISSON": 2, "TISING": 2, "TPOISSON": 2, "STISING": 1,
           "GLO": 3, "GLOC": 2, "DA": 2}


def _maybe(rng, p, d, key, values):
    if rng.random() < p:
        d[key] = rng.choice(values)


def gen_params(rng, name, T, d, small=True, size="s"):
    """Random parameters.  JSON values only; arrays are {"$": kind, ...} recipes."""
    P = {}
    iters = [1, 2, 3, 5, 8, 12] if size == "s" else [5, 20, 50]
    if name in ("GL", "LGL", "TGL", "LTGL", "KTGL", "KLTGL", "STGL", "SLTGL", "MGL", "LTMD", "FB"):
        P["alpha"] = rng.choice([0.01, 0.05, 0.1, 0.3, 1.0])
        P["max_iter"] = rng.choice(iters)
        if rng.random() < 0.15:
            P["max_iter"] = 60
        _maybe(rng, 0.3, P, "assume_centered", [True])
        _maybe(rng, 0.2, P, "compute_objective", [False])
        _maybe(rng, 0.1, P, "verbose", [True])
        _maybe(rng, 0.3, P, "tol", [1e-2, 1e-3, 1e-6])
        if name != "FB":
            _maybe(rng, 0.3, P, "rho", [0.5, 2.0, 5.0])
            _maybe(rng, 0.2, P, "rtol", [1e-2, 1e-6])
            _maybe(rng, 0.3, P, "update_rho_options", [{"mu": 2}, {"mu": 5, "tau_inc": 3}, {"tau_dec": 1.5}])
    if name in ("GL", "MGL"):
        _maybe(rng, 0.3, P, "over_relax", [1.2, 1.5, 1.8])
    if name in ("LGL", "LTGL", "KLTGL", "SLTGL", "LTMD"):
        _maybe(rng, 0.7, P, "tau", [0.1, 0.5, 2.0])
    if name in ("TGL", "LTGL", "STGL", "SLTGL", "LTMD", "FB", "KTGL"):
        _maybe(rng, 0.7, P, "beta", [0.1, 0.5, 3.0])
    if name in ("LTGL", "SLTGL", "LTMD"):
        _maybe(rng, 0.5, P, "eta", [0.1, 2.0])
    if name in ("TGL", "LTGL", "KTGL", "KLTGL", "STGL", "SLTGL", "LTMD", "TISING", "TPOISSON", "STISING", "STPOISSON"):
        P["psi"] = rng.choice(["laplacian", "laplacian", "l1", "l1", "l2"])
        if name in ("TGL", "LTGL") and rng.random() < 0.05 and size == "s":
            P["psi"] = rng.choice(["linf", "node"])
            P["max_iter"] = 2
        elif name in ("TGL", "LTGL", "KTGL", "KLTGL", "LTMD") and rng.random() < 0.1:
            P["psi"] = "linf"
    if name in ("LTGL", "KLTGL", "SLTGL", "LTMD"):
        P["phi"] = rng.choice(["laplacian", "laplacian", "l1", "l1", "l2", "l2", "linf"])
    if name in ("GL", "LGL", "TGL", "LTGL", "KTGL", "KLTGL", "MGL", "STGL", "SLTGL", "FB"):
        r = rng.random()
        if r < 0.2:
            P["init"] = "zeros"
        elif r < 0.45:
            P["init"] = {"$": "spd", "seed": rng.randrange(10 ** 6), "stack": name not in ("GL", "LGL", "MGL")}
        if name == "MGL" and r < 0.2:
            P["init"] = "zeros"
    if name in ("TGL", "KTGL", "STGL", "FB", "KLTGL", "SLTGL"):
        _maybe(rng, 0.4, P, "return_history", [True])
    if name == "TGL":
        _maybe(rng, 0.1, P, "stop_at", [10.0, -5.0])
    if name in ("KTGL", "KLTGL", "TISING", "TPOISSON"):
        r = rng.random()
        ks = ["kernel"] if name != "KLTGL" else ["kernel_psi", "kernel_phi"]
        if r < 0.35:
            for k in ks:
                P[k] = {"$": "kernelclass", "name": rng.choice(KERNELS)}
        elif r < 0.65:
            for k in ks:
                P[k] = {"$": "psdkernel", "seed": rng.randrange(10 ** 6)}
        if r < 0.35 and name in ("KTGL",) and rng.random() < 0.2:
            P["ker_param"] = "auto"
            P["max_iter_ext"] = 2
            P["init"] = "empirical"
    if name in ("STGL", "SLTGL", "STISING", "STPOISSON"):
        P["max_iter_ext"] = rng.choice([1, 2, 3])
        _maybe(rng, 0.4, P, "n_clusters", [2])
        if rng.random() < 0.2:
            for k in (["kernel"] if name != "SLTGL" else ["kernel_psi", "kernel_phi"]):
                P[k] = {"$": "psdkernel", "seed": rng.randrange(10 ** 6)}
                if name == "SLTGL" and rng.random() < 0.5:
                    P[k] = {"$": "kernelclass", "name": rng.choice(KERNELS)}
    if name == "FB":
        P["max_iter"] = rng.choice([1, 2, 4])
        P["time_norm"] = rng.choice([1, 1, 2])
        _maybe(rng, 0.3, P, "laplacian_penalty", [True])
        _maybe(rng, 0.15, P, "choose", ["lamda", "fixed"])
        _maybe(rng, 0.15, P, "lamda_criterion", ["a", "c"])
        if rng.random() < 0.15:
            P["alpha"] = "max"
        _maybe(rng, 0.2, P, "gamma", [0.5])
    if name == "BGL":
        P["alphas"] = rng.choice([[0.05, 0.3], [0.5, 0.1], [0.2]])
        P["n_resampling"] = rng.choice([1, 2, 3])
        P["mode"] = rng.choice(["gl", "covsel"])
        P["scoring"] = rng.choice(["bic", "laplace", "diaglaplace"])
        _maybe(rng, 0.5, P, "top_n", [2, 3])
        _maybe(rng, 0.3, P, "assume_centered", [True])
        _maybe(rng, 0.5, P, "max_iter", [3, 10])
    if name == "WP":
        P["n_iter"] = rng.choice([4, 8, 12])
        P["theta"] = rng.choice([10, 50, 100])
        _maybe(rng, 0.4, P, "burn_in", [1, 2])
        _maybe(rng, 0.3, P, "learn_ell", [False])
        _maybe(rng, 0.3, P, "assume_centered", [True])
        _maybe(rng, 0.2, P, "var_Lprop", [0.5])
    if name in ("GGLM", "ISING", "POISSON", "TISING", "TPOISSON", "STISING", "STPOISSON"):
        P["alpha"] = rng.choice([0.01, 0.05, 0.2])
        P["max_iter"] = rng.choice([1, 2, 4, 6])
    if name in ("GGLM", "ISING", "POISSON"):
        _maybe(rng, 0.3, P, "reconstruction", ["intersection"])
        _maybe(rng, 0.3, P, "tol", [1e-2])
    if name == "ISING":
        _maybe(rng, 0.2, P, "mode", ["logistic_regression"])
    if name == "POISSON":
        _maybe(rng, 0.2, P, "intercept", [True])
    if name in ("TISING", "TPOISSON", "STISING", "STPOISSON"):
        P["max_iter"] = rng.choice([1, 2])
        _maybe(rng, 0.3, P, "return_history", [True])
    if name in ("GLO", "GLOC"):
        P["alpha"] = rng.choice([0.05, 0.5, 1.0])
        P["max_iter"] = rng.choice([3, 8, 20])
        P["groups"] = gen_groups(rng, d)
        _maybe(rng, 0.3, P, "fit_intercept", [False])
        _maybe(rng, 0.25, P, "mode", ["paspal"])
        _maybe(rng, 0.3, P, "rho", [0.5, 2.0])
        _maybe(rng, 0.1, P, "normalize", [True])
        if P.get("mode") == "paspal":
            P["max_iter"] = rng.choice([3, 8])
    if name == "DA":
        sub = rng.choice(["TGL", "LTGL", "KTGL"])
        sp = gen_params(rng, sub, T, d)
        sp.pop("kernel", None)
        if isinstance(sp.get("init"), dict):
            sp.pop("init")
        P["estimator"] = {"$": "est", "est": sub, "params": sp}
        _maybe(rng, 0.3, P, "ensure_posdef", [True])
        if rng.random() < 0.2:
            P["priors"] = {"$": "priors"}
    return P


def gen_groups(rng, d):
    n = rng.choice([1, 2, 2, 3])
    gs = []
    for _ in range(n):
        k = rng.randint(1, d)
        g = rng.sample(range(d), k)
        gs.append(g if rng.random() < 0.5 else sorted(g))
    missing = [i for i in range(d) if not any(i in g for g in gs)]
    if missing:
        gs.append(missing)
    return gs


def gen_data(rng, name):
    kind = CLASSES[name][1]
    D = {"kind": kind, "seed": rng.randrange(10 ** 6)}
    D["d"] = rng.choice([2, 3, 3, 4, 5])
    D["T"] = rng.choice([2, 3, 3, 4])
    if name in ("TGL", "LTGL", "KTGL", "FB") and rng.random() < 0.1:
        D["T"] = 1 if name in ("TGL", "LTGL") else 2
    if name in ("WP", "BGL"):
        D["d"] = rng.choice([2, 3])
        D["T"] = rng.choice([2, 3])
    if name in ("STISING", "STPOISSON", "TISING", "TPOISSON"):
        D["d"] = rng.choice([2, 3])
        D["T"] = rng.choice([2, 3])
    D["n"] = rng.choice([4, 6, 9, 14])
    if name not in ("WP", "BGL", "STISING", "STPOISSON", "TISING", "TPOISSON", "STGL", "SLTGL", "ISING", "POISSON", "GLOC"):
        big = rng.random()
        if big < 0.02:
            D["d"] = rng.choice([7, 9])
        elif big < 0.04:
            D["T"] = rng.choice([6, 8])
        elif big < 0.06:
            D["n"] = rng.choice([35, 70])
    D["ragged"] = kind in ("time", "clf") and rng.random() < (0.3 if kind == "time" else 0.6)
    D["perm"] = rng.random() < 0.4
    D["labels"] = rng.choice(["int", "int", "gap", "float", "neg"])
    D["layout"] = rng.choice(["C", "C", "F", "strided", "readonly"])
    D["dtype"] = rng.choice(["f8", "f8", "f8", "f4", "int"]) if kind in ("plain", "time", "reg", "clf") else "f8"
    D["scale"] = rng.choice([1.0, 1.0, 5.0])
    if kind == "binary" or kind == "binary_time":
        D["low"] = rng.choice([-1, 0])
    if kind == "reg":
        D["targets"] = rng.choice([0, 1, 2, 3, 4])
    return D


def gen_spec(rng, names=None, size="s"):
    names = names or ALL
    name = rng.choices(names, weights=[WEIGHTS.get(n, 1) for n in names])[0]
    data = gen_data(rng, name)
    params = gen_params(rng, name, data["T"], data["d"], size=size)
    if name == "LTMD" and rng.random() < 0.4:
        data["cube"] = rng.choice(["list", "last"])
        if data["cube"] == "last":
            params["time_on_axis"] = "last"
    return {"est": name, "params": params, "data": data}


def _layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided" and a.ndim == 2:
        big = np.zeros((a.shape[0] * 2, a.shape[1] + 1), dtype=a.dtype)
        v = big[::2, :-1]
        v[...] = a
        return v
    if how == "readonly":
        a = a.copy()
        a.setflags(write=False)
        return a
    return np.ascontiguousarray(a)


def make_data(D):
    """Materialise a data recipe: returns the positional arguments of fit."""
    rs = np.random.RandomState(D["seed"])
    d, T, n, kind = D["d"], D["T"], D["n"], D["kind"]
    mix = np.eye(d) + 0.4 * rs.randn(d, d)
    out = []
    if kind in ("plain", "missing"):
        X = rs.randn(n * 2, d).dot(mix) * D["scale"] + rs.randn(d)
        if kind == "missing":
            m = rs.rand(*X.shape) < 0.12
            m[0] = False
            m[:, 0] &= rs.rand(X.shape[0]) < 0.5
            X[m] = np.nan
        out = [X]
    elif kind in ("time", "clf", "binary_time", "counts_time"):
        sizes = [n] * T
        if D.get("ragged"):
            sizes = [max(3, n + int(rs.randint(-2, 3))) for _ in range(T)]
            if kind == "clf":
                sizes[int(rs.randint(T))] += n
        Xs = []
        for t in range(T):
            m = mix + 0.15 * t * rs.randn(d, d)
            Z = rs.randn(sizes[t], d).dot(m) * D["scale"] + 0.5 * rs.randn(d)
            Xs.append(Z)
        X = np.vstack(Xs)
        if kind == "clf":
            X = X + np.repeat(np.arange(T), sizes)[:, None] * 0.7
        if kind == "binary_time":
            X = np.where(X > np.median(X), 1.0, float(D["low"]))
        if kind == "counts_time":
            X = rs.poisson(np.clip(np.abs(X), 0.3, 3)).astype(float)
        lab = {"int": np.arange(T), "gap": np.cumsum(1 + rs.randint(1, 4, T)), "float": np.arange(T) * 1.5,
               "neg": np.arange(T) - T}[D["labels"]]
        if kind == "clf" and D["labels"] == "float":
            lab = np.arange(T) * 3
        y = np.repeat(lab, sizes)
        if D["perm"]:
            p = rs.permutation(len(y))
            X, y = X[p], y[p]
        out = [X, y]
    elif kind == "cube":
        A = rs.randn(T, d, d) * D["scale"]
        X = A + A.transpose(0, 2, 1)
        if D.get("twin") == "cols":
            X = X[:, ::-1, ::-1]
        elif D.get("twin") == "flip":
            X[:, 0] *= -1
            X[:, :, 0] *= -1
        elif D.get("twin") == "times":
            X = X[::-1]
        if D.get("cube") == "list":
            return [[_layout(x, D["layout"]) for x in X]]
        if D.get("cube") == "last":
            X = X.transpose(1, 2, 0)
        return [_layout(X, D["layout"])]
    elif kind == "binary":
        X = rs.randn(n * 2, d).dot(mix)
        out = [np.where(X > np.median(X), 1.0, float(D["low"]))]
    elif kind == "counts":
        out = [rs.poisson(np.clip(np.abs(rs.randn(n * 2, d).dot(mix)), 0.3, 3)).astype(float)]
    elif kind == "reg":
        X = rs.randn(n * 2, d) * D["scale"] + 0.3
        k = D["targets"]
        W = rs.randn(d, max(k, 1)) * (rs.rand(d, max(k, 1)) < 0.7)
        Y = X.dot(W) + 0.1 * rs.randn(n * 2, max(k, 1)) + 1.0
        out = [X, Y[:, 0] if k == 0 else Y]
    twin = D.get("twin")  # other values, but the same shape, trace, norm, ...
    if twin == "cols":
        out[0] = np.ascontiguousarray(out[0][:, ::-1])
    elif twin == "flip" and kind in ("plain", "missing", "time", "clf", "reg"):
        out[0][:, 0] *= -1
    elif twin == "rows":
        out[0] = np.ascontiguousarray(out[0][::-1])
    elif twin == "times" and len(out) > 1 and kind != "reg":
        u = np.unique(out[1])
        out[1] = u[::-1][np.searchsorted(u, out[1])]
    if D["dtype"] == "f4":
        out[0] = out[0].astype(np.float32)
    elif D["dtype"] == "int":
        out[0] = np.round(out[0] * 4).astype(int)
    out[0] = _layout(out[0], D["layout"])
    if kind == "reg" and len(out) > 1 and D["layout"] == "F":
        out[1] = np.asfortranarray(out[1])
    return out


def _recipe(v, D):
    if not (isinstance(v, dict) and "$" in v):
        return v
    k = v["$"]
    T, d = D["T"], D["d"]
    if k == "spd":
        rs = np.random.RandomState(v["seed"])
        def one():
            A = rs.randn(d, d) * 0.3
            return A.dot(A.T) + np.eye(d)
        return np.array([one() for _ in range(T)]) if v["stack"] else one()
    if k == "psdkernel":
        rs = np.random.RandomState(v["seed"])
        c = rs.rand(T, 1) * 2
        h = np.sqrt(rs.choice([0.5, 1.0, 2.0], size=T)) if v["seed"] % 2 else np.ones(T)
        return np.exp(-0.5 * (c - c.T) ** 2) * np.outer(h, h)
    if k == "kernelclass":
        from sklearn.gaussian_process import kernels
        return getattr(kernels, v["name"])
    if k == "est":
        return make_est({"est": v["est"], "params": v["params"], "data": D})
    if k == "priors":
        return (1.0 + np.arange(T)) / (T * (T + 1) / 2)
    raise ValueError(k)


def make_params(spec):
    return {k: _recipe(v, spec["data"]) for k, v in spec["params"].items()}


def make_est(spec, params=None):
    cls = _c(CLASSES[spec["est"]][0])
    return cls(**(make_params(spec) if params is None else params))


def post_calls(spec):
    """Read-only calls a user makes on a fitted estimator."""
    name = spec["est"]
    out = []
    if name in ("GL", "LGL", "MGL", "BGL"):
        out += ["score", "get_precision", "error_norm"] + (["mahalanobis"] if name != "MGL" else [])
    elif name in ("TGL", "LTGL", "KTGL", "KLTGL", "STGL", "SLTGL", "FB"):
        out += ["score", "get_precision", "get_observed_precision", "error_norm_t"] + (["transform"] if name in ("STGL", "SLTGL") else [])
    elif name == "LTMD":
        out += ["get_observed_precision"]
    elif name in ("GLO", "GLOC"):
        out += ["predict", "score", "sparse_coef_", "decision_function"]
    elif name == "DA":
        out += ["predict", "score", "decision_function", "predict_proba"]
    elif name == "WP":
        out += ["score"]
    elif name == "GGLM":
        out += ["get_precision"]
    else:
        out += ["score", "get_precision"]
    return out


def do_call(est, call, args):
    if call == "predict":
        return est.predict(args[0])
    if call == "error_norm":
        return est.error_norm(np.eye(args[0].shape[1]))
    if call == "error_norm_t":
        return est.error_norm(np.array([np.eye(args[0].shape[1])] * len(est.classes_)))
    if call in ("decision_function", "predict_proba"):
        return getattr(est, call)(args[0])
    if call == "sparse_coef_":
        return np.asarray(est.sparse_coef_.todense())
    if call in ("get_precision", "get_observed_precision"):
        return getattr(est, call)()
    if call == "mahalanobis":
        return est.mahalanobis(np.nan_to_num(args[0]))
    return getattr(est, call)(*args)
