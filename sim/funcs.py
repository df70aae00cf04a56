"""Catalogue of public functions (solvers, samplers, metrics, operators).

An item is pure JSON: {"fn": name, "seed": n, "d":..., "T":..., "opts": {...}};
build(item) gives (callable, args, kwargs) with freshly made arrays.
"""
import importlib

import numpy as np


def _f(path):
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module("regain." + mod), name)


def spd(rs, d):
    A = rs.randn(d, d) * 0.5
    return A.dot(A.T) + 0.5 * np.eye(d)


def stack(rs, T, d):
    return np.array([spd(rs, d) for _ in range(T)])


def sym(rs, d):
    A = rs.randn(d, d)
    return A + A.T


def _frame(a):
    import pandas as pd
    return pd.DataFrame(a, columns=["c%d" % i for i in range(a.shape[1])])


def graph(rs, d, p=0.4, w=1.0):
    A = np.triu((rs.rand(d, d) < p) * w, 1)
    return A + A.T


C = "covariance."
# name -> (path, builder(rs, d, T, o) -> (args, kwargs), option sampler(rng, d, T), group)
ITEMS = {}


def item(name, path, group, opts=None):
    def deco(b):
        ITEMS[name] = (path, b, opts or (lambda rng, d, T: {}), group)
        return b
    return deco


def _solver_opts(rng, d, T, init=True, relax=False, hist=True, kern=(), rho=True):
    o = {"max_iter": rng.choice([1, 2, 5, 10])}
    if rng.random() < 0.3 and hist:
        o["return_history"] = True
    if rng.random() < 0.2:
        o["compute_objective"] = False
    if rho and rng.random() < 0.4:
        o["rho"] = rng.choice([0.5, 3.0])
    if rho and rng.random() < 0.3:
        o["update_rho_options"] = {"mu": 2}
    if init:
        r = rng.random()
        if r < 0.25:
            o["init"] = "zeros"
        elif r < 0.6:
            o["init"] = {"$": "spd"}
    if relax and rng.random() < 0.4:
        o["over_relax"] = 1.5
    for k in kern:
        if rng.random() < 0.6:
            o[k] = {"$": "kernel"}
    return o


def _kw(rs, o, d, T, st):
    out = {}
    for k, v in o.items():
        if isinstance(v, dict) and v.get("$") == "spd":
            v = stack(rs, T, d) if st else spd(rs, d)
        elif isinstance(v, dict) and v.get("$") == "kernel":
            c = rs.rand(T, 1) * 2
            v = np.exp(-0.5 * (c - c.T) ** 2)
        elif isinstance(v, dict):
            v = dict(v)
        out[k] = v
    return out


item("graphical_lasso", C + "graphical_lasso_.graphical_lasso", "solver",
     lambda r, d, T: _solver_opts(r, d, T, relax=True))(lambda rs, d, T, o: ([spd(rs, d)], _kw(rs, o, d, T, False)))
item("latent_graphical_lasso", C + "latent_graphical_lasso_.latent_graphical_lasso", "solver",
     lambda r, d, T: _solver_opts(r, d, T))(lambda rs, d, T, o: ([spd(rs, d)], _kw(rs, o, d, T, False)))
item("time_graphical_lasso", C + "time_graphical_lasso_.time_graphical_lasso", "solver",
     lambda r, d, T: dict(_solver_opts(r, d, T), psi=r.choice(["l1", "l2", "laplacian", "linf"])))(
         lambda rs, d, T, o: ([stack(rs, T, d)], dict(_kw(rs, o, d, T, True), n_samples=rs.randint(3, 9, T))))
item("latent_time_graphical_lasso", C + "latent_time_graphical_lasso_.latent_time_graphical_lasso", "solver",
     lambda r, d, T: dict(_solver_opts(r, d, T), psi=r.choice(["l1", "l2", "laplacian", "linf"]), phi=r.choice(["l1", "laplacian", "l2", "linf"])))(
         lambda rs, d, T, o: ([stack(rs, T, d)], dict(_kw(rs, o, d, T, True), n_samples=rs.randint(3, 9, T))))
item("kernel_time_graphical_lasso", C + "kernel_time_graphical_lasso_.kernel_time_graphical_lasso", "solver",
     lambda r, d, T: dict(_solver_opts(r, d, T, kern=["kernel"]), psi=r.choice(["l1", "l2", "laplacian", "linf"])))(
         lambda rs, d, T, o: ([stack(rs, T, d)], dict(_kw(rs, o, d, T, True), n_samples=rs.randint(3, 9, T))))
item("kernel_latent_time_graphical_lasso", C + "kernel_latent_time_graphical_lasso_.kernel_latent_time_graphical_lasso", "solver",
     lambda r, d, T: dict(_solver_opts(r, d, T, kern=["kernel_psi", "kernel_phi"]), psi=r.choice(["l1", "laplacian", "l2", "linf"]), phi=r.choice(["l1", "laplacian", "l2", "linf"])))(
         lambda rs, d, T, o: ([stack(rs, T, d)], dict(_kw(rs, o, d, T, True), n_samples=rs.randint(3, 9, T))))
item("latent_time_matrix_decomposition", C + "latent_time_matrix_decomposition.latent_time_matrix_decomposition", "solver",
     lambda r, d, T: dict(_solver_opts(r, d, T, init=False), psi=r.choice(["l1", "laplacian", "l2", "linf"]), phi=r.choice(["l1", "laplacian", "l2", "linf"])))(
         lambda rs, d, T, o: ([np.array([sym(rs, d) for _ in range(T)])], _kw(rs, o, d, T, True)))
item("infimal_convolution", C + "infimal_convolution_.infimal_convolution", "solver",
     lambda r, d, T: _solver_opts(r, d, T, init=False))(lambda rs, d, T, o: ([sym(rs, d)], _kw(rs, o, d, T, False)))
item("tgl_forward_backward", "forward_backward.time_graphical_lasso_.tgl_forward_backward", "solver",
     lambda r, d, T: {"max_iter": r.choice([1, 2, 4]), "time_norm": r.choice([1, 2]), "choose": r.choice(["gamma", "lamda", "fixed"]),
                      "init": r.choice(["empirical", {"$": "spd"}]), "laplacian_penalty": r.random() < 0.3})(
         lambda rs, d, T, o: ([stack(rs, T, d)], dict(_kw(rs, o, d, T, True), n_samples=rs.randint(3, 9, T))))
item("lasso", "linear_model.lasso_.lasso", "solver",
     lambda r, d, T: {"max_iter": r.choice([1, 5, 20]), "alpha": r.choice([1.0, 1.5]), "lamda": r.choice([0.1, 1.0])})(
         lambda rs, d, T, o: ([rs.randn(r_rows(d, T), d), rs.randn(r_rows(d, T))], dict(o)))
item("lasso_wide", "linear_model.lasso_.lasso", "solver",
     lambda r, d, T: {"max_iter": r.choice([1, 5, 20])})(
         lambda rs, d, T, o: ([rs.randn(2, d + 2), rs.randn(2)], dict(o)))
item("group_lasso", "linear_model.group_lasso_.group_lasso", "solver",
     lambda r, d, T: {"max_iter": r.choice([1, 5, 20]), "lamda": r.choice([0.1, 1.0])})(
         lambda rs, d, T, o: ([rs.randn(r_rows(d, T), d), rs.randn(r_rows(d, T))], dict(o, groups=[[0], list(range(1, d))])))
item("group_lasso_overlap", "linear_model.group_lasso_overlap_.group_lasso_overlap", "solver",
     lambda r, d, T: {"max_iter": r.choice([1, 5, 20]), "lamda": r.choice([0.1, 1.0])})(
         lambda rs, d, T, o: ([rs.randn(r_rows(d, T), d), rs.randn(r_rows(d, T))], dict(o, groups=[np.array([0, 1]), np.arange(1, d)])))


def r_rows(d, T):
    return 2 * d + T


item("ising_sampler", "datasets.ising.ising_sampler", "sampler",
     lambda r, d, T: {"n": 3, "max_iter": 5, "method": r.choice(["MH", "CFTP", "direct"]), "responses": r.choice([[0, 1], [-1, 1]])})(
         lambda rs, d, T, o: ([graph(rs, d, 0.5, 0.5) + np.eye(d), rs.rand(d) * 0.1], dict(o, responses=list(o["responses"]))))
item("poisson_sampler", "datasets.poisson.poisson_sampler", "sampler",
     lambda r, d, T: {"n_samples": 4, "_type": r.choice(["LPGM", "TPGM", "SPGM"]), "max_iter": 4})(
         lambda rs, d, T, o: ([graph(rs, d, 0.5, -0.3)], dict(o)))

for _n in ("soft_thresholding", "soft_thresholding_off_diagonal", "blockwise_soft_thresholding", "blockwise_soft_thresholding_symmetric", "prox_laplacian"):
    item(_n, "prox." + _n, "prox")(lambda rs, d, T, o: ([np.array([sym(rs, d) for _ in range(T)]), 0.3], {}))
for _n in ("prox_logdet", "prox_trace_indicator"):
    item(_n, "prox." + _n, "prox")(lambda rs, d, T, o: ([sym(rs, d), 0.3], {}))
item("prox_linf", "prox.prox_linf", "prox")(lambda rs, d, T, o: ([np.array([sym(rs, d) for _ in range(T)]), 0.3], {}))
item("prox_FL", "prox.prox_FL", "prox", lambda r, d, T: {"p": r.choice([1, 2]), "symmetric": True})(
    lambda rs, d, T, o: ([np.array([sym(rs, d) for _ in range(T)]), 0.2, 0.1], dict(o)))
for _n in ("l1_norm", "l1_od_norm"):
    item(_n, "norm." + _n, "metric")(lambda rs, d, T, o: ([np.array([sym(rs, d) for _ in range(T)])], {}))
item("structure_error", "utils.structure_error", "metric",
     lambda r, d, T: {"thresholding": r.random() < 0.5, "no_diagonal": r.random() < 0.5, "eps": 0.3})(
         lambda rs, d, T, o: ([stack(rs, T, d) * (rs.rand(T, d, d) < .6), stack(rs, T, d) * (rs.rand(T, d, d) < .6)], dict(o)))
item("error_norm", "utils.error_norm", "metric", lambda r, d, T: {"upper_triangular": r.random() < .5, "scaling": r.random() < .5})(
    lambda rs, d, T, o: ([spd(rs, d), spd(rs, d)], dict(o)))
item("error_norm_time", "utils.error_norm_time", "metric")(lambda rs, d, T, o: ([stack(rs, T, d), stack(rs, T, d)], {}))
item("error_rank", "utils.error_rank", "metric")(lambda rs, d, T, o: ([stack(rs, T, d), stack(rs, T, d)], {}))
item("threshold", "utils.threshold", "metric", lambda r, d, T: {"threshmin": -0.2, "threshmax": 0.5})(
    lambda rs, d, T, o: ([sym(rs, d)], dict(o)))
item("retain_top_n", "utils.retain_top_n", "metric")(lambda rs, d, T, o: ([sym(rs, d), 3], {}))
item("top_n_indexes", "utils.top_n_indexes", "metric")(lambda rs, d, T, o: ([sym(rs, d), 3], {}))
item("logentropy_normalize", "utils.logentropy_normalize", "metric")(lambda rs, d, T, o: ([_frame(rs.rand(6, d) + .1)], {}))
item("is_pos_def", "utils.is_pos_def", "metric")(lambda rs, d, T, o: ([sym(rs, d)], {}))
item("is_pos_semidef", "utils.is_pos_semidef", "metric")(lambda rs, d, T, o: ([sym(rs, d)], {}))
item("positive_definite", "utils.positive_definite", "metric")(lambda rs, d, T, o: ([stack(rs, T, d)], {}))
item("alpha_heuristic", "utils.alpha_heuristic", "metric")(lambda rs, d, T, o: ([spd(rs, d), 20], {}))
item("convert_data_to_2d", "utils.convert_data_to_2d", "metric")(lambda rs, d, T, o: ([rs.randn(T, 4, d)], {}))
item("log_likelihood", "scores.log_likelihood", "metric")(lambda rs, d, T, o: ([spd(rs, d), spd(rs, d)], {}))
item("log_likelihood_t", "scores.log_likelihood_t", "metric")(lambda rs, d, T, o: ([stack(rs, T, d), stack(rs, T, d)], {}))
item("init_precision", C + "graphical_lasso_.init_precision", "metric")(lambda rs, d, T, o: ([stack(rs, T, d)], {"mode": stack(rs, T, d)}))
item("graph_k_means", "clustering.graph_k_means", "metric")(
    lambda rs, d, T, o: ([[graph(rs, d) for _ in range(T + 3)], 2], {}))
item("build_adjacency_matrix", "generalized_linear_model.base.build_adjacency_matrix", "metric", lambda r, d, T: {"how": r.choice(["union", "intersection"])})(
    lambda rs, d, T, o: ([[rs.randn(d - 1) * (rs.rand(d - 1) < .6) for _ in range(d)]], dict(o)))

for _n in ("BIC", "EBIC", "EBIC_m"):
    item(_n, "scores." + _n, "metric")(lambda rs, d, T, o: ([spd(rs, d), spd(rs, d) * (np.abs(sym(rs, d)) < 2)], {}))
    item(_n + "_t", "scores." + _n + "_t", "metric")(lambda rs, d, T, o: ([stack(rs, T, d), stack(rs, T, d)], {}))
item("time_graphical_lasso_node", C + "time_graphical_lasso_.time_graphical_lasso", "solver",
     lambda r, d, T: {"max_iter": r.choice([1, 3]), "psi": "node"})(
         lambda rs, d, T, o: ([stack(rs, T, d)], dict(o, n_samples=rs.randint(3, 9, T))))
item("prox_node_penalty", "prox.prox_node_penalty", "prox", lambda r, d, T: {"max_iter": r.choice([2, 20])})(
    lambda rs, d, T, o: ([np.concatenate([[sym(rs, d) for _ in range(T)], [sym(rs, d) for _ in range(T)]], axis=1), 0.3], dict(o)))
item("prox_logdet_ala_ma", "prox.prox_logdet_ala_ma", "prox")(lambda rs, d, T, o: ([sym(rs, d), 0.3], {}))
item("prox_FL_asymmetric", "prox.prox_FL", "prox", lambda r, d, T: {"p": r.choice([1, 2])})(
    lambda rs, d, T, o: ([rs.randn(T, d, d), 0.2, 0.1], dict(o)))
item("prox_linf_1d", "prox.prox_linf_1d", "prox")(lambda rs, d, T, o: ([rs.randn(d), 0.3], {}))
item("soft_thresholding_vector", "prox.soft_thresholding_vector", "prox")(lambda rs, d, T, o: ([rs.randn(d), 0.3], {}))
item("batch_logdet", "math.batch_logdet", "metric")(lambda rs, d, T, o: ([stack(rs, T, d)], {}))
item("create_from_diagonal", "math.create_from_diagonal", "metric")(lambda rs, d, T, o: ([rs.randn(T, d)], {}))
item("get_diagonal", "math.get_diagonal", "view")(lambda rs, d, T, o: ([stack(rs, T, d)], {}))
item("upper_to_full", "utils.upper_to_full", "metric")(lambda rs, d, T, o: ([rs.randn(d * (d + 1) // 2)], {}))
item("matrix_l1_norm", "norm.matrix_l1_norm", "metric")(lambda rs, d, T, o: ([sym(rs, d)], {}))
item("vector_p_norm", "norm.vector_p_norm", "metric", lambda r, d, T: {"p": r.choice([1, 2])})(lambda rs, d, T, o: ([rs.randn(d)], dict(o)))
item("node_penalty", "norm.node_penalty", "metric")(lambda rs, d, T, o: ([sym(rs, d)], {}))
item("error_norm_plain", "utils.error_norm", "metric", lambda r, d, T: {"norm": "frobenius", "squared": r.random() < .5})(
    lambda rs, d, T, o: ([spd(rs, d), spd(rs, d)], dict(o)))
item("structure_error_flat", "utils.structure_error", "metric", lambda r, d, T: {"thresholding": r.random() < 0.5, "eps": 0.3})(
    lambda rs, d, T, o: ([spd(rs, d) * (rs.rand(d, d) < .6), spd(rs, d)], dict(o)))
item("check_array_dimensions", "validation.check_array_dimensions", "view", lambda r, d, T: {"time_on_axis": r.choice(["first", "last"])})(
    lambda rs, d, T, o: ([rs.randn(T, d, d)], dict(o)))
item("check_input", "validation.check_input", "metric")(lambda rs, d, T, o: ([[rs.randn(5, d) for _ in range(T)]], {}))
item("GWP_construct", "bayesian.sampling.GWP_construct", "metric")(lambda rs, d, T, o: ([rs.randn(2, d, T), np.tril(rs.randn(d, d))], {}))
item("t_mvn_logpdf", "bayesian.stats.t_mvn_logpdf", "metric")(lambda rs, d, T, o: ([rs.randn(T, 4, d), stack(rs, T, d).T], {}))
item("log_lik_frob", "bayesian.stats.log_lik_frob", "metric")(lambda rs, d, T, o: ([stack(rs, T, d), stack(rs, T, d), 0.5], {}))
item("genInvCov", "datasets.kernels.genInvCov", "sampler")(lambda rs, d, T, o: ([d], {}))
item("load_finance", "data.base.load_finance", "loader", lambda r, d, T: {"condensed": True})(lambda rs, d, T, o: ([], dict(o)))
item("load_food_search_trends", "data.base.load_food_search_trends", "loader", lambda r, d, T: {"groups": r.random() < .5})(lambda rs, d, T, o: ([], dict(o)))

GWI = "bayesian.gwishart_inference."
item("mk_all_ugs", GWI + "mk_all_ugs", "metric")(lambda rs, d, T, o: ([3], {}))
item("markov_blankets", GWI + "markov_blankets", "metric", lambda r, d, T: {"boolean": r.random() < .5, "unique": r.random() < .5})(
    lambda rs, d, T, o: ([[graph(rs, d) + np.eye(d) for _ in range(T)]], dict(o)))
item("score_blankets", GWI + "score_blankets", "metric")(lambda rs, d, T, o: ([[rs.rand(2, d) < .5 for _ in range(d)], rs.randn(8, d)], {}))
item("GWishartScore", GWI + "GWishartScore", "metric",
     lambda r, d, T: {"score_method": r.choice(["bic", "laplace", "diaglaplace"]), "mode": r.choice(["covsel", "gl"]), "d0": r.choice([3, 6])})(
         lambda rs, d, T, o: ([rs.randn(8, d), np.triu(rs.rand(d, d) < .5, 1) | np.eye(d, dtype=bool)], dict(o, S0=spd(rs, d))))
item("precision_selection", GWI + "precision_selection", "metric")(
    lambda rs, d, T, o: ([np.triu(rs.rand(d, d) < .5, 1) | np.eye(d, dtype=bool), d, spd(rs, d)], {}))
for _n in ("h", "first_derivative_h", "first_derivative_h_version2", "second_derivative_h_version2"):
    item("laplace_" + _n, "bayesian._laplace_approximation." + _n, "metric")(lambda rs, d, T, o: ([spd(rs, d), spd(rs, d)], {}))
item("error_norm_stack", "utils.error_norm", "metric", lambda r, d, T: {"n": r.random() < .5, "upper_triangular": r.random() < .5})(
    lambda rs, d, T, o: ([stack(rs, T, d) * (rs.rand(T, d, d) < .7), stack(rs, T, d)], dict(o)))
item("error_norm_nonzero", "utils.error_norm", "metric")(lambda rs, d, T, o: ([graph(rs, d) + np.eye(d), spd(rs, d)], {"nonzero": True}))
item("structure_error_diag", "utils.structure_error", "metric", lambda r, d, T: {"no_diagonal": True})(
    lambda rs, d, T, o: ([spd(rs, d), spd(rs, d) * (rs.rand(d, d) < .6)], dict(o)))
item("is_pos_def_eig", "utils.is_pos_def", "metric")(lambda rs, d, T, o: ([spd(rs, d)], {"chol": False}))
item("positive_definite_2d", "utils.positive_definite", "metric")(lambda rs, d, T, o: ([sym(rs, d)], {}))
item("alpha_heuristic_t", "utils.alpha_heuristic", "metric")(lambda rs, d, T, o: ([stack(rs, T, d), 20], {}))
item("get_representative", "clustering.get_representative", "metric")(lambda rs, d, T, o: ([[graph(rs, d) for _ in range(T)]], {}))
item("compute_distances", "clustering.compute_distances", "metric")(lambda rs, d, T, o: ([[graph(rs, d) for _ in range(T)], [graph(rs, d) for _ in range(2)]], {}))
item("check_input_3d", "validation.check_input_3d", "metric")(lambda rs, d, T, o: ([rs.randn(T, 5, d)], {}))

NAMES = list(ITEMS)


def gen_item(rng, groups=None):
    names = [n for n in NAMES if groups is None or ITEMS[n][3] in groups]
    n = rng.choice(names)
    d, T = rng.choice([3, 3, 4, 5]), rng.choice([2, 3, 4])
    return {"fn": n, "seed": rng.randrange(10 ** 6), "d": d, "T": T, "opts": ITEMS[n][2](rng, d, T)}


def build(it):
    path, b, _, _ = ITEMS[it["fn"]]
    rs = np.random.RandomState(it["seed"])
    args, kw = b(rs, it["d"], it["T"], it["opts"])
    return _f(path), args, kw
