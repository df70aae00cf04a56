"""Data generators of regain.  A request is pure JSON: {"gen": name, "kw": {...}}."""
import importlib

import numpy as np


def _f(path):
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module("regain." + mod), name)


GENS = {
    "cov": "datasets.base.make_dataset", "fixed_sparsity": "datasets.base.make_dataset", "sin": "datasets.base.make_dataset",
    "ma": "datasets.base.make_dataset", "gp": "datasets.base.make_dataset", "ising": "datasets.base.make_dataset", "poisson": "datasets.base.make_dataset",
    "my": "datasets.gaussian.data_Meinshausen_Yuan", "rbf": "datasets.kernels.make_RBF", "cluster": "datasets.kernels.make_cluster_representative",
    "ising_theta": "datasets.ising.ising_theta_generator", "poisson_theta": "datasets.poisson.poisson_theta_generator",
    "starting": "datasets.gaussian.make_starting", "ell": "datasets.gaussian.make_ell", "multi": "datasets.multi_class.make_multiclass_dataset",
    "ticc": "datasets.kernels.make_ticc", "ticc1": "datasets.kernels.make_ticc_dataset", "ticc2": "datasets.kernels.make_ticc_dataset_new",
    "ticc3": "datasets.kernels.make_ticc_dataset_v3",
    "fede": "datasets.base.make_dataset", "mak": "datasets.base.make_dataset", "mys": "datasets.gaussian.data_Meinshausen_Yuan_sparse_latent",
}
TICC = {"ticc": 1, "ticc1": 1, "ticc2": 1, "ticc3": 1}  # these seed the global stream themselves, by design
WEIGHTS = {"cov": 6, "fixed_sparsity": 2, "sin": 2, "ma": 1, "gp": 1, "ising": 3, "poisson": 3, "my": 1, "rbf": 1, "ising_theta": 2, "poisson_theta": 2,
           "starting": 1, "ell": 1, "multi": 1, "fede": 1, "mak": 1, "mys": 1, "cluster": 1}
NAMES = list(WEIGHTS)
HAS_STATE = {"my", "mys"}


def gen_request(rng, names=None):
    names = names or NAMES
    g = rng.choices(names, weights=[WEIGHTS.get(n, 1) for n in names])[0]
    kw = {}
    if g in ("cov", "fixed_sparsity", "sin", "ma", "gp", "ising", "poisson", "fede", "mak"):
        kw = {"n_samples": rng.choice([3, 5, 10]), "n_dim_obs": rng.choice([4, 5, 6, 8, 12]), "T": rng.choice([1, 2, 3, 5, 9])}
        if rng.random() < 0.3:
            kw["time_on_axis"] = "last"
    if g == "cov":
        kw["n_dim_lat"] = rng.choice([0, 1, 2, 2, 3])
        kw["update_ell"] = rng.choice(["l1", "l2", "fixed", "yuan"])
        kw["update_theta"] = rng.choice(["l1", "l2"])
        kw["normalize_starting_matrices"] = rng.random() < 0.3
        kw["degree"] = rng.choice([1, 2, 3])
        kw["epsilon"] = rng.choice([1e-3, 1e-2, 1e-1, 0.5])
        kw["keep_sparsity"] = rng.random() < 0.3
        kw["proportional"] = rng.random() < 0.3
    elif g in ("fixed_sparsity", "gp"):
        kw["n_dim_lat"] = rng.choice([1, 2])
        kw["mode"] = g
        kw["degree"] = rng.choice([1, 2])
        if g == "gp":
            kw["n_dim_lat"] = rng.choice([0, 1])
    elif g == "sin":
        kw.update(mode="sin", n_dim_lat=0, shape=rng.choice(["smooth", "square"]), closeness=rng.choice([1, 2.4]))
    elif g == "ma":
        kw.update(mode="ma", n_dim_lat=0, sparsity=rng.choice([0.1, 0.3]))
        kw["n_dim_obs"] = rng.choice([12, 20, 25])
    elif g == "ising":
        kw.update(distribution="ising", n_dim_lat=0, update_theta="l1", random_graph=rng.choice(["scale-free", "erdos-renyi", "small-world", "other"]),
                  change=rng.choice([1, 2, 3]))
        kw["n_dim_obs"] = min(kw["n_dim_obs"], 6)
        kw["n_samples"] = 3
        kw["T"] = min(kw["T"], 3)
    elif g == "poisson":
        kw.update(distribution="poisson", n_dim_lat=0, update_theta="l1", random_graph=rng.choice(["scale-free", "erdos-renyi", "small-world", "other"]),
                  n_to_change=rng.choice([1, 2, 3]))
    elif g == "fede":
        kw.update(mode="fede", n_dim_lat=rng.choice([1, 2, 3]), epsilon=rng.choice([1e-3, 1e-2]))
    elif g == "mak":
        kw.update(mode="mak", n_dim_lat=0, sparsity=rng.choice([0.1, 0.3]))
        kw["n_dim_obs"] = rng.choice([20, 25, 41])
    elif g == "mys":
        kw = {"p": rng.choice([10, 12, 16]), "h": rng.choice([1, 2, 3]), "n": 5, "T": rng.choice([1, 3]), "random_state": rng.choice([None, 0, 5, 77])}
    elif g == "cluster":
        kw = {"n_dim": rng.choice([6, 8, 10]), "n_clusters": rng.choice([2, 3]), "T": rng.choice([6, 8, 9, 11, 15]), "n_samples": rng.choice([1, 4]),
              "shuffle": rng.random() < 0.4}
    elif g == "ticc":
        kw = {"num_blocks": rng.choice([1, 2, 4]), "n_dim_obs": rng.choice([2, 3, 5]), "sparsity_inv_matrix": rng.choice([0.2, 0.5]), "rand_seed": rng.choice([0, 3, 11])}
    elif g in TICC:
        kw = {"clusters": rng.choice([[0, 1, 0], [0, 1], [2, 0, 1, 2], [1, 1, 0]]), "n_dim": rng.choice([2, 3]), "w_size": rng.choice([2, 2, 4]), "n_samples": rng.choice([4, 6])}
        kw["T"] = len(kw["clusters"]) * rng.choice([1, 2])
    elif g == "my":
        kw = {"p": rng.choice([4, 6, 10]), "h": rng.choice([1, 2]), "n": 5, "T": rng.choice([1, 3]), "random_state": rng.choice([None, 0, 5, 77])}
    elif g == "rbf":
        kw = {"n_dim_obs": rng.choice([3, 5]), "n_dim_lat": rng.choice([1, 2]), "T": rng.choice([1, 3])}
    elif g == "ising_theta":
        kw = {"n_dim_obs": rng.choice([4, 6, 9]), "T": rng.choice([1, 2, 4, 9]), "random_graph": rng.choice(["scale-free", "erdos-renyi", "small-world", "other"]),
              "change": rng.choice([1, 2, 4]), "degree": 2, "probability": rng.choice([0.1, 0.5])}
    elif g == "poisson_theta":
        kw = {"n_dim_obs": rng.choice([4, 6, 9]), "T": rng.choice([1, 2, 4, 9]), "random_graph": rng.choice(["scale-free", "erdos-renyi", "small-world", "other"]),
              "n_to_change": rng.choice([1, 2, 4]), "degree": 2, "probability": rng.choice([0.1, 0.5])}
    elif g == "starting":
        kw = {"n_dim_obs": rng.choice([4, 6, 10]), "n_dim_lat": rng.choice([1, 2]), "degree": rng.choice([1, 2]), "normalize": rng.random() < 0.5}
    elif g == "ell":
        kw = {"n_dim_obs": rng.choice([4, 6, 10]), "n_dim_lat": rng.choice([1, 2, 3])}
    elif g == "multi":
        kw = {"n_dim_obs": rng.choice([5, 8]), "n_samples": 4, "n_classes": rng.choice([2, 3]), "random_state": rng.choice([None, 3])}
        kw["_type"] = rng.choice(["scale-free", "erdos-renyi"])
        kw["distribution"] = rng.choice(["gaussian", "ising", "poisson", ["gaussian", "ising"], ["gaussian", "poisson"]])
    return {"gen": g, "kw": kw}


def call(req):
    return _f(GENS[req["gen"]])(**req["kw"])
