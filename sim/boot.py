"""Bring the system under test into the simulator process.

Everything random, parallel or I/O-related that regain reaches goes through a
seam installed here *before* regain is imported.  Every seam passes straight
through to the real implementation until a simulated run activates it.
"""
import os
import sys

REPO = os.path.realpath(os.environ.get("REGAIN_REPO", "/repo"))
PKG = os.path.join(REPO, "regain") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENV = {
    "OMP_NUM_THREADS": "1",
    "OMP_THREAD_LIMIT": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TQDM_DISABLE": "0",
}

MODULES = [
    "regain.utils", "regain.validation", "regain.prox", "regain.norm", "regain.scores", "regain.math",
    "regain.update_rules", "regain.clustering",
    "regain.covariance", "regain.covariance.kernel_time_graphical_lasso_",
    "regain.covariance.kernel_latent_time_graphical_lasso_", "regain.covariance.missing_graphical_lasso_",
    "regain.covariance.latent_time_matrix_decomposition", "regain.covariance.infimal_convolution_",
    "regain.forward_backward.time_graphical_lasso_", "regain.forward_backward.forward_backward",
    "regain.bayesian.wishart_process_", "regain.bayesian.wishart_distribution_", "regain.bayesian.sampling",
    "regain.bayesian.stats", "regain.bayesian.gwishart_inference", "regain.bayesian.gaussian_process_",
    "regain.generalized_linear_model.glm_gaussian", "regain.generalized_linear_model.glm_ising",
    "regain.generalized_linear_model.glm_poisson", "regain.generalized_linear_model.glm_time_ising",
    "regain.generalized_linear_model.glm_time_poisson", "regain.linear_model",
    "regain.linear_model.group_lasso_overlap_", "regain.linear_model.lasso_", "regain.linear_model.group_lasso_",
    "regain.wrapper.paspal.glopridu", "regain.discriminant_analysis",
    "regain.model_selection.stability_optimization", "regain.datasets", "regain.datasets.base",
    "regain.datasets.gaussian", "regain.datasets.ising", "regain.datasets.poisson", "regain.datasets.kernels",
    "regain.datasets.multi_class", "regain.data",
]

_done = {}


def boot():
    """Import numpy & co, install seams, import every regain module once."""
    if _done:
        return _done
    for k, v in ENV.items():
        os.environ.setdefault(k, v)
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import importlib
    import warnings

    import joblib, networkx, pandas, scipy.optimize, scipy.stats, scipy.signal, sklearn.model_selection  # noqa
    import sklearn.gaussian_process, sklearn.cluster, sklearn.datasets, matplotlib.pyplot, prox_tv, six, tqdm  # noqa

    from sim import seams

    seams.install_rng()
    seams.install_num()
    missing = {}
    with warnings.catch_warnings():
        # importing regain may itself touch the filters: that is judged by the
        # footprint property in its own fresh interpreter, not here
        # never trust a stale .pyc of the code under test: compile it from source
        sys.pycache_prefix = "/nonexistent-regain-pycache"
        for name in MODULES:
            try:
                importlib.import_module(name)
            except Exception as e:  # a module that cannot be imported is reported, not fatal
                missing[name] = repr(e)
    sys.pycache_prefix = None
    import regain

    real = os.path.realpath(regain.__file__)
    assert real.startswith(PKG), "regain imported from %s, not from %s" % (real, REPO)
    import matplotlib
    matplotlib.use("Agg")
    # warm lazily-imported machinery so that later forks do not differ
    import joblib, networkx, pandas, scipy.optimize, scipy.stats, sklearn.model_selection  # noqa
    import logging, pickle, tempfile, threading, copy, json, random  # noqa
    _done.update(missing=missing, regain=regain)
    return _done
