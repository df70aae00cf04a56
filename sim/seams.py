"""Seams: the places where regain meets randomness.

The np.random convenience functions are replaced by pass-through wrappers, so
that a run can (a) count draws, (b) replace draws by adversarial but legal
values, and (c) make a draw fail.  A wrapper with nothing active calls the
original bound method and consumes the stream exactly as numpy does.
"""
import functools

import numpy as np

NAMES = [
    "rand", "randn", "uniform", "normal", "randint", "choice", "permutation", "shuffle", "poisson", "binomial",
    "multivariate_normal", "lognormal", "random", "random_sample", "exponential", "gamma", "beta", "chisquare", "standard_normal",
]

ORIG = {}
ACTIVE = None  # an RngFault object or None
SIGN = None


def _wrap(name, orig):
    @functools.wraps(orig)
    def draw(*a, **k):
        act = ACTIVE
        if act is None:
            return orig(*a, **k)
        return act.draw(name, orig, a, k)

    draw.__sim_wrapped__ = orig
    return draw


def install_rng():
    if ORIG:
        return
    for n in NAMES:
        o = getattr(np.random, n)
        ORIG[n] = o
        setattr(np.random, n, _wrap(n, o))


class RngFault:
    """Replaces / fails chosen draws.  `actions` maps draw index -> action."""

    def __init__(self, actions=None, mode=None, rng=None, rate=0.0):
        self.actions = actions or {}
        self.mode = mode
        self.rate = rate
        self.rng = rng
        self.n = 0
        self.fired = {}

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def draw(self, name, orig, a, k):
        i = self.n
        self.n += 1
        act = self.actions.get(i)
        if act is None and self.rng is not None and self.rng.random() < self.rate:
            act = self.mode
        out = orig(*a, **k)
        if act is None:
            return out
        return self.mutate(name, act, out, a, k)

    def mutate(self, name, act, out, a, k):
        if act == "linalg":
            if name == "multivariate_normal":
                self.fire("rng_linalg_error")
                raise np.linalg.LinAlgError("simulated: SVD did not converge")
            return out
        arr = np.asarray(out)
        if name in ("rand", "random", "random_sample"):
            lo, hi = 0.0, 1.0
            v = {"low": lo, "high": np.nextafter(hi, lo)}.get(act)
            if v is None:
                return out
            self.fire("rng_" + act)
            return v if np.isscalar(out) or arr.ndim == 0 else np.full(arr.shape, v)
        if name == "uniform":
            lo = a[0] if len(a) > 0 else k.get("low", 0.0)
            hi = a[1] if len(a) > 1 else k.get("high", 1.0)
            if act not in ("low", "high") or np.ndim(lo) or np.ndim(hi):
                return out
            v = lo if act == "low" else np.nextafter(hi, lo)
            self.fire("rng_" + act)
            return float(v) if arr.ndim == 0 else np.full(arr.shape, float(v))
        if name in ("randn", "normal", "standard_normal"):
            if act == "repeat" and arr.ndim and arr.size:
                self.fire("rng_repeat")
                return np.full(arr.shape, arr.flat[0])
            return out
        if name == "randint":
            lo = a[0] if len(a) > 0 else k.get("low")
            hi = a[1] if len(a) > 1 else k.get("high", None)
            if hi is None:
                lo, hi = 0, lo
            if act not in ("low", "high") or np.ndim(lo) or np.ndim(hi):
                return out
            v = lo if act == "low" else hi - 1
            self.fire("rng_" + act)
            return int(v) if arr.ndim == 0 else np.full(arr.shape, v, dtype=arr.dtype)
        if name == "permutation":
            if act in ("low", "high") and arr.ndim == 1:
                self.fire("rng_" + act)
                s = np.sort(arr)
                return s if act == "low" else s[::-1].copy()
            return out
        if name == "poisson":
            if act == "low":
                self.fire("rng_low")
                return 0 if arr.ndim == 0 else np.zeros_like(arr)
            return out
        return out


class active:
    def __init__(self, fault):
        self.fault = fault

    def __enter__(self):
        global ACTIVE
        ACTIVE = self.fault
        return self.fault

    def __exit__(self, *exc):
        global ACTIVE
        ACTIVE = None


# -- numerical routines below the library ---------------------------------------
LINALG = {
    "numpy.linalg": ["eigh", "eigvalsh", "svd", "inv", "cholesky", "slogdet", "det", "pinv", "solve", "lstsq", "eig", "eigvals", "matrix_rank"],
    "scipy.linalg": ["eigh", "eigvalsh", "svd", "inv", "cholesky", "pinvh", "pinv", "solve", "solve_triangular", "lu_factor", "lu_solve", "lu",
                     "det", "sqrtm", "cho_factor", "cho_solve", "block_diag", "norm"],
    "scipy.optimize": ["minimize", "minimize_scalar", "line_search"],
}
NUM = None  # a NumFault or None
_num_installed = []


class NumFault:
    """Fail the n-th (1-based) call of a numerical routine made by library code."""

    def __init__(self, at=None, make=None):
        self.at, self.make, self.n, self.fired, self.log = at, make, 0, None, []

    def hit(self, name):
        self.n += 1
        self.log.append(name)
        if self.at is not None and self.n == self.at:
            self.fired = name
            raise self.make("simulated failure of %s" % name)


def _wrap_num(full, orig):
    import sys as _sys

    from sim.tracer import in_regain

    @functools.wraps(orig)
    def routine(*a, **k):
        act = NUM
        if act is not None and in_regain(_sys._getframe(1).f_code):
            act.hit(full)
        return orig(*a, **k)

    routine.__sim_wrapped__ = orig
    return routine


def install_num():
    import importlib

    if _num_installed:
        return
    for m, names in LINALG.items():
        mod = importlib.import_module(m)
        for n in names:
            o = getattr(mod, n, None)
            if o is not None and not hasattr(o, "__sim_wrapped__"):
                setattr(mod, n, _wrap_num(m + "." + n, o))
                _num_installed.append(m + "." + n)


class numerics:
    def __init__(self, fault):
        self.fault = fault

    def __enter__(self):
        global NUM
        NUM = self.fault
        return self.fault

    def __exit__(self, *exc):
        global NUM
        NUM = None
