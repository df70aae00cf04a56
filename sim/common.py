"""Helpers shared by the property modules."""
import random
import warnings

import numpy as np

from sim import proc, state, zoo
from sim.tracer import Tracer, pick_fault


def quiet():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def seed_streams(s):
    np.random.seed(s % (2 ** 32))
    random.seed(s)


def outcome(fn):
    """("ok", value) or ("raise", exception type name, message)."""
    try:
        return ("ok", fn())
    except Exception as e:
        return ("raise", type(e).__name__, str(e)[:200])


def fit_only(spec, data, stream):
    seed_streams(stream)
    est = zoo.make_est(spec)
    args = zoo.make_data(data)
    return est, args, outcome(lambda: est.fit(*args))


def fresh_fit(spec, data, stream, calls=()):
    """Reference: new estimator, fitted once, in a pristine fork of the booted process."""

    def body():
        quiet()
        est, args, out = fit_only(spec, data, stream)
        if out[0] != "ok":
            return {"fit": out}
        res = {"fit": ("ok",), "state": state.snapshot(est), "calls": {}}
        for c in calls:
            o = outcome(lambda: state.encode(zoo.do_call(est, c, args)))
            res["calls"][c] = o
        return res

    return proc.call(body)


def record(spec, data, stream, opcodes=False):
    """Sites executed by one fault-free fit, recorded in a pristine fork."""

    def body():
        quiet()
        seed_streams(stream)
        est = zoo.make_est(spec)
        args = zoo.make_data(data)
        with Tracer(record=True, opcodes=opcodes) as tr:
            outcome(lambda: est.fit(*args))
        return tr.seq

    return proc.call(body)


def params_image(est):
    """What the user set, as get_params reports it (nested estimators by parameters)."""
    out = {}
    for k, v in est.get_params(deep=True).items():
        if hasattr(v, "get_params") and not isinstance(v, type):
            out[k] = ("est", type(v).__name__)
        else:
            out[k] = state.encode(v)
    return out


def arrays_in_recipes(spec):
    return any(isinstance(v, dict) and v.get("$") in ("spd", "psdkernel", "priors") for v in spec["params"].values())


def alt_data(rng, spec):
    """Another data recipe this spec's parameters can be fitted on."""
    name = spec["est"]
    if rng.random() < 0.4:  # easily confused with the original: same shape and summary statistics
        return dict(spec["data"], twin=rng.choice(["cols", "flip", "flip", "rows", "times"]))
    d = zoo.gen_data(rng, name)
    if rng.random() < 0.25:
        d = dict(spec["data"], seed=d["seed"])
    keep = ["kind"]
    if name in ("GLO", "GLOC"):
        keep += ["d"]
    if arrays_in_recipes(spec):
        keep += ["d", "T"]
    for k in keep:
        d[k] = spec["data"][k]
    return d


def resolve_fault(spec, data, stream, f):
    """A plan stores a fault either as fractions or as a concrete site."""
    if "site" in f:
        return f
    seq = record(spec, data, stream)
    return pick_fault(seq, f["kind"], f["u_site"], f["u_occ"])
