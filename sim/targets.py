"""A target is one library call the simulator can run, interrupt and compare.

prepare(target) -> (thunk, collect): thunk() performs the call; collect(value)
gives an encoded image of everything the caller can observe of a success.
"""
from sim import funcs, gens, state, zoo


def gen_target(rng, est_names=None, parts=(("est", 6), ("call", 1), ("fn", 3), ("data", 1)), **kw):
    kind = rng.choices([p[0] for p in parts], weights=[p[1] for p in parts])[0]
    if kind == "est":
        return {"t": "est", "spec": zoo.gen_spec(rng, est_names)}
    if kind == "call":
        s = zoo.gen_spec(rng, est_names)
        return {"t": "call", "spec": s, "call": rng.choice(zoo.post_calls(s))}
    if kind == "fn":
        return {"t": "fn", "item": funcs.gen_item(rng)}
    return {"t": "data", "req": gens.gen_request(rng)}


def name(t):
    return {"est": lambda: t["spec"]["est"], "call": lambda: "%s.%s" % (t["spec"]["est"], t["call"]),
            "fn": lambda: t["item"]["fn"], "data": lambda: "make:" + t["req"]["gen"]}[t["t"]]()


def prepare(t):
    if t["t"] == "est":
        est = zoo.make_est(t["spec"])
        args = zoo.make_data(t["spec"]["data"])
        return (lambda: est.fit(*args)), (lambda r: state.snapshot(est))
    if t["t"] == "call":
        est = zoo.make_est(t["spec"])
        args = zoo.make_data(t["spec"]["data"])
        try:
            est.fit(*args)
        except Exception:
            return None, None
        return (lambda: zoo.do_call(est, t["call"], args)), state.encode
    if t["t"] == "fn":
        f, a, k = funcs.build(t["item"])
        return (lambda: f(*a, **k)), state.encode
    return (lambda: gens.call(t["req"])), state.encode


def shrink(t):
    """Smaller variants of a target."""
    import copy
    if t["t"] in ("est", "call"):
        for k in list(t["spec"]["params"]):
            if k in ("groups", "estimator"):
                continue
            c = copy.deepcopy(t)
            del c["spec"]["params"][k]
            yield c
        for k, v in (("ragged", False), ("perm", False), ("labels", "int"), ("layout", "C"), ("dtype", "f8")):
            if t["spec"]["data"].get(k, v) != v:
                c = copy.deepcopy(t)
                c["spec"]["data"][k] = v
                yield c
    elif t["t"] == "fn":
        for k in list(t["item"]["opts"]):
            if k in ("responses", "method", "max_iter", "n", "n_samples", "_type"):
                continue
            c = copy.deepcopy(t)
            del c["item"]["opts"][k]
            yield c
