"""R02: what the caller handed over is never modified, at any instant, and results do not alias it."""
import copy

import numpy as np

from sim import common, funcs, state, zoo
from sim.tracer import Tracer, pick_fault

PID = "R02"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 40000}
RULE = ("a run counts when at least one caller-owned array or container was watched over at least 20 simulated steps; "
        "distinct = distinct (callee, options, layout, fault site) tuples")
STATE_MEASURE = "distinct source lines of regain at which every caller-owned array was compared with its original bytes"
STUB = ["none: the caller is simulated, all library code is real"]
ASSUMPTIONS = ["documented in-place helpers (utils.ensure_posdef, utils.normalize_matrix) are outside the property"]


class Watch:
    """Original bytes of everything the caller owns, compared at simulated steps."""

    def __init__(self, named):
        self.arrays, self.rest = [], []
        for name, v in named:
            self.add(name, v)
        self.bad = None
        self.sites = set()

    def add(self, name, v):
        if isinstance(v, np.ndarray) and v.dtype != object:
            own = v.base if isinstance(v.base, np.ndarray) else v
            self.arrays.append((name, own, own.tobytes(), own.dtype, own.shape))
            self.rest.append((name, v, state.fingerprint(v)))
        elif isinstance(v, (list, tuple, dict)) or type(v).__module__.startswith("pandas"):
            self.rest.append((name, v, state.fingerprint(v)))
            for a in state.arrays_in(v) if isinstance(v, (list, tuple, dict)) else []:
                self.arrays.append((name, a, a.tobytes(), a.dtype, a.shape))

    def probe(self, frame):
        self.sites.add((frame.f_code.co_filename, frame.f_lineno))
        if self.bad:
            return
        for name, a, b, _, _ in self.arrays:
            if a.tobytes() != b:
                self.bad = "%s modified, first seen at %s line %d in %s" % (
                    name, frame.f_code.co_filename.rsplit("/", 1)[1], frame.f_lineno, frame.f_code.co_name)
                return

    def final(self, when):
        if self.bad:
            return self.bad
        for name, a, b, dt, sh in self.arrays:
            if a.tobytes() != b or a.dtype != dt or a.shape != sh:
                return "%s modified (%s)" % (name, when)
        for name, v, f in self.rest:
            if state.fingerprint(v) != f:
                return "%s modified (%s)" % (name, when)
        return None


def generate(rng, i, tier):
    if rng.random() < 0.65:
        p = {"target": "est", "spec": zoo.gen_spec(rng)}
        p["alt"] = common.alt_data(rng, p["spec"])
    else:
        p = {"target": "fn", "item": funcs.gen_item(rng), "layout": rng.choice(["C", "F", "C", "view"])}
    p["stream"] = rng.randrange(10 ** 6)
    p["fault"] = None
    if rng.random() < 0.3:
        p["fault"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "u_site": rng.random(), "u_occ": rng.random()}
    return p


def relayout(v, how):
    if isinstance(v, np.ndarray) and v.dtype != object and v.ndim >= 2:
        if how == "F":
            return np.asfortranarray(v)
        if how == "view":
            big = np.zeros((2,) + v.shape, dtype=v.dtype)
            big[1] = v
            return big[1]
    return v


def freeze(v):
    for a in state.arrays_in(v) if not isinstance(v, np.ndarray) else [v]:
        a.setflags(write=False)
    return v


def scramble(a):
    w = a.flags.writeable
    if not w:
        if a.base is not None:
            return False
        a.setflags(write=True)
    if a.dtype.kind in "fc":
        a += 1.7
        a *= -3
    elif a.dtype.kind in "iu":
        a += 1
    else:
        return False
    return True


def execute(plan):
    common.quiet()
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    return (run_est if plan["target"] == "est" else run_fn)(plan, stats)


def _result(cls, who, detail, stats):
    return {"status": "violation", "cls": cls, "detail": "%s: %s" % (who, detail), "stats": stats}


def run_est(plan, stats):
    spec, name = plan["spec"], plan["spec"]["est"]
    fault = common.resolve_fault(spec, spec["data"], plan["stream"], plan["fault"]) if plan["fault"] else None
    args = zoo.make_data(spec["data"])
    params = zoo.make_params(spec)
    W = Watch([("argument %d" % k, a) for k, a in enumerate(args)] + [("parameter " + k, v) for k, v in sorted(params.items())])
    est = zoo.make_est(spec, params)
    common.seed_streams(plan["stream"])
    tr = Tracer(probe=W.probe, fault=fault)
    try:
        with tr:
            est.fit(*args)
        out = "ok"
    except (KeyboardInterrupt, MemoryError):
        out = "interrupted"
    except Exception as e:
        out = type(e).__name__
    stats["steps"] += tr.steps
    if tr.fired:
        stats["faults"][fault["kind"]] = 1
    bad = W.final("after fit: %s" % out)
    if bad:
        return _result("modified", name, bad, stats)
    if out == "ok":
        own = [zoo.make_data(spec["data"])]
        with Tracer(probe=W.probe) as tr2:
            for c in zoo.post_calls(spec):
                common.outcome(lambda: zoo.do_call(est, c, args))
        stats["steps"] += tr2.steps
        bad = W.final("after read-only calls")
        if bad:
            return _result("modified", name, bad, stats)
        before = state.snapshot(est)
        calls = [common.outcome(lambda: state.encode(zoo.do_call(est, c, own[0]))) for c in zoo.post_calls(spec)]
        # a later change of the caller's data must not reach the fitted result
        touched = [scramble(a) for a in state.arrays_in(args)]
        stats["probes"]["data_scrambled"] = int(any(touched))
        d = state.diff_fit({k: v for k, v in before.items()}, state.snapshot(est), rtol=0, atol=0)
        if d:
            return _result("result-aliases-data", name, "changing the data after fit changed %s" % d, stats)
        again = [common.outcome(lambda: state.encode(zoo.do_call(est, c, own[0]))) for c in zoo.post_calls(spec)]
        for c, x, y in zip(zoo.post_calls(spec), calls, again):
            if x[0] != y[0] or (x[0] == "ok" and state.diff(x[1], y[1], rtol=1e-12, atol=1e-12)):
                return _result("result-aliases-data", name, "changing the data after fit changed %s()" % c, stats)
        # later operations on the estimator must not reach the caller's arrays
        W2 = Watch([("argument %d" % k, a) for k, a in enumerate(args)] + [("parameter " + k, v) for k, v in sorted(params.items())])
        common.seed_streams(plan["stream"])
        common.outcome(lambda: est.fit(*zoo.make_data(plan["alt"])))
        bad = W2.final("during a later fit on other data")
        if bad:
            return _result("modified-later", name, bad, stats)
    if not plan["fault"]:
        # everything read-only: accepted wherever writable arrays are
        ro = [freeze(a) for a in zoo.make_data(dict(spec["data"], layout="C"))]
        wr = zoo.make_data(dict(spec["data"], layout="C"))
        common.seed_streams(plan["stream"])
        o1 = common.outcome(lambda: zoo.make_est(spec).fit(*wr))
        pr = zoo.make_params(spec)
        for v in pr.values():
            if isinstance(v, (np.ndarray, list, tuple)):
                freeze(v)
        common.seed_streams(plan["stream"])
        o2 = common.outcome(lambda: zoo.make_est(spec, pr).fit(*ro))
        if o1[0] == "ok" and o2[0] != "ok":
            return _result("read-only-rejected", name, "read-only input: %s: %s" % o2[1:], stats)
        if o1[0] == "ok":
            d = state.diff_fit(state.snapshot(o1[1]), state.snapshot(o2[1]), rtol=1e-6, atol=1e-8)
            if d:
                return _result("read-only-differs", name, d, stats)
    n = len(W.arrays)
    stats["states"] = ["%s:%d" % s for s in W.sites]
    key = None
    if n and tr.steps >= 20:
        key = "%s|%s|%s|%s" % (name, sorted(spec["params"].items(), key=str), spec["data"]["layout"], tr.fired)
    return {"status": "ok", "stats": stats, "digest": state.digest([name, out, tr.steps]), "nontrivial": key, "note": "%s %s, %d steps watched" % (name, out, tr.steps)}


def run_fn(plan, stats):
    it, name = plan["item"], plan["item"]["fn"]

    def made():
        f, a, k = funcs.build(it)
        return f, [relayout(x, plan["layout"]) for x in a], {q: relayout(x, plan["layout"]) for q, x in k.items()}

    fault = plan["fault"]
    if fault and "site" not in fault:
        from sim import proc

        def rec():
            common.quiet()
            f, a, k = made()
            common.seed_streams(plan["stream"])
            with Tracer(record=True) as t:
                common.outcome(lambda: f(*a, **k))
            return t.seq

        fault = pick_fault(proc.call(rec), fault["kind"], fault["u_site"], fault["u_occ"])
    f, a, k = made()
    W = Watch([("argument %d" % j, x) for j, x in enumerate(a)] + [("option " + q, x) for q, x in k.items()])
    common.seed_streams(plan["stream"])
    tr = Tracer(probe=W.probe, fault=fault)
    res = None
    try:
        with tr:
            res = f(*a, **k)
        out = "ok"
    except (KeyboardInterrupt, MemoryError):
        out = "interrupted"
    except Exception as e:
        out = type(e).__name__
    stats["steps"] += tr.steps
    if tr.fired:
        stats["faults"][fault["kind"]] = 1
    bad = W.final("after the call: %s" % out)
    if bad:
        return _result("modified", name, bad, stats)
    if out == "ok":
        if name == "graphical_lasso":
            # documented to hand the empirical covariance (its own argument) back as second value
            res = [x for j, x in enumerate(res) if j != 1]
        img = state.encode(res)
        for x in list(a) + list(k.values()):
            for arr in ([x] if isinstance(x, np.ndarray) else state.arrays_in(x)):
                scramble(arr)
        d = state.diff(img, state.encode(res), rtol=0, atol=0)
        if d and funcs.ITEMS[name][3] != "view":  # get_diagonal and check_array_dimensions answer with views of what they are given
            return _result("result-aliases-data", name, "changing an input afterwards changed the result %s" % d, stats)
        if not plan["fault"]:
            f, a, k = made()
            for x in list(a) + list(k.values()):
                if isinstance(x, (np.ndarray, list, tuple)):
                    freeze(x)
            common.seed_streams(plan["stream"])
            o = common.outcome(lambda: f(*a, **k))
            if o[0] == "ok":
                o = ("ok", state.encode([x for j, x in enumerate(o[1]) if j != 1] if name == "graphical_lasso" else o[1]))
            if o[0] != "ok":
                return _result("read-only-rejected", name, "read-only input: %s: %s" % o[1:], stats)
            d = state.diff(img, o[1], rtol=1e-6, atol=1e-8)
            if d:
                return _result("read-only-differs", name, d, stats)
    stats["states"] = ["%s:%d" % s for s in W.sites]
    key = "%s|%s|%s|%s" % (name, sorted(it["opts"].items(), key=str), plan["layout"], tr.fired) if W.arrays and tr.steps >= 3 else None
    return {"status": "ok", "stats": stats, "digest": state.digest([name, out, tr.steps]), "nontrivial": key, "note": "%s %s" % (name, out)}


def shrinks(plan):
    if plan["fault"]:
        p = copy.deepcopy(plan)
        p["fault"] = None
        yield p
    if plan["target"] == "est":
        s = plan["spec"]
        for k in list(s["params"]):
            if k in ("groups", "estimator"):
                continue
            p = copy.deepcopy(plan)
            del p["spec"]["params"][k]
            yield p
        for k, v in (("ragged", False), ("perm", False), ("labels", "int"), ("layout", "C"), ("dtype", "f8")):
            if s["data"].get(k, v) != v:
                p = copy.deepcopy(plan)
                p["spec"]["data"][k] = v
                yield p
    else:
        for k in list(plan["item"]["opts"]):
            if k in ("responses", "method", "max_iter", "n", "n_samples", "_type"):
                continue
            p = copy.deepcopy(plan)
            del p["item"]["opts"][k]
            yield p
        if plan["layout"] != "C":
            p = copy.deepcopy(plan)
            p["layout"] = "C"
            yield p
