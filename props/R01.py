"""R01: the outcome of a call does not depend on the history before it."""
import copy
import pickle

import numpy as np

from sim import common, state, zoo
from sim.tracer import Tracer, SimFault

PID = "R01"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 30000}
RULE = ("a run counts when at least one fit was judged against a fresh-process reference after at least one earlier "
        "operation (fit, interrupted fit, set_params, clone, copy, other estimator, stream perturbation); distinct = "
        "distinct (estimator, operation-kind sequence, fault site) tuples")
STATE_MEASURE = "distinct (estimator, operation-kind sequence) histories plus distinct fault sites"
STUB = ["none: the caller is simulated, all library code is real"]
ASSUMPTIONS = ["numerical comparison with relative tolerance 1e-6 of each attribute's largest entry"]
TOL = dict(rtol=1e-6, atol=1e-8)


SLOW = ("WP", "BGL", "TISING", "STISING", "TPOISSON", "STPOISSON", "POISSON", "GLOC")


def generate(rng, i, tier):
    n = rng.choice([1, 1, 2, 2, 3])
    specs = [zoo.gen_spec(rng) for _ in range(n)]
    if n > 1 and rng.random() < 0.4:  # two objects of the same class
        k = rng.randrange(1, n)
        d = common.alt_data(rng, {"est": specs[0]["est"], "params": {}, "data": specs[0]["data"]})
        specs[k] = {"est": specs[0]["est"], "data": d, "params": zoo.gen_params(rng, specs[0]["est"], d["T"], d["d"])}
    datas = [[s["data"]] + [common.alt_data(rng, s) for _ in range(2)] for s in specs]
    ops = []
    for _ in range(rng.randint(2, 6)):
        e = rng.randrange(n)
        r = rng.random()
        if r < 0.42:
            ops.append({"op": "fit", "e": e, "data": rng.randrange(3)})
        elif r < 0.60:
            ops.append({"op": "fault", "e": e, "data": rng.randrange(3),
                        "fault": {"kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "u_site": rng.random(), "u_occ": rng.random()}})
        elif r < 0.70:
            sp = specs[e]
            new = zoo.gen_params(rng, sp["est"], sp["data"]["T"], sp["data"]["d"])
            ks = [k for k in new if not isinstance(new[k], dict) and new[k] != sp["params"].get(k)
                  and not isinstance(sp["params"].get(k), dict) and k not in ("kernel", "kernel_psi", "kernel_phi", "init", "groups", "psi", "ker_param")]
            if ks:
                k = rng.choice(ks)
                ops.append({"op": "set", "e": e, "key": k, "value": new[k]})
        elif r < 0.78:
            ops.append({"op": rng.choice(["clone", "pickle", "deepcopy"]), "e": e})
        elif r < 0.90:
            ops.append({"op": "call", "e": e, "k": rng.randrange(8), "data": rng.randrange(3)})
        else:
            ops.append({"op": "stream", "v": rng.randrange(10 ** 6)})
    if rng.random() < 0.06:  # a long-lived process
        e = rng.randrange(n)
        if specs[e]["est"] not in SLOW:
            ops.insert(rng.randrange(len(ops) + 1), {"op": "many", "e": e, "k": rng.choice([12, 25, 40]), "data": rng.randrange(3)})
            ops.append({"op": "fit", "e": e, "data": rng.randrange(3)})
    ops.append({"op": "fit", "e": rng.randrange(n), "data": rng.randrange(3)})
    return {"specs": specs, "datas": datas, "ops": ops, "stream": rng.randrange(10 ** 6), "reuse": rng.random() < 0.4}


def execute(plan):
    common.quiet()
    specs = copy.deepcopy(plan["specs"])
    datas = plan["datas"]
    ests = [zoo.make_est(s) for s in specs]
    last = [None] * len(ests)  # data index of the last successful fit
    lastspec = [None] * len(ests)
    lastref = [None] * len(ests)
    wanted = [common.params_image(e) for e in ests]
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    hist = []
    judged = 0
    log = []
    trace = []

    def bad(cls, detail):
        return {"status": "violation", "cls": cls, "detail": "%s after [%s]: %s" % (name, " ".join(hist), detail), "stats": stats, "trace": trace}

    buffers = {}
    # every reference and every fault site comes from a fork of the still pristine process
    refs, faults = {}, {}
    sim_specs = copy.deepcopy(plan["specs"])
    for j, op in enumerate(plan["ops"]):
        if op["op"] == "set":
            sim_specs[op["e"]]["params"][op["key"]] = op["value"]
        elif op["op"] == "fit":
            sp = sim_specs[op["e"]]
            refs[j] = common.fresh_fit(sp, datas[op["e"]][op["data"]], plan["stream"], zoo.post_calls(sp))
        elif op["op"] == "fault":
            faults[j] = common.resolve_fault(sim_specs[op["e"]], datas[op["e"]][op["data"]], plan["stream"], op["fault"])

    for j, op in enumerate(plan["ops"]):
        kind = op["op"]
        if kind == "stream":
            np.random.seed(op["v"])
            np.random.rand(op["v"] % 7)
            hist.append("stream")
            trace.append("perturb global random stream")
            continue
        e = op["e"]
        spec, name, est = specs[e], specs[e]["est"], ests[e]
        trace.append("%d:%s %s" % (e, name, {k: v for k, v in op.items() if k not in ("op", "e")} and kind + " " + str({k: v for k, v in op.items() if k not in ("op", "e")}) or kind))
        if kind == "fit":
            data = datas[e][op["data"]]
            args = zoo.make_data(data)
            if plan.get("reuse"):  # the caller loads new values into the arrays it used before
                for k, a in enumerate(args):
                    if not isinstance(a, np.ndarray):
                        continue
                    key = (k, a.shape, a.dtype.str, a.strides)
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        buf = buffers.setdefault(key, a)
                        buf[...] = a
                        args[k] = buf
            calls = zoo.post_calls(spec)
            ref = refs[j]
            common.seed_streams(plan["stream"])
            out = common.outcome(lambda: est.fit(*args))
            if hist:
                judged += 1
            hist.append("fit%d" % e)
            if out[0] != ref["fit"][0] or (out[0] == "raise" and out[1] != ref["fit"][1]):
                return bad("fit-outcome", "fit gave %s, a fresh estimator in a fresh process %s" % (out[:1] + out[1:] if out[0] == "raise" else "ok", ref["fit"]))
            if common.params_image(est).keys() != wanted[e].keys() or state.diff(wanted[e], common.params_image(est), **TOL):
                return bad("param-altered", "fit changed a constructor parameter: %s" % state.diff(wanted[e], common.params_image(est), **TOL))
            if out[0] == "ok":
                if out[1] is not est:
                    return bad("fit-return", "fit did not return the estimator")
                snap = state.snapshot(est)
                d = state.diff_fit(ref["state"], snap, **TOL)
                if d:
                    return bad("fit-differs", "fitted state differs from a fresh fit: " + d)
                last[e], lastref[e] = op["data"], ref
                for c in calls:
                    o = common.outcome(lambda: state.encode(zoo.do_call(est, c, args)))
                    if o[:1] != ref["calls"][c][:1]:
                        return bad("call-outcome", "%s gave %s, fresh %s" % (c, o[:2], ref["calls"][c][:2]))
                    d = o[0] == "ok" and state.diff(ref["calls"][c][1], o[1], path=c + "()", **TOL)
                    if d:
                        return bad("call-differs", "differs from a fresh fit: " + d)
                d = state.diff_fit(snap, state.snapshot(est), **TOL)
                if d:
                    return bad("call-mutates", "a read-only call changed the fitted state: " + d)
                lastspec[e] = copy.deepcopy(spec)
                log.append(state.digest(snap))
        elif kind == "fault":
            data = datas[e][op["data"]]
            f = faults[j]
            args = zoo.make_data(data)
            common.seed_streams(plan["stream"])
            tr = Tracer(fault=f)
            try:
                with tr:
                    est.fit(*args)
                last[e] = None
            except (KeyboardInterrupt, MemoryError):
                last[e] = None
            except Exception:
                last[e] = None
            hist.append("interrupted%d" % e)
            stats["steps"] += tr.steps
            if tr.fired:
                stats["faults"][f["kind"]] = stats["faults"].get(f["kind"], 0) + 1
                stats["states"].append("%s:%s:%d" % tuple(tr.fired))
                trace[-1] += " -> %s at %s" % (f["kind"], tr.fired)
            if state.diff(wanted[e], common.params_image(est), **TOL):
                return bad("param-altered", "interrupted fit changed a constructor parameter: %s" % state.diff(wanted[e], common.params_image(est), **TOL))
        elif kind == "many":
            for _ in range(op["k"]):
                common.seed_streams(plan["stream"])
                common.outcome(lambda: est.fit(*zoo.make_data(datas[e][op["data"]])))
            last[e] = None
            hist.append("many%d" % e)
            if state.diff(wanted[e], common.params_image(est), **TOL):
                return bad("param-altered", "one of %d fits changed a constructor parameter: %s" % (op["k"], state.diff(wanted[e], common.params_image(est), **TOL)))
        elif kind == "set":
            est.set_params(**{op["key"]: op["value"]})
            spec["params"][op["key"]] = op["value"]
            wanted[e] = common.params_image(est)
            hist.append("set%d" % e)
        elif kind == "clone":
            from sklearn.base import clone
            o = common.outcome(lambda: clone(est))
            if o[0] != "ok":
                return bad("clone", "clone raised %s: %s" % o[1:])
            ests[e] = o[1]
            last[e] = None
            if state.diff(wanted[e], common.params_image(ests[e]), **TOL):
                return bad("clone", "clone changed parameters: %s" % state.diff(wanted[e], common.params_image(ests[e]), **TOL))
            hist.append("clone%d" % e)
        elif kind in ("pickle", "deepcopy"):
            before = state.snapshot(est)
            try:
                new = pickle.loads(pickle.dumps(est)) if kind == "pickle" else copy.deepcopy(est)
            except (pickle.PicklingError, TypeError, AttributeError):
                new = None  # not picklable: nothing to judge
            if new is not None:
                ests[e] = new
                d = state.diff_fit(before, state.snapshot(new), **TOL)
                if d:
                    return bad("copy-differs", "%s lost state: %s" % (kind, d))
            hist.append(kind + str(e))
        elif kind == "call":
            if last[e] is None:
                continue
            calls = zoo.post_calls(lastspec[e])
            c = calls[op["k"] % len(calls)]
            args = zoo.make_data(datas[e][last[e]])
            ref = lastref[e]
            o = common.outcome(lambda: state.encode(zoo.do_call(est, c, args)))
            same_params = lastspec[e]["params"] == spec["params"]
            if same_params and ref["fit"][0] == "ok":
                if o[:1] != ref["calls"][c][:1]:
                    return bad("call-outcome", "%s gave %s, fresh %s" % (c, o[:2], ref["calls"][c][:2]))
                d = o[0] == "ok" and state.diff(ref["calls"][c][1], o[1], path=c + "()", **TOL)
                if d:
                    return bad("call-differs", "differs from a fresh fit: " + d)
            hist.append("call%d" % e)
    key = "%s|%s" % ("+".join(s["est"] for s in plan["specs"]), " ".join(hist))
    stats["states"].append(key)
    stats["probes"]["fits_judged"] = judged
    return {"status": "ok", "stats": stats, "digest": state.digest(log + hist), "nontrivial": key if judged else None, "note": " ".join(hist)}


def shrinks(plan):
    ops = plan["ops"]
    for k in range(len(ops)):
        if len(ops) > 1:
            p = copy.deepcopy(plan)
            del p["ops"][k]
            yield p
    for k, op in enumerate(ops):
        if op.get("data"):
            p = copy.deepcopy(plan)
            p["ops"][k]["data"] = 0
            yield p
    used = {op["e"] for op in ops if "e" in op}
    if len(used) < len(plan["specs"]):
        m = {o: n for n, o in enumerate(sorted(used))}
        p = copy.deepcopy(plan)
        p["specs"] = [plan["specs"][o] for o in sorted(used)]
        p["datas"] = [plan["datas"][o] for o in sorted(used)]
        for op in p["ops"]:
            if "e" in op:
                op["e"] = m[op["e"]]
        yield p
    for e, s in enumerate(plan["specs"]):
        for k in list(s["params"]):
            if k in ("groups", "estimator"):
                continue
            p = copy.deepcopy(plan)
            del p["specs"][e]["params"][k]
            yield p
        for k, v in (("ragged", False), ("perm", False), ("labels", "int"), ("layout", "C"), ("dtype", "f8")):
            if any(D.get(k, v) != v for D in plan["datas"][e]):
                p = copy.deepcopy(plan)
                for D in p["datas"][e]:
                    if k in D:
                        D[k] = v
                yield p
