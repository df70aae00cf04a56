"""R09: seeded data generation is reproducible whatever happened before."""
import copy
import json
import os
import random
import subprocess
import sys

import numpy as np

from sim import common, gens, proc, seams, state, zoo
from sim.boot import REPO, VERIF
from sim.tracer import Tracer, pick_fault
from props.R10 import call as call_req
from props.R10 import gen_req

PID = "R09"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("a run counts when the request gave data and at least one earlier operation (generation, fit, interrupted call, changed "
        "result, disturbed stream) preceded it in the same process; distinct = distinct (history, request) pairs")
STATE_MEASURE = "distinct (earlier operation, request) kinds"
REAL = ["regain.datasets and the estimators (all code, from /repo)"]
STUB = ["none; random streams are seeded, not replaced"]
ASSUMPTIONS = ["networkx graph generators draw from Python's random module: both global streams are seeded",
               "the TICC generators reseed the global stream by design"]
STATEFUL = ["my", "mys", "multi"]


def gen_target(rng):
    if rng.random() < 0.3:
        g = rng.choice(["multi", "my", "my", "my", "my", "my", "mys", "mys", "mys"])
        while True:
            q = gens.gen_request(rng, [g])
            if q["kw"].get("random_state") is not None:
                q["rs"] = rng.choice(["int", "int", "instance"]) if g != "multi" else "int"
                return q
    return gen_req(rng)


def gen_op(rng, target):
    r = rng.random()
    if r < 0.25:
        return {"op": "gen", "req": gen_req(rng)}
    if r < 0.4:
        return {"op": "same"}
    if r < 0.52:
        return {"op": "same-changed"}
    if r < 0.64:
        q = copy.deepcopy(target)
        for k in ("T", "n_samples", "n_dim_lat"):
            if isinstance(q["kw"].get(k), int) and rng.random() < 0.6:
                q["kw"][k] = max(1, q["kw"][k] + rng.choice([-1, 1]))
        if q["kw"].get("random_state") is not None:
            q["kw"]["random_state"] += rng.choice([0, 1])
        return {"op": "gen", "req": q}
    if r < 0.78:
        return {"op": "interrupt", "req": target if rng.random() < 0.6 else gen_req(rng), "kind": rng.choice(["KeyboardInterrupt", "MemoryError"]),
                "u_site": rng.random(), "u_occ": rng.random()}
    if r < 0.88:
        return {"op": "disturb", "seed": rng.randrange(10 ** 6), "draws": rng.randrange(5)}
    return {"op": "fit", "spec": zoo.gen_spec(rng, ["GL", "TGL", "WP", "ISING", "LGL"])}


def generate(rng, i, tier):
    if i % 500 == 7:
        return {"kind": "interpreters", "reqs": [dict(gen_target(rng), stream=rng.randrange(2 ** 31)) for _ in range(40)], "hash": [rng.randrange(1, 1000), rng.randrange(1, 1000)]}
    t = gen_target(rng)
    return {"kind": "history", "target": t, "stream": rng.randrange(2 ** 31), "ops": [gen_op(rng, t) for _ in range(rng.choice([1, 2, 2, 3, 4]))]}


def once(q):
    q = copy.deepcopy(q)
    if q.get("rs") == "instance":
        q["kw"]["random_state"] = np.random.RandomState(q["kw"]["random_state"])
    return call_req(q)


def streams():
    s = np.random.get_state()
    return [s[0], np.array(s[1]), s[2], s[3], s[4]], random.getstate()


def run_once(q, stream):
    """(outcome, data image, streams afterwards) of a seeded request."""
    common.seed_streams(stream)
    try:
        out = ("ok", state.encode(once(q)))
    except Exception as e:
        out = ("raise", type(e).__name__, str(e)[:100])
    return out, streams()


def reference(q, stream):
    common.quiet()
    return run_once(q, stream)


def sites(q, stream):
    common.quiet()
    common.seed_streams(stream)
    with Tracer(record=True) as tr:
        try:
            once(q)
        except Exception:
            pass
    return tr.seq


def spoil(x, seen=None):
    """Overwrite every array reachable from a result, as a caller who owns it may do."""
    seen = seen if seen is not None else set()
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = 77
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, seen)
        for k in list(x):
            x[k] = None
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v, seen)
        if isinstance(x, list):
            del x[:]


def execute(plan):
    common.quiet()
    if plan["kind"] == "interpreters":
        return interpreters(plan)
    q, stream = plan["target"], plan["stream"]
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    ref = proc.call(reference, q, stream)
    explicit = q["kw"].get("random_state") is not None
    other = proc.call(reference, q, stream ^ 0x5A5A5A) if explicit else None
    faults = {}
    for k, op in enumerate(plan["ops"]):  # recorded while this process is still pristine
        if op["op"] == "interrupt":
            f = op if "site" in op else pick_fault(proc.call(sites, op["req"], stream + k), op["kind"], op["u_site"], op["u_occ"])
            faults[k] = f
    trace = ["seed both streams with %d" % stream]
    for k, op in enumerate(plan["ops"]):
        common.seed_streams(stream + k + (0 if op["op"].startswith("same") else 1))
        kind = op["op"]
        try:
            if kind == "gen":
                once(op["req"])
            elif kind in ("same", "same-changed"):
                common.seed_streams(stream)
                out = once(q)
                if kind == "same-changed":
                    spoil(out)
                    stats["faults"]["result_overwritten"] = stats["faults"].get("result_overwritten", 0) + 1
            elif kind == "interrupt":
                if faults[k]:
                    with Tracer(fault=faults[k]) as tr:
                        once(op["req"])
            elif kind == "disturb":
                np.random.seed(op["seed"])
                np.random.rand(op["draws"] * 7)
                np.random.randn(3)  # leaves a cached Gaussian behind
                random.seed(op["seed"])
                [random.random() for _ in range(op["draws"])]
                stats["faults"]["streams_disturbed"] = stats["faults"].get("streams_disturbed", 0) + 1
            elif kind == "fit":
                est = zoo.make_est(op["spec"])
                est.fit(*zoo.make_data(op["spec"]["data"]))
            o = "ok"
        except (KeyboardInterrupt, MemoryError) as e:
            o = "interrupted"
            stats["faults"][kind + "ed"] = stats["faults"].get(kind + "ed", 0) + 1
        except Exception as e:
            o = "raises " + type(e).__name__
        stats["steps"] += 1
        stats["states"].append("%s/%s>%s" % (kind, (op.get("req") or {}).get("gen", ""), q["gen"]))
        trace.append("%s %s -> %s" % (kind, (op.get("req") or op.get("spec") or {}).get("gen", ""), o))
    bad = None
    if explicit:
        common.seed_streams(stream ^ 0x77)
        before = streams()
        try:
            got = ("ok", state.encode(once(q)))
        except Exception as e:
            got = ("raise", type(e).__name__, str(e)[:100])
        after = streams()
        d = state.diff(ref[0], other[0], rtol=0, atol=0) or state.diff(ref[0], got, rtol=0, atol=0)
        if d:
            bad = ("global-stream-read", "with an explicit random state the data still depends on the global stream or on earlier calls: %s" % d)
        else:
            d = state.diff(list(before), list(after), rtol=0, atol=0)
            if d:
                bad = ("global-stream-advanced", "with an explicit random state the global stream was advanced")
    got, after = run_once(q, stream)
    if bad is None:
        d = state.diff(ref[0], got, rtol=0, atol=0)
        if d:
            bad = ("not-reproducible", "the same seed gave different data after the history: %s" % d)
        else:
            d = state.diff(list(ref[1]), list(after), rtol=0, atol=0)
            if d:
                bad = ("stream-position", "the same call left the global streams in a different place after the history: %s" % d)
    name = {"multi": "make_multiclass_dataset", "my": "data_Meinshausen_Yuan", "mys": "data_Meinshausen_Yuan_sparse_latent"}.get(q["gen"], q["gen"])
    trace.append("call %s %s" % (name, q["kw"]))
    if bad:
        return {"status": "violation", "cls": bad[0], "detail": "%s: %s" % (name, bad[1]), "trace": trace, "stats": stats}
    return {"status": "ok", "stats": stats, "digest": state.digest([trace, state.digest(got)]), "note": "; ".join(trace)[:300],
            "nontrivial": json.dumps([plan["ops"], q], sort_keys=True, default=str) if got[0] == "ok" else None}


# -- fresh interpreters with different hash seeds -----------------------------------
def child(reqs):
    out = []
    for q in reqs:
        out.append(state.digest(run_once(q, q["stream"])))
    return out


def interpreters(plan):
    res = []
    for h in plan["hash"]:
        env = dict(os.environ, PYTHONHASHSEED=str(h), _R09="1")
        code = ("import sys, json; sys.path.insert(0, %r)\n"
                "from sim import boot, common; boot.boot(); common.quiet()\n"
                "from props import R09\n"
                "reqs = json.loads(sys.stdin.read())\n"
                "sys.stderr.write('DIGESTS' + json.dumps(R09.child(reqs)))\n") % VERIF
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], input=json.dumps(plan["reqs"]).encode(), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        txt = p.stderr.decode(errors="replace")
        if "DIGESTS" not in txt:
            raise RuntimeError("interpreter failed: " + txt[-1500:])
        res.append(json.loads(txt.split("DIGESTS")[1]))
    stats = {"faults": {"hash_seed_changed": 1}, "probes": {}, "steps": len(plan["reqs"]), "states": ["interpreters"]}
    for q, a, b in zip(plan["reqs"], *res):
        if a != b:
            return {"status": "violation", "cls": "hash-order", "stats": stats, "detail": "%s: the same seed gives different data in two interpreters" % q["gen"],
                    "trace": ["request %s" % q]}
    return {"status": "ok", "stats": stats, "digest": state.digest(res), "nontrivial": "interpreters %s" % plan["hash"], "note": "two interpreters agree"}


def shrinks(plan):
    if plan["kind"] == "interpreters":
        if len(plan["reqs"]) > 1:
            h = len(plan["reqs"]) // 2
            for part in (plan["reqs"][:h], plan["reqs"][h:]):
                yield dict(plan, reqs=part)
        return
    for k in range(len(plan["ops"]) - 1, -1, -1):
        p = copy.deepcopy(plan)
        del p["ops"][k]
        yield p
    kw = plan["target"]["kw"]
    for k, vs in (("T", (1, 2)), ("n_samples", (1,)), ("n_dim_obs", (4,)), ("n", (1,))):
        for v in vs:
            if isinstance(kw.get(k), int) and kw[k] > v:
                p = copy.deepcopy(plan)
                p["target"]["kw"][k] = v
                yield p
