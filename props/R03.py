"""R03: fits running in several threads do not influence one another."""
import copy

from sim import common, proc, state, zoo
from sim.sched import Sched

PID = "R03"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 15000}
RULE = ("a run counts when at least two threads were alive at the same time and at least three context switches happened "
        "inside library code; distinct = distinct switch-site sequences (hash of the ordered list of switch points)")
STATE_MEASURE = "distinct source lines at which a context switch happened"
STUB = ["thread scheduling (baton scheduler; exactly one thread runs, switches only at simulated steps of library code)"]
ASSUMPTIONS = ["context switches inside numpy/scipy/scikit-learn frames are not simulated",
               "relative tolerance 1e-6 against the solo run in a fresh process"]
NAMES = [n for n in zoo.ALL if n not in zoo.RANDOM_FIT]
TOL = dict(rtol=1e-6, atol=1e-8)


def generate(rng, i, tier):
    n = rng.choice([2, 2, 2, 3])
    specs = [zoo.gen_spec(rng, NAMES)]
    share = False
    for _ in range(n - 1):
        r = rng.random()
        base = specs[0]
        if r < 0.25:  # same estimator, same parameters, other values, same shapes
            s = copy.deepcopy(base)
            s["data"]["seed"] = rng.randrange(10 ** 6)
        elif r < 0.5:  # same class, same shapes, other parameters
            d = dict(base["data"], seed=rng.randrange(10 ** 6))
            s = {"est": base["est"], "data": d, "params": zoo.gen_params(rng, base["est"], d["T"], d["d"])}
        elif r < 0.65:  # literally the same arrays read by both
            d = base["data"]
            s = {"est": base["est"], "data": d, "params": zoo.gen_params(rng, base["est"], d["T"], d["d"])}
            share = True
        else:
            s = zoo.gen_spec(rng, NAMES)
        specs.append(s)
    for s in specs:
        s["params"].pop("verbose", None)
        if s["params"].get("psi") in ("node", "linf"):
            s["params"]["psi"] = "l1"
        if s["params"].get("max_iter") == 60:
            s["params"]["max_iter"] = 6
    fine = rng.random() < 0.5
    plan = {"specs": specs, "share": share, "fine": fine, "stream": 7,
            "sched": {"mode": "rand", "seed": rng.randrange(10 ** 9), "p": rng.choice([0.003, 0.02, 0.1, 0.5]), "first": rng.randrange(n)}}
    plan["fault"] = None
    if rng.random() < 0.2:
        plan["fault"] = {"tid": rng.randrange(n), "kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "step": int(10 ** rng.uniform(0, 3.5))}
    return plan


def execute(plan):
    common.quiet()
    specs = plan["specs"]
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    refs = [common.fresh_fit(s, s["data"], plan["stream"], zoo.post_calls(s)[:1]) for s in specs]
    cache = {}

    def data(s):
        if not plan["share"]:
            return zoo.make_data(s["data"])
        k = repr(sorted(s["data"].items()))
        if k not in cache:
            cache[k] = zoo.make_data(s["data"])
        return cache[k]

    work = [(zoo.make_est(s), data(s)) for s in specs]

    def body(k):
        def run():
            est, args = work[k]
            out = common.outcome(lambda: est.fit(*args))
            call = None
            if out[0] == "ok":
                c = zoo.post_calls(specs[k])[0]
                call = common.outcome(lambda: state.encode(zoo.do_call(est, c, args)))
            return out[:1] if out[0] == "ok" else out, call
        return run

    f = plan["fault"]
    S = Sched([body(k) for k in range(len(specs))], plan["sched"], plan["fine"], {f["tid"]: f} if f else None)
    res = S.run()
    stats["steps"] = S.steps
    stats["switches"] = len(S.switches)
    for tid, kind, site in S.fired:
        stats["faults"][kind] = stats["faults"].get(kind, 0) + 1
    stats["faults"]["context_switch"] = len(S.switches)
    hit = {t for t, _, _ in S.fired}
    for k, s in enumerate(specs):
        who = "thread %d (%s)" % (k, s["est"])

        def bad(cls, d):
            return {"status": "violation", "cls": cls, "detail": "%s beside %s: %s" % (who, [q["est"] for q in specs], d), "stats": stats,
                    "switches": [list(x) for x in S.switches[:20000]],
                    "trace": ["%d context switches, first at step %s" % (len(S.switches), S.switches[:1])]}

        if k in hit:
            continue
        if res[k][0] == "raise":
            return bad("thread-died", "raised %s: %s" % res[k][1:])
        out, call = res[k][1]
        if out[0] != refs[k]["fit"][0] or (out[0] == "raise" and out[1] != refs[k]["fit"][1]):
            return bad("outcome", "fit gave %s, alone %s" % (out, refs[k]["fit"]))
        if out[0] != "ok":
            continue
        d = state.diff_fit(refs[k]["state"], state.snapshot(work[k][0]), **TOL)
        if d:
            return bad("differs", "result differs from the solo run: " + d)
        c = zoo.post_calls(s)[0]
        r = refs[k]["calls"][c]
        if r[0] != call[0] or (r[0] == "ok" and state.diff(r[1], call[1], **TOL)):
            return bad("differs", "%s() differs from the solo run" % c)
    stats["states"] = ["%s:%d" % x for x in S.sites]
    import hashlib
    h = hashlib.sha1(repr(S.switches).encode()).hexdigest()[:16]
    return {"status": "ok", "stats": stats, "digest": h, "nontrivial": h if len(S.switches) >= 3 else None,
            "note": "%s: %d steps, %d switches" % ("+".join(s["est"] for s in specs), S.steps, len(S.switches))}


def concretise(plan, res):
    p = copy.deepcopy(plan)
    p["sched"] = {"mode": "list", "first": plan["sched"].get("first", 0), "switches": res["switches"]}
    return p


def shrinks(plan):
    sw = plan["sched"].get("switches")
    if plan["fault"]:
        p = copy.deepcopy(plan)
        p["fault"] = None
        yield p
    if sw is not None:
        n = len(sw)
        k = n // 2
        while k >= 1:
            for a in range(0, n, k):
                if n // k > 16 and (a // k) % max(1, n // k // 16):
                    continue
                p = copy.deepcopy(plan)
                p["sched"]["switches"] = sw[:a] + sw[a + k:]
                yield p
            if n > 64 and k < n // 16:
                break
            k //= 2
    for e, s in enumerate(plan["specs"]):
        for k in list(s["params"]):
            if k in ("groups", "estimator"):
                continue
            p = copy.deepcopy(plan)
            del p["specs"][e]["params"][k]
            yield p
