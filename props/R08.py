"""R08: iteration budgets and convergence claims are honest."""
import contextlib
import copy
import io
import warnings

import numpy as np

from sim import common, refadmm as ref, state, zoo
from sim.tracer import Tracer

PID = "R08"
LEVEL = "exploration"
RUNS = {"quick": 7000, "thorough": 60000}
RULE = ("a run counts when one solver was stopped at two or more different budgets on the same problem, or when two recording "
        "configurations of one estimator were compared; distinct = hash of (solver, configuration, stop points, lengths of the histories)")
STATE_MEASURE = "distinct (solver, recording options, stopped by budget / by criterion / by target, warned) combinations"
REAL = ["all solvers, estimators, Convergence records and the warnings module"]
STUB = ["stdout (captured)", "the iteration clock: the budget at which a run is stopped is chosen by the simulator"]
ASSUMPTIONS = ["prefix comparisons are exact (bitwise) within one process; comparisons with the reference recursions use a relative tolerance of 1e-5",
               "a comparison with the reference ends where the reference's penalty update was within 1e-7 of its threshold"]

SOLVERS = {
    "gl": ("covariance.graphical_lasso_.graphical_lasso", 2, False),
    "lgl": ("covariance.latent_graphical_lasso_.latent_graphical_lasso", 2, False),
    "ic": ("covariance.infimal_convolution_.infimal_convolution", 2, False),
    "tgl": ("covariance.time_graphical_lasso_.time_graphical_lasso", 3, True),
    "ltgl": ("covariance.latent_time_graphical_lasso_.latent_time_graphical_lasso", 3, False),
    "ktgl": ("covariance.kernel_time_graphical_lasso_.kernel_time_graphical_lasso", 3, True),
    "kltgl": ("covariance.kernel_latent_time_graphical_lasso_.kernel_latent_time_graphical_lasso", 3, False),
    "ltmd": ("covariance.latent_time_matrix_decomposition.latent_time_matrix_decomposition", 3, False),
    "fb": ("forward_backward.time_graphical_lasso_.tgl_forward_backward", 3, True),
    "mgl": ("covariance.missing_graphical_lasso_.missing_graphical_lasso", 2, False),
    "glo": ("linear_model.group_lasso_overlap_.group_lasso_overlap", 0, False),
    "ising": ("generalized_linear_model.glm_ising._fit", 0, False),
    "gauss": ("generalized_linear_model.glm_gaussian.fit_each_variable", 0, False),
    "poisson": ("generalized_linear_model.glm_poisson.fit_each_variable", 0, False),
    "tising": ("generalized_linear_model.glm_time_ising._fit_time_ising_model", 0, True),
    "tpoisson": ("generalized_linear_model.glm_time_poisson._fit_time_poisson_model", 0, True),
}
WEIGHTS = {"gl": 4, "lgl": 4, "ic": 2, "tgl": 5, "ltgl": 4, "ktgl": 4, "kltgl": 3, "ltmd": 3, "fb": 3, "mgl": 2, "glo": 2, "ising": 1,
           "gauss": 2, "poisson": 2, "tising": 1, "tpoisson": 1}
ADMM = ("gl", "lgl", "ic", "tgl", "ltgl", "ktgl", "kltgl", "ltmd")
FIELDS = ("obj", "rnorm", "snorm", "e_pri", "e_dual")
N_EST = {"gl": 1, "lgl": 2, "ic": 2, "tgl": 1, "ltgl": 2, "ktgl": 1, "kltgl": 2, "ltmd": 2, "fb": 1}
# the inner problem of these takes the same budget, so the trajectory legitimately depends on it
INNER_BUDGET = ("mgl", "tising", "tpoisson")
WARNS = ADMM + ("fb", "mgl", "tising", "tpoisson")
RECORDING = {"GL": ["verbose", "compute_objective"], "LGL": ["verbose", "compute_objective"], "MGL": ["verbose", "compute_objective"],
             "LTGL": ["verbose", "compute_objective"], "LTMD": ["verbose", "compute_objective"],
             "TGL": ["verbose", "compute_objective", "return_history"], "KTGL": ["verbose", "compute_objective", "return_history"],
             "KLTGL": ["verbose", "compute_objective", "return_history"], "STGL": ["verbose", "compute_objective", "return_history"],
             "SLTGL": ["verbose", "compute_objective", "return_history"], "FB": ["verbose", "compute_objective", "return_history"],
             "GGLM": ["verbose", "compute_objective", "return_history"], "ISING": ["verbose", "compute_objective", "return_history"],
             "POISSON": ["verbose", "compute_objective", "return_history"],
             "TISING": ["verbose", "compute_objective", "return_history"], "TPOISSON": ["verbose", "compute_objective", "return_history"],
             "STISING": ["verbose", "compute_objective", "return_history"], "GLO": ["verbose"], "GLOC": ["verbose"], "WP": ["verbose"]}


def generate(rng, i, tier):
    if rng.random() < 0.25:
        return gen_estimator(rng)
    return gen_solver(rng)


def gen_solver(rng):
    names = list(WEIGHTS)
    s = rng.choices(names, weights=[WEIGHTS[n] for n in names])[0]
    nd = SOLVERS[s][1]
    P = {"solver": s, "kind": "solver", "dseed": rng.randrange(10 ** 6), "d": rng.choice([1, 2, 3, 3, 4, 5]), "T": rng.choice([1, 2, 3, 3, 4]),
         "n": rng.choice([3, 5, 8, 20]), "scale": rng.choice([1.0, 1.0, 0.2, 8.0])}
    kw = {}
    slow = s in ("fb", "mgl", "ising", "tising", "tpoisson", "poisson")
    N = rng.choice([6, 12, 25] if slow else [6, 15, 40, 80])
    if s in ("tising", "tpoisson"):
        N = rng.choice([3, 5])
        P["d"], P["T"] = rng.choice([2, 3]), rng.choice([2, 3])
    if s in ("fb", "ktgl", "kltgl", "ising", "gauss", "poisson", "glo"):
        P["d"], P["T"] = max(2, P["d"]), max(2, P["T"])
    if s in ADMM or s in ("fb", "mgl", "tising", "tpoisson"):
        kw["alpha"] = rng.choice([0.0, 0.01, 0.1, 0.3, 1.0, 4.0])
        kw["tol"] = rng.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-6])
    if s in ADMM + ("mgl", "tising", "tpoisson"):
        kw["rtol"] = rng.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-6])
        kw["rho"] = rng.choice([0.3, 1.0, 1.0, 2.0, 7.0])
        if rng.random() < 0.4:
            kw["update_rho_options"] = rng.choice([{"mu": 2}, {"mu": 5, "tau_inc": 3}, {"tau_dec": 1.5}, {"mu": 1.5, "tau_inc": 1.2, "tau_dec": 1.1}, {"mu": 1e9}])
    if s in ("gl", "mgl") and rng.random() < 0.5:
        kw["over_relax"] = rng.choice([1.2, 1.5, 1.8])
    if s in ("lgl", "ic", "ltgl", "kltgl", "ltmd"):
        kw["tau"] = rng.choice([0.05, 0.3, 1.0, 3.0])
    if s in ("tgl", "ltgl", "ltmd", "fb"):
        kw["beta"] = rng.choice([0.0, 0.1, 0.5, 1.0, 3.0])
    if s in ("ltgl", "ltmd"):
        kw["eta"] = rng.choice([0.0, 0.1, 1.0, 3.0])
    if s in ("tgl", "ltgl", "ktgl", "kltgl", "ltmd", "tising", "tpoisson"):
        kw["psi"] = rng.choice(["laplacian", "l1", "l2"])
        if s in ("tgl", "ltgl") and rng.random() < 0.04:
            kw["psi"] = rng.choice(["linf", "node"])
            N = 5
            P["d"] = 2
    if s in ("ltgl", "kltgl", "ltmd"):
        kw["phi"] = rng.choice(["laplacian", "l1", "l2"])
    if s in ("ktgl", "tising", "tpoisson") and rng.random() < 0.8:
        kw["kernel"] = {"$": "kernel", "seed": rng.randrange(10 ** 6)}
    if s == "kltgl" and rng.random() < 0.8:
        kw["kernel_psi"] = {"$": "kernel", "seed": rng.randrange(10 ** 6)}
        kw["kernel_phi"] = {"$": "kernel", "seed": rng.randrange(10 ** 6)}
    if s in ("tgl", "ltgl", "ktgl", "kltgl", "fb") and (s == "fb" or rng.random() < 0.6):
        kw["n_samples"] = {"$": "counts"}
    if s in ("gl", "lgl", "tgl", "ltgl", "ktgl", "kltgl", "fb") and rng.random() < 0.4:
        kw["init"] = rng.choice(["zeros", {"$": "spd", "seed": rng.randrange(10 ** 6)}])
        if s == "fb":
            kw["init"] = {"$": "spd", "seed": 1}
    if s == "fb":
        kw["time_norm"] = rng.choice([1, 1, 2])
        if rng.random() < 0.3:
            kw["laplacian_penalty"] = True
        if rng.random() < 0.3:
            kw["choose"] = rng.choice(["fixed", "lamda", "both"])
        kw["gamma"] = rng.choice([1.0, 0.2])
        if kw["alpha"] == 0 and kw["beta"] == 0:
            kw["alpha"] = 0.1
    if s in ("ising", "gauss", "poisson"):
        kw["alpha"] = rng.choice([0.01, 0.1, 0.3])
        kw["gamma"] = rng.choice([1e-3, 0.05, 0.2])
        kw["tol"] = rng.choice([1e-1, 1e-2, 1e-3, 1e-5])
    if s == "glo":
        kw["lamda"] = rng.choice([0.05, 0.5, 3.0])
        kw["rho"] = rng.choice([0.5, 1.0, 5.0])
        kw["tol"] = rng.choice([1e-1, 1e-2, 1e-4])
        kw["rtol"] = rng.choice([1e-1, 1e-2, 1e-4])
        P["groups"] = zoo.gen_groups(rng, P["d"])
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        o = {"budget": rng.choice([1, 2, 3, N - 1, rng.randint(1, N), rng.randint(1, N)])}
        o["hist"] = rng.random() < 0.6
        o["verbose"] = rng.choice([0, 0, 1, 1, 2])
        o["objective"] = rng.random() < 0.7
        o["n_iter"] = rng.random() < 0.8
        if rng.random() < 0.15:
            o["filter"] = "error"
        if rng.random() < 0.1:
            o["fault"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "step": int(10 ** rng.uniform(0, 3.0))}
        if SOLVERS[s][2] and rng.random() < 0.25:
            o["stop"] = {"u": rng.random(), "off": rng.choice([0.0, 1e-5, 3e-3]), "when": rng.choice([1e-4, 1e-2])}
            o["objective"] = True
        ops.append(o)
    P.update(N=N, kw=kw, ops=ops, ref_first=rng.random() < 0.5)
    return P


def gen_estimator(rng):
    names = [n for n in zoo.ALL if n in RECORDING]
    spec = zoo.gen_spec(rng, names)
    for k in ("verbose", "compute_objective", "return_history", "stop_at"):
        spec["params"].pop(k, None)
    opts = RECORDING[spec["est"]]
    vs = []
    for _ in range(rng.choice([2, 3])):
        v = {}
        for o in opts:
            if rng.random() < 0.6:
                v[o] = {"verbose": rng.choice([1, 2]), "compute_objective": False, "return_history": True}[o]
        vs.append(v)
    return {"kind": "estimator", "spec": spec, "variants": vs, "stream": 7}


# ---------------------------------------------------------------- problem construction
def problem(plan):
    rs = np.random.RandomState(plan["dseed"])
    d, T, n = plan["d"], plan["T"], plan["n"]
    s = plan["solver"]

    def cov():
        x = rs.randn(n, d).dot(np.eye(d) + 0.4 * rs.randn(d, d)) * plan["scale"]
        x -= x.mean(0)
        return x.T.dot(x) / n

    kw = {}
    for k, v in plan["kw"].items():
        if isinstance(v, dict) and v.get("$") == "kernel":
            r = np.random.RandomState(v["seed"])
            v = np.abs(r.randn(T, T))
            v = (v + v.T) / 2
            np.fill_diagonal(v, 1.0)
        elif isinstance(v, dict) and v.get("$") == "counts":
            v = rs.randint(1, 30, size=T).astype(float)
        elif isinstance(v, dict) and v.get("$") == "spd":
            r = np.random.RandomState(v["seed"])
            m = [np.eye(d) + 0.3 * (lambda q: q.dot(q.T))(r.randn(d, d)) for _ in range(T)]
            v = np.array(m) if SOLVERS[s][1] == 3 else m[0]
        kw[k] = v
    if s == "mgl":
        X = rs.randn(n, d) * plan["scale"]
        X[rs.rand(n, d) < 0.15] = np.nan
        return (X,), kw
    if s == "glo":
        A = rs.randn(n + d, d)
        return (A, A.dot(rs.randn(d)) + 0.3 * rs.randn(n + d)), dict(kw, groups=[list(g) for g in plan["groups"]])
    if s == "ising":
        return (np.sign(rs.randn(n, d) + 0.3),), kw
    if s == "gauss":
        return (rs.randn(n, d), rs.randint(d)), kw
    if s == "poisson":
        return (rs.poisson(1.0, size=(n, d)).astype(float), rs.randint(d)), kw
    if s == "tising":
        return (np.sign(rs.randn(T, n, d) + 0.3),), kw
    if s == "tpoisson":
        return (rs.poisson(1.0, size=(T, n, d)).astype(float),), kw
    if SOLVERS[s][1] == 2:
        return (cov(),), kw
    return (np.array([cov() for _ in range(T)]),), kw


def reference(plan, args, kw):
    s = plan["solver"]
    if s not in ADMM or kw.get("psi") == "node":
        return None
    S = args[0]
    opt = kw.get("update_rho_options") or {}
    c = (kw["rho"], kw["tol"], kw["rtol"], opt, kw.get("init", "empirical"))
    rho, tol, rtol, opt, init = c
    if s == "gl":
        return ref.gl(S, kw["alpha"], rho, kw.get("over_relax", 1), tol, rtol, opt, init)
    if s in ("lgl", "ic"):
        return ref.latent(S, kw["alpha"], kw["tau"], rho, tol, rtol, opt, init, s == "ic")
    T, d, _ = S.shape
    n = kw.get("n_samples", np.ones(T))
    if s == "tgl":
        return ref.timevarying(S, n, kw["alpha"], ref.chain(T, kw["beta"]), kw["psi"], rho, tol, rtol, opt, init, np.sqrt(T * d * d + 2 * (T - 1) * d * d))
    if s == "ktgl":
        k = kw.get("kernel", np.eye(T))
        return ref.timevarying(S, n, kw["alpha"], ref.dense(k), kw["psi"], rho, tol, rtol, opt, init, d * T)
    if s in ("ltgl", "ltmd"):
        return ref.latent_timevarying(S, n, kw["alpha"], kw["tau"], ref.chain(T, kw["beta"]), ref.chain(T, kw["eta"]), kw["psi"], kw["phi"], rho, tol, rtol,
                                      opt, init, np.sqrt(T * d * d + 4 * (T - 1) * d * d), quadratic=s == "ltmd")
    return ref.latent_timevarying(S, n, kw["alpha"], kw["tau"], ref.dense(kw.get("kernel_psi", np.eye(T))), ref.dense(kw.get("kernel_phi", np.eye(T))),
                                  kw["psi"], kw["phi"], rho, tol, rtol, opt, init, d * np.sqrt(T * (2 * T - 1)))


# ---------------------------------------------------------------- running one solver
class Out:
    pass


def target(s):
    import importlib

    mod, name = SOLVERS[s][0].rsplit(".", 1)
    return getattr(importlib.import_module("regain." + mod), name)


def call(plan, args, kw, op, stop=None):
    s = plan["solver"]
    f = target(s)
    kw = copy.deepcopy(kw)
    args = tuple(np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args)
    kw.update(max_iter=op["budget"], verbose=op["verbose"])
    if s != "glo":
        kw.update(return_history=op["hist"], compute_objective=op["objective"], return_n_iter=op["n_iter"])
    if stop is not None:
        kw.update(stop_at=stop[0], stop_when=stop[1])
    o = Out()
    o.fault = None
    buf = io.StringIO()
    with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(buf):
        warnings.simplefilter("always")
        if op.get("filter") == "error":
            warnings.simplefilter("ignore")
            warnings.filterwarnings("error", message=".*did not converge.*")
        fault = op.get("fault")
        try:
            if fault:
                with Tracer(fault=fault) as tr:
                    r = f(*args, **kw)
                o.fault = tr.fired
            else:
                r = f(*args, **kw)
            o.out = "ok"
        except UserWarning as e:
            o.out, o.msg = "warned", str(e)
            r = None
        except (KeyboardInterrupt, MemoryError) as e:
            if not fault:
                raise
            o.out, o.fault = "interrupted", fault["kind"]
            r = None
        except Exception as e:
            o.out, o.msg = "raised", "%s: %s" % (type(e).__name__, e)
            r = None
    o.msgs = [str(w.message) for w in ws if issubclass(w.category, Warning) and "converge" in str(w.message)]
    if s == "mgl":
        o.msgs = [m for m in o.msgs if "Missing" in m]
    elif kw.get("psi") == "node":
        o.msgs = [m for m in o.msgs if "Node" not in m]
    o.warned = len(o.msgs)
    o.text = buf.getvalue()
    if r is None:
        return o
    r = list(r) if isinstance(r, (list, tuple)) else [r]
    o.niter = o.hist = o.thetas = None
    if s == "glo":
        o.niter, o.hist = r[2], [dict(zip(FIELDS, h)) for h in r[1]]
        o.res = r[:1]
        return o
    if op["n_iter"]:
        o.niter = r.pop()
    if op["hist"]:
        h = r.pop()
        o.hist = [dict(x) if isinstance(x, dict) else {k: getattr(x, k) for k in ("iter", "obj", "rnorm", "snorm", "e_pri", "e_dual", "iter_norm", "iter_r_norm")
                                                      if hasattr(x, k)} for x in h]
        if s in ("ising", "gauss", "poisson"):
            o.thetas = r.pop()
    o.res = r
    return o


def same(a, b):
    """Bitwise equality, NaN equal to NaN."""
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return bool(np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True))
    except (TypeError, ValueError):
        return a is b or a == b


def close(a, b, scale=1.0):
    if a is None or b is None:
        return a is b
    if not np.isfinite(a) or not np.isfinite(b):
        return (np.isnan(a) and np.isnan(b)) or a == b
    return abs(a - b) <= 1e-5 * (abs(a) + abs(b)) + 1e-8 * scale


def met(s, rec):
    if s in ("ising", "gauss", "poisson"):
        return None
    if s in ("mgl", "fb", "glo"):
        return None
    return rec["rnorm"] <= rec["e_pri"] and rec["snorm"] <= rec["e_dual"]


def execute(plan):
    common.quiet()
    return run_estimator(plan) if plan["kind"] == "estimator" else run_solver(plan)


def run_solver(plan):
    s = plan["solver"]
    args, kw = problem(plan)
    first = 1 if SOLVERS[s][2] else 0  # the first record is the starting point
    N = plan["N"]
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    trace = []

    def bad(cls, detail, k=None):
        return {"status": "violation", "cls": cls, "detail": "%s: %s" % (s, detail), "stats": stats, "trace": trace}

    long_op = {"budget": N, "hist": True, "verbose": 0, "objective": True, "n_iter": True}
    runs = [("op%d" % k, o) for k, o in enumerate(plan["ops"])]
    base = None
    if plan["ref_first"]:
        base = call(plan, args, kw, long_op)
    prefix = s not in INNER_BUDGET and kw.get("psi") != "node"
    done = []
    for name, o in runs:
        stop = None
        if o.get("stop"):
            if base is None:
                base = call(plan, args, kw, long_op)
            objs = [h["obj"] for h in (base.hist[1:] if base.out == "ok" else []) if h["obj"] is not None and np.isfinite(h["obj"])]
            if objs:
                v = objs[int(o["stop"]["u"] * len(objs))]
                stop = (float(v * (1 + o["stop"]["off"])), o["stop"]["when"])
                if stop[0] == 0:
                    stop = None
        r = call(plan, args, kw, o, stop)
        done.append((name, o, r, stop))
        for key, on in (("stop@budget", True), ("stop_at", stop is not None), ("warnings-as-errors", o.get("filter") == "error"), (r.fault or "", bool(r.fault))):
            if on and key:
                stats["faults"][key] = stats["faults"].get(key, 0) + 1
        trace.append("%s budget=%d verbose=%s objective=%s history=%s n_iter=%s%s -> %s warned=%s%s" % (
            name, o["budget"], o["verbose"], o["objective"], o["hist"], o["n_iter"], " stop_at=%r" % (stop,) if stop else "", r.out, r.warned,
            " %d records" % len(r.hist) if r.out == "ok" and r.hist is not None else ""))
    if base is None:
        base = call(plan, args, kw, long_op)
    if base.out == "raised":
        # no fit to talk about: every plain run of the same trajectory must say so too
        stats["probes"]["raised " + base.msg[:40]] = 1
        return {"status": "ok", "stats": stats, "digest": state.digest([s, base.msg]), "nontrivial": None, "note": "%s raised %s" % (s, base.msg), "trace": trace}
    if base.out != "ok":
        return bad("outcome", "the plain run with budget %d ended as %s" % (N, base.out))
    n_base = len(base.hist) - first
    trace.append("long run: budget %d, %d iterations recorded, warned=%s" % (N, n_base, base.warned))
    lengths = [n_base]
    stats["steps"] = n_base
    if s == "poisson":
        # nothing is recorded for the first iteration
        n_base += 1

    # 1. the long run itself
    everything = [("long", long_op, base, None)] + done
    for name, o, r, stop in everything:
        if r.out == "interrupted":
            continue
        b = o["budget"]
        if r.out == "raised":
            if prefix:
                return bad("recording-changes-result", "%s: raised %s where the plain run with budget %d does not" % (name, r.msg, N))
            continue
        if r.out == "warned":
            if not prefix:
                continue
            if stop is None and b <= N and n_base < b:
                return bad("warns-though-converged", "%s: warned '%s' with budget %d, although the run with budget %d stopped by its criterion after %d" % (name, r.msg, b, N, n_base))
            continue
        n = None
        if r.hist is not None:
            n = len(r.hist) - first + (1 if s == "poisson" else 0)
            if n > b:
                return bad("over-budget", "%s: %d iterations recorded with a budget of %d" % (name, n, b))
            if n < 1:
                return bad("history", "%s: no iteration recorded" % name)
        if r.niter is not None:
            if r.niter > b:
                return bad("over-budget", "%s: reports %s iterations with a budget of %d" % (name, r.niter, b))
            if n is not None and r.niter not in (n, n - 1):
                return bad("n-iter", "%s: reports n_iter=%s but recorded %d iterations" % (name, r.niter, n))
        if o["verbose"] and s in ADMM:
            lines = [q for q in r.text.splitlines() if "rnorm" in q or "obj" in q]
            if n is not None and len(lines) not in (0, n):
                return bad("verbose", "%s: printed %d progress lines for %d iterations" % (name, len(lines), n))
            if len(lines) > b:
                return bad("over-budget", "%s: printed %d progress lines with a budget of %d" % (name, len(lines), b))
        # 2. the warning against the recorded criterion
        if s in WARNS and r.hist is not None:
            last = r.hist[-1]
            how = None
            if s in ADMM + ("tising", "tpoisson"):
                hit = [met(s, h) for h in r.hist[first:]]
                if stop is not None:
                    hit = [a or abs(h["obj"] - stop[0]) / abs(stop[0]) < stop[1] for a, h in zip(hit, r.hist[first:])]
                if o["objective"]:
                    hit = [a or (s in ("lgl", "ic") and h["obj"] == np.inf) for a, h in zip(hit, r.hist[first:])]
                if any(hit[:-1]):
                    return bad("ran-past-criterion", "%s: the criterion was met at iteration %d but the run went on to %d" % (name, hit.index(True) + 1, n))
                how = bool(hit[-1])
            elif s == "mgl":
                how = abs(last["difference"]) < kw["tol"]
            elif stop is not None:
                hit = [abs(h["obj"] - stop[0]) / abs(stop[0]) < stop[1] for h in r.hist[first:]]
                if any(hit[:-1]):
                    return bad("ran-past-criterion", "%s: the target was reached at iteration %d but the run went on to %d" % (name, hit.index(True) + 1, n))
                how = bool(hit[-1])
            if how is not None:
                if n < b and not how:
                    return bad("stopped-early", "%s: stopped after %d of %d iterations without meeting its criterion: %s" % (name, n, b, last))
                if how and r.warned:
                    return bad("warns-though-converged", "%s: warned although the last record meets the criterion: %s" % (name, last))
                if not how and not r.warned and o.get("filter") != "error":
                    return bad("silent-non-convergence", "%s: no warning although the budget of %d ran out at %s" % (name, b, last))
                if not how and o.get("filter") == "error":
                    return bad("silent-non-convergence", "%s: no warning raised under an error filter although the budget of %d ran out at %s" % (name, b, last))
                stats["states"].append("%s|%s|%s" % (s, "target" if stop else "criterion" if how else "budget", o["objective"]))
        if name != "long" and not prefix and stop is None:
            # another budget is another problem here, but the recording must still not matter
            plain = base if b == N else call(plan, args, kw, dict(long_op, budget=b))
            if plain.out == "ok":
                if not same(r.res, plain.res):
                    return bad("recording-changes-result", "%s: the plain run with the same budget %d returns another estimate" % (name, b))
                if s in WARNS and o.get("filter") != "error" and r.warned != plain.warned:
                    return bad("recording-changes-warning", "%s: %d convergence warnings, the plain run with the same budget %d has %d" % (name, r.warned, b, plain.warned))
        if name == "long" or not prefix:
            continue
        # 3. one trajectory
        expect = min(b, n_base) if b <= N else None
        if stop is None:
            if n is not None and expect is not None and n != expect:
                return bad("trajectory-length", "%s: budget %d gave %d iterations, budget %d gave %d" % (name, b, n, N, n_base))
            if s in WARNS and expect is not None and o.get("filter") != "error":
                should = n_base > b or (b == N and bool(base.warned))
                if n_base == b and b < N:
                    should = False
                if should != bool(r.warned):
                    return bad("silent-non-convergence" if should else "warns-though-converged",
                               "%s: budget %d, warned=%s, but the run with budget %d took %d iterations (warned=%s)" % (name, b, r.warned, N, n_base, base.warned))
        if r.hist is not None:
            m = min(len(r.hist), len(base.hist))
            for j in range(m):
                x, y = dict(r.hist[j]), dict(base.hist[j])
                if not o["objective"] and s in ADMM:
                    x.pop("obj", None)
                    y.pop("obj", None)
                if not same(x, y):
                    return bad("not-a-prefix", "%s: record %d is %s, with budget %d it is %s" % (name, j, x, N, y))
            if r.thetas is not None and not same(r.thetas, base.thetas[:len(r.thetas)]):
                return bad("not-a-prefix", "%s: the recorded iterates are not a prefix of those of the longer run" % name)
        if n is not None:
            lengths.append(n)
        if stop is None and expect == n_base and n_base <= N and not same(r.res, base.res):
            return bad("recording-changes-result", "%s: stopped after the same %d iterations as the plain run, but returns another estimate" % (name, n_base))
        # equal stopping points give equal results, whatever was recorded
        for name2, o2, r2, stop2 in done:
            if name2 >= name or r2.out != "ok" or stop or stop2 or o2["budget"] != b:
                continue
            if not same(r.res, r2.res):
                return bad("recording-changes-result", "%s and %s (same budget %d) return different estimates" % (name, name2, b))

    # 4. records are those of the iterates
    v = check_values(plan, args, kw, base, first, done, stats)
    if v:
        return bad(*v)
    stats["probes"]["runs"] = len(everything)
    dig = state.digest([s, repr(sorted(plan["kw"].items(), key=str)), [o["budget"] for o in plan["ops"]], lengths, [r.warned for _, _, r, _ in everything]])
    budgets = {o["budget"] for o in plan["ops"]} | {N}
    return {"status": "ok", "stats": stats, "digest": dig, "nontrivial": dig if len(budgets) > 1 else None,
            "note": "%s: %d runs, %d iterations" % (s, len(everything), n_base), "trace": trace}


def check_values(plan, args, kw, base, first, done, stats):
    s = plan["solver"]
    g = reference(plan, args, kw)
    if g is not None:
        ests = []
        scale = 1.0 + max(float(np.max(np.abs(x))) for x in base.res[:N_EST[s]] if x.size)
        if not np.isfinite(scale) or scale > 1e6:
            return None
        if kw.get("alpha") == 0 and any(np.linalg.eigvalsh(c)[0] < 1e-8 * (1 + np.abs(c).max()) for c in np.atleast_3d(args[0]).reshape(-1, *args[0].shape[-2:])):
            return None  # unbounded below: the iterates grow out of the rounding errors of a singular matrix
        for j, h in enumerate(base.hist[first:]):
            q = next(g)
            for k in FIELDS:
                if k == "obj" and not (np.isfinite(h[k]) and np.isfinite(q[k])):
                    continue  # an iterate on the border of the positive definite cone
                if not close(h[k], q[k], scale * (1 + (abs(q["obj"]) if k == "obj" and np.isfinite(q["obj"]) else 0))):
                    return ("record-differs", "iteration %d records %s=%.10g, the reference recursion gives %.10g" % (j + 1, k, h[k], q[k]))
            ests.append(q["est"])
            stats["probes"]["reference records"] = stats["probes"].get("reference records", 0) + 1
            if q["borderline"]:
                return None
        for a, b in zip(base.res[:N_EST[s]], ests[-1]):
            if np.max(np.abs(a - b), initial=0) > 1e-5 * scale:
                return ("estimate-differs", "the returned estimate differs from the last iterate of the reference recursion by %.3g" % np.max(np.abs(a - b)))
        for name, o, r, stop in done:
            if r.out == "ok" and r.hist is not None and stop is None and 0 < len(r.hist) - first <= len(ests):
                for a, b in zip(r.res[:N_EST[s]], ests[len(r.hist) - first - 1]):
                    if np.max(np.abs(a - b), initial=0) > 1e-5 * scale:
                        return ("estimate-differs", "%s: the returned estimate is not the last recorded iterate (off by %.3g)" % (name, np.max(np.abs(a - b))))
        return None
    if s == "fb":
        K = {}
        for b in range(1, min(4, len(base.hist) - 1) + 1):
            r = call(plan, args, kw, {"budget": b, "hist": False, "verbose": 0, "objective": True, "n_iter": False})
            K[b] = r.res[0]
        S = args[0]
        n = kw.get("n_samples", np.ones(len(S)))
        iu = np.triu_indices(S.shape[1], 1)

        def F(X):
            v = sum(n[t] * ref.nll(S[t], X[t]) for t in range(len(S))) + 1e-5 / 2 * ref.sq(X) + kw["alpha"] * ref.od(X)
            D = X[1:] - X[:-1]
            return v + kw["beta"] * (ref.sq(D) if kw.get("laplacian_penalty") else fb_norm(D, kw["time_norm"]))

        for b in K:
            h = base.hist[b]
            f = F(K[b])
            stats["probes"]["fb records"] = stats["probes"].get("fb records", 0) + 1
            if np.isfinite(f) and np.isfinite(h["obj"]) and not close(h["obj"], f, 1 + abs(f)):
                return ("record-differs", "iteration %d records obj=%.10g, the returned estimate has %.10g" % (b, h["obj"], f))
            if b > 1:
                up = np.sqrt(sum(ref.sq((K[b] - K[b - 1])[t][iu]) for t in range(len(S))))
                if not close(h["rnorm"], up, 1.0):
                    return ("record-differs", "iteration %d records rnorm=%.10g, the step taken has norm %.10g" % (b, h["rnorm"], up))
            f0 = F(K[b - 1]) if b > 1 else base.hist[0]["obj"]
            if np.isfinite(f) and np.isfinite(f0) and abs(h["snorm"] - abs(f - f0)) > 1e-6 * (1 + abs(f) + abs(f0)):
                return ("record-differs", "iteration %d records an objective change of %.10g, it was %.10g" % (b, h["snorm"], abs(f - f0)))
        return None
    if s in ("gauss", "poisson", "ising"):
        X = args[0]
        n, d = X.shape
        off = 1 if s == "poisson" else 0
        for j, h in enumerate(base.hist):
            th = base.thetas[j + 1 + off]
            prev = base.thetas[j + off]
            if s == "ising":
                f = sum(np.sum(np.logaddexp(X.dot(o), -X.dot(o)) - X[:, r] * X.dot(o)) for r in range(d) for o in [np.where(np.arange(d) == r, 0, th[:, r])]) / n
                f += kw["alpha"] * ref.od(th)
                if not np.all(th == th.T):
                    f = np.inf
            else:
                ix = args[1]
                sel = [k for k in range(d) if k != ix]
                e = X[:, sel].dot(th)
                f = (np.sum(0.5 * e * e - X[:, ix] * e) if s == "gauss" else np.sum(np.exp(e) - X[:, ix] * e)) / n + kw["alpha"] * np.abs(th).sum()
            if np.isfinite(f) and not close(h["obj"], f, 1 + abs(f)):
                return ("record-differs", "iteration %d records obj=%.10g, its iterate has %.10g" % (j, h["obj"], f))
            if not close(h["iter_norm"], float(np.sqrt(ref.sq(th - prev))), 1.0):
                return ("record-differs", "iteration %d records iter_norm=%.10g, the step has norm %.10g" % (j, h["iter_norm"], np.sqrt(ref.sq(th - prev))))
            if j < len(base.hist) - 1 and abs(h["iter_norm"]) < kw["tol"]:
                return ("ran-past-criterion", "the criterion was met at record %d but the run went on" % j)
        if len(base.hist) + off < plan["N"] and base.hist and abs(base.hist[-1]["iter_norm"]) >= kw["tol"]:
            return ("stopped-early", "stopped after %d of %d iterations without meeting the criterion" % (len(base.hist), plan["N"]))
        if not same(base.res[0], base.thetas[-1]):
            return ("estimate-differs", "the returned estimate is not the last recorded iterate")
        return None
    if s in ("tising", "tpoisson"):
        return glm_time_record(s, base, kw, args)
    if s == "glo":
        A, b = args
        z = base.res[0]
        for j, (h, w) in enumerate(zip(base.hist, glo_records(A, b, kw))):
            for k, v in w.items():
                if not close(h[k], v, 1 + abs(w["obj"])):
                    return ("record-differs", "iteration %d records %s=%.10g, its iterate has %.10g" % (j + 1, k, h[k], v))
        if len(base.hist) < plan["N"]:
            w = [h["rnorm"] < h["e_pri"] and h["snorm"] < h["e_dual"] for h in base.hist]
            if not w[-1]:
                return ("stopped-early", "stopped after %d of %d iterations without meeting the criterion" % (len(base.hist), plan["N"]))
    if s == "mgl":
        pr = [h["log_likelihood"] for h in base.hist]
        if not all(np.isscalar(x) and np.isreal(x) for x in pr):
            return ("record-differs", "the recorded log-likelihood is not a number: %r" % (pr[0],))
        for j in range(1, len(pr)):
            if not close(pr[j - 1] - pr[j], base.hist[j]["difference"], 1 + abs(pr[j])):
                return ("record-differs", "record %d: the difference of log-likelihoods is not the recorded one" % j)
        K, C = base.res[0], base.res[1]
        sg, ld = np.linalg.slogdet(K)
        want = ld - np.sum(C * K)
        if sg > 0 and np.isfinite(want) and np.isfinite(pr[-1]):
            d = len(K)
            if not (close(pr[-1], want, 1 + abs(want)) or close(pr[-1], (want - d * np.log(2 * np.pi)) / 2, 1 + abs(want))):
                return ("record-differs", "the recorded log-likelihood %.8g is not that of the returned estimate (%.8g)" % (pr[-1], want))
    return None


def glm_time_record(s, base, kw, args):
    """The last recorded objective is the documented one at the estimate, up to what the recorded residual allows in the time penalty."""
    X, K, h = args[0], np.asarray(base.res[0]), base.hist[-1]
    T, n, d = X.shape
    off = 1 - np.eye(d)
    f = 0.0
    for x, k in zip(X, K):
        M = x.dot(k * off)
        f += float(np.sum((np.logaddexp(M, -M) if s == "tising" else np.exp(M)) - x * M)) / n
    f += kw["alpha"] * ref.od(K)
    w = kw.get("kernel")
    w = np.eye(T) if w is None else np.asarray(w)
    psi, slack = ref.PSI[kw["psi"]][0], 0.0
    if not np.isfinite(h["rnorm"]):
        return None
    e = 2 * h["rnorm"]
    for a in range(T):
        for b in range(a + 1, T):
            D = K[b] - K[a]
            f += w[a, b] * psi(D)
            slack += w[a, b] * (e * (2 * np.sqrt(ref.sq(D)) + e) if kw["psi"] == "laplacian" else d * e)
    if np.isfinite(f) and np.isfinite(h["obj"]) and abs(h["obj"] - f) > slack + 1e-6 * (1 + abs(f)):
        return ("record-differs", "the last record has obj=%.10g, the estimate's documented objective is %.10g (time penalty uncertain by %.3g)" % (h["obj"], f, slack))
    return None


def glo_records(A, b, kw):
    """The iteration in its textbook form: blocks x_g, consensus z, multipliers y_g."""
    rho, lam, groups = kw["rho"], kw["lamda"], kw["groups"]
    d = A.shape[1]
    P = [np.eye(d)[g] for g in groups]
    cnt = sum(p.sum(axis=0) for p in P)
    z, y = np.zeros(d), [np.zeros(len(g)) for g in groups]
    while True:
        x = []
        for p, u in zip(P, y):
            v = p.dot(z) - u / rho
            m = np.sqrt(v.dot(v))
            x.append(v * max(0.0, 1 - lam / rho / m) if m > 0 else v)
        old = z
        z = np.linalg.solve(A.T.dot(A) + rho * np.diag(cnt), A.T.dot(b) + sum(p.T.dot(u + rho * q) for p, u, q in zip(P, y, x)))
        y = [u + rho * (q - p.dot(z)) for p, u, q in zip(P, y, x)]
        mean = sum(p.T.dot(q) for p, q in zip(P, x)) / np.maximum(cnt, 1)
        size = lambda v: float(np.sqrt(v.dot(v)))
        yield {"obj": 0.5 * size(A.dot(z) - b) ** 2 + lam * sum(size(q) for q in x), "rnorm": size(mean - z), "snorm": rho * size(z - old),
               "e_pri": np.sqrt(d) * kw["tol"] + kw["rtol"] * max(size(mean), size(z))}


def fb_norm(D, p):
    """One p-norm over time for every entry."""
    return float((np.abs(D) ** p).sum(axis=0).__pow__(1.0 / p).sum()) if len(D) else 0.0


# ---------------------------------------------------------------- estimators
def run_estimator(plan):
    spec = plan["spec"]
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    trace = []

    def bad(cls, detail):
        return {"status": "violation", "cls": cls, "detail": "%s: %s" % (spec["est"], detail), "stats": stats, "trace": trace}

    res = []
    for v in [{}] + plan["variants"]:
        sp = copy.deepcopy(spec)
        sp["params"].update(v)
        buf = io.StringIO()
        with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(buf):
            warnings.simplefilter("always")
            est, args, out = common.fit_only(sp, spec["data"], plan["stream"])
        msgs = sorted(str(w.message) for w in ws if "converge" in str(w.message))
        snap = state.snapshot(est) if out[0] == "ok" else None
        res.append((v, out, msgs, snap, est))
        b = spec["params"].get("max_iter")
        if out[0] == "ok" and b and spec["est"] in ("GL", "LGL", "TGL", "LTGL", "KTGL", "KLTGL", "LTMD") and spec["params"].get("ker_param") != "auto":
            lines = [q for q in buf.getvalue().splitlines() if "rnorm" in q]
            if v.get("verbose") and len(lines) > b:
                return bad("over-budget", "%d progress lines printed with max_iter=%d" % (len(lines), b))
            h = getattr(est, "history_", None)
            if v.get("return_history") and h is not None and spec["est"] in ("TGL", "KTGL"):
                if not 0 < len(h) - 1 <= b:
                    return bad("over-budget", "%d iterations in history_ with max_iter=%d" % (len(h) - 1, b))
                ok = h[-1].rnorm <= h[-1].e_pri and h[-1].snorm <= h[-1].e_dual
                if bool(msgs) == bool(ok) and spec["params"].get("psi") != "node":
                    return bad("silent-non-convergence" if msgs == [] else "warns-though-converged",
                               "convergence warnings %s, last record %s" % (msgs, h[-1]))
                if not ok and len(h) - 1 < b:
                    return bad("stopped-early", "stopped after %d of %d iterations at %s" % (len(h) - 1, b, h[-1]))
        trace.append("%s -> %s, convergence warnings %s" % (v, out[0], msgs))
        for k in v:
            stats["faults"]["recording:" + k] = stats["faults"].get("recording:" + k, 0) + 1
    _, out0, msgs0, snap0, est0 = res[0]
    for v, out, msgs, snap, est in res[1:]:
        if out[0] != out0[0] or (out[0] == "raise" and out[1] != out0[1]):
            return bad("recording-changes-result", "with %s fit gave %s, without %s" % (v, out[:3], out0[:3]))
        if out[0] != "ok":
            continue
        if msgs != msgs0:
            return bad("recording-changes-warning", "with %s the convergence warnings are %s, without %s" % (v, msgs, msgs0))
        for k in sorted(snap0):
            if k in RECORDING[spec["est"]] or k in ("history_", "loss_", "objective_"):
                continue
            if k not in snap:
                return bad("recording-changes-result", "with %s the attribute %s is missing" % (v, k))
            d = state.diff(snap0[k], snap[k], rtol=0, atol=0, path=k)
            if d:
                return bad("recording-changes-result", "with %s: %s" % (v, d))
        stats["states"].append("%s|%s|%s" % (spec["est"], sorted(v), bool(msgs)))
    b = spec["params"].get("max_iter")
    if b is not None and out0[0] == "ok":
        for v, out, msgs, snap, est in res:
            n = getattr(est, "n_iter_", None)
            if isinstance(n, (int, np.integer)) and n > b and spec["est"] not in ("STGL", "SLTGL", "STISING", "DA"):
                return bad("over-budget", "n_iter_=%d with max_iter=%d" % (n, b))
            for part in (getattr(est, "history", None) or []) if spec["est"] in ("GGLM", "POISSON") else []:
                if len(part[-1]) > b:
                    return bad("over-budget", "%d iterations recorded for one variable with max_iter=%d" % (len(part[-1]), b))
            if spec["est"] == "ISING" and "mode" not in spec["params"] and len(est.history[-1]) > b:
                return bad("over-budget", "%d iterations recorded with max_iter=%d" % (len(est.history[-1]), b))
    dig = state.digest([spec["est"], repr(sorted(spec["params"].items(), key=str)), [sorted(v) for v in plan["variants"]], [len(r[2]) for r in res]])
    return {"status": "ok", "stats": stats, "digest": dig, "nontrivial": dig if any(plan["variants"]) and out0[0] == "ok" else None,
            "note": "%s: %d recording variants" % (spec["est"], len(plan["variants"])), "trace": trace}


def shrinks(plan):
    if plan["kind"] == "estimator":
        for k in range(len(plan["variants"])):
            p = copy.deepcopy(plan)
            del p["variants"][k]
            yield p
        for k in list(plan["spec"]["params"]):
            if k in ("groups", "estimator"):
                continue
            p = copy.deepcopy(plan)
            del p["spec"]["params"][k]
            yield p
        return
    for k in range(len(plan["ops"])):
        p = copy.deepcopy(plan)
        del p["ops"][k]
        yield p
    for k, o in enumerate(plan["ops"]):
        for key in ("stop", "fault", "filter"):
            if key in o:
                p = copy.deepcopy(plan)
                del p["ops"][k][key]
                yield p
        if o["verbose"]:
            p = copy.deepcopy(plan)
            p["ops"][k]["verbose"] = 0
            yield p
    for k in list(plan["kw"]):
        if k in ("update_rho_options", "over_relax", "init", "n_samples", "kernel", "kernel_psi", "kernel_phi", "choose", "laplacian_penalty"):
            p = copy.deepcopy(plan)
            del p["kw"][k]
            yield p
    for n in (2, 5, 10):
        if plan["N"] > n:
            p = copy.deepcopy(plan)
            p["N"] = n
            for o in p["ops"]:
                o["budget"] = min(o["budget"], n)
            yield p
