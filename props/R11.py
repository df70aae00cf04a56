"""R11: the Wishart-process sampler records consistent samples under every stream and failed draw."""
import copy

import numpy as np

from sim import common, proc, seams, state, zoo
from sim.tracer import StepBudget, Tracer, pick_fault

PID = "R11"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("a run counts when a chain was finished and all its records were recomputed; distinct = distinct (parameters, data, stream, "
        "draw faults) plans by the digest of the chain they gave")
STATE_MEASURE = "distinct (kind of run, draw-fault kinds fired, accepted/kept pattern of the first 12 steps)"
REAL = ["regain.bayesian (sampler, estimator; all code from /repo)", "scipy.stats densities"]
STUB = ["numpy.random draws: passed through, replaced by extreme legal values, or failed",
        "in most runs scipy's test whether data lie in the support of a singular normal is disabled: the estimator's covariances have rank one, "
        "for which current scipy answers -inf for every sample; without the test the densities are finite as in the scipy versions the library was written for"]
ASSUMPTIONS = ["the log-likelihood is the library's: per time point, the number of samples times the summed normal log-density",
               "covariances of rank one have no inverse: the precision has to be their Moore-Penrose inverse"]
WALL = 60


class Draws(seams.RngFault):
    """Fails the multivariate-normal draws with the given ordinals; replaces single uniform draws."""

    def __init__(self, fails, uni, limit):
        super().__init__()
        self.fails, self.uni, self.limit = set(fails), {int(k): v for k, v in uni}, limit
        self.mvn = self.u = 0
        self.pending = None  # size of a failed draw not yet made good
        self.ignored = None

    def draw(self, name, orig, a, k):
        self.n += 1
        if name == "multivariate_normal":
            i = self.mvn
            self.mvn += 1
            if self.mvn > self.limit:
                raise StepBudget("%d draws" % self.mvn)
            if i in self.fails:
                self.fire("draw_fails")
                self.pending = int(np.prod(k.get("size", 1))) * len(a[0]) if a else 1
                raise np.linalg.LinAlgError("simulated: SVD did not converge")
        out = orig(*a, **k)
        if self.pending is not None:
            if np.size(out) >= self.pending:
                self.pending = None
            elif self.ignored is None:
                self.ignored = "a failed draw was neither repeated nor raised: the next draw is %s" % name
        if name == "uniform":
            act = self.uni.get(self.u)
            self.u += 1
            if act:
                return self.mutate(name, act, out, a, k)
        return out


def generate(rng, i, tier):
    n_iter = rng.choice([1, 2, 4, 8, 12, 20] if tier == "quick" else [4, 12, 20, 40, 80])
    spec = {"est": "WP", "data": zoo.gen_data(rng, "WP")}
    spec["params"] = P = zoo.gen_params(rng, "WP", spec["data"]["T"], spec["data"]["d"])
    spec["data"]["d"] = rng.choice([2, 2, 3, 4])
    spec["data"]["T"] = rng.choice([1, 2, 3, 4, 5])
    P["n_iter"] = n_iter
    P["theta"] = rng.choice([0.05, 0.5, 2, 10, 100])
    P.pop("burn_in", None)
    P.pop("verbose", None)
    r = rng.random()
    if r < 0.3:
        P["burn_in"] = 0
    elif r < 0.6:
        P["burn_in"] = rng.randrange(n_iter)
    P["learn_ell"] = rng.random() < 0.55
    if rng.random() < 0.2:
        P["kernel"] = rng.choice(["rbf", "periodic"])
    if rng.random() < 0.3:
        P["var_Lprop"] = rng.choice([0.01, 1.0])
    if rng.random() < 0.3:
        P["var_prop"] = rng.choice([0.1, 10.0])
    mode = rng.choice(["est", "est", "fn"])
    fails = []
    r = rng.random()
    if r < 0.5:
        at = 1 + rng.randrange(max(1, n_iter)) if rng.random() < 0.9 else 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            b = rng.choice([1, 1, 2, 5])
            fails += list(range(at, at + b))
            at += b + rng.randrange(4)
    uni = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 5, 10])):
            at, act = rng.randrange(8 * n_iter + 4), rng.choice(["low", "high"])
            uni.append([at, act])
    elif rng.random() < 0.5:
        # bursts keep the slice bracket from shrinking, so that a step runs out of proposals
        P["learn_ell"] = rng.random() < 0.3
        at = 0
        while at < 20 * n_iter:
            at += rng.choice([0, 1, 2, 3, 5, 8])
            for k in range(rng.choice([19, 20, 20, 21, 22])):
                uni.append([at, "high"])
                at += 1
            at += 1
    plan = {"mode": mode, "spec": spec, "stream": rng.randrange(10 ** 6), "fails": sorted(set(fails)), "uni": uni,
            "support": rng.random() < (0.1 if mode == "est" else 0.5), "prefix": rng.randrange(1, n_iter + 1) if rng.random() < 0.5 else None}
    if mode == "fn":
        plan["nu"] = rng.choice([None, None, 1, 2])
    if mode == "est" and rng.random() < 0.3:
        plan["pre"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "u_site": rng.random(), "u_occ": rng.random(),
                       "data": common.alt_data(rng, spec)}
    return plan


def loglik(groups, cov):
    """Independent (pseudo-)density: eigenvalues at or below scipy's cut-off span the null space."""
    tot = 0.0
    for x, S in zip(groups, cov):
        w, V = np.linalg.eigh((S + S.T) / 2)
        eps = 1e6 * np.finfo(float).eps * np.max(np.abs(w))
        pos = w > eps
        if np.any(np.abs(w - eps) < 0.5 * eps) or np.min(w) < -eps or not np.isfinite(w).all():
            return None  # numerically on the edge: no verdict
        z = x.dot(V)
        ll = -0.5 * (pos.sum() * np.log(2 * np.pi) + np.log(w[pos]).sum() + (z[:, pos] ** 2 / w[pos]).sum(1))
        if SUPPORT:
            out = np.linalg.norm(z[:, ~pos], axis=1)
            if (~pos).any():
                if np.any((out > eps * 1e-2) & (out < eps * 1e2)) or pos.sum() == 0:
                    return None
                ll = np.where(out < eps, ll, -np.inf)
        tot += len(x) * ll.sum()
    return tot


SUPPORT = True


def covs(u, L):
    """u: (nu, p, T) -> (T, p, p) of L (sum_i u_it u_it') L'."""
    return np.array([L.dot(u[:, :, t].T.dot(u[:, :, t])).dot(L.T) for t in range(u.shape[2])])


def make_groups(args, centred):
    X, y = np.asarray(args[0], dtype=float), args[1]
    gs = []
    for c in np.unique(y):
        g = X[y == c]
        gs.append(g if centred else g - g.mean(0))
    return gs


def same(a, b):
    return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= 1e-6 * (1 + abs(b))


def chain(plan, n_iter=None, burn_in=None):
    """Run the chain; returns ("raise", ...) or ("ok", dict of records)."""
    spec = copy.deepcopy(plan["spec"])
    P = spec["params"]
    if n_iter is not None:
        P["n_iter"] = n_iter
    if burn_in is not None:
        P["burn_in"] = burn_in
    fz = Draws(plan["fails"], plan["uni"], len(plan["fails"]) + P["n_iter"] + 5)
    args = zoo.make_data(spec["data"])
    try:
        if plan["mode"] == "est":
            est = zoo.make_est(spec)
            pre = plan.get("pre")
            if pre:
                d2 = zoo.make_data(pre["data"])
                try:
                    common.seed_streams(plan["stream"] + 1)
                    with Tracer(fault=pre["fault"] if "fault" in pre else None):
                        est.fit(*d2)
                except Exception:
                    pass
                except KeyboardInterrupt:
                    pass
            common.seed_streams(plan["stream"])
            with seams.active(fz):
                est.fit(*args)
            b = P.get("burn_in")
            b = P["n_iter"] // 4 if b is None else b
            out = {"u": list(est.samples_u_after_burnin), "ll": np.array(est.loglikes_after_burnin), "lps": np.array(est.lps_after_burnin),
                   "want": P["n_iter"] - b, "umap": est.u_map, "Lmap": est.Lmap, "lmap": est.lmap, "cov": est.covariance_, "prec": est.precision_,
                   "dmap": est.D_map}
            learn = P.get("learn_ell", True)
            out["L"] = [np.array(x) for x in est.Ls_after_burnin] if learn else None
            if not spec["data"]["ragged"]:
                out["score"] = float(est.score(*args))
        else:
            from functools import partial

            from scipy import stats

            import regain.bayesian.wishart_process_ as wp
            from regain.bayesian.stats import lognstat, t_mvn_logpdf

            gs = make_groups(args, P.get("assume_centered", False))
            mu, sg = lognstat(1, 10)
            p = gs[0].shape[1]
            L = None
            if not P.get("learn_ell", True):
                rs = np.random.RandomState(plan["stream"])
                L = np.tril(rs.randn(p, p)) + np.eye(p)
            kern = partial(wp._periodic_kernel if P.get("kernel") == "periodic" else partial(wp._rbf_kernel, var=1), np.unique(args[1])[:, None])
            common.seed_streams(plan["stream"])
            with seams.active(fz):
                res = wp.fit(P["theta"], P.get("var_prop", 1), stats.lognorm(loc=0, s=sg, scale=np.exp(mu)), P.get("var_Lprop", 10),
                             stats.norm(loc=1, scale=1), kern, p, nu=plan.get("nu"), n_iter=P["n_iter"], likelihood=partial(t_mvn_logpdf, gs), L=L)
            out = {"u": list(res[0]), "ll": np.array(res[1]), "lps": np.array(res[2]), "want": P["n_iter"],
                   "L": [np.array(x) for x in res[3]] if L is None else None, "Lmap": L}
    except StepBudget as e:
        return ("endless", str(e)), fz.fired
    except Exception as e:
        return ("raise", type(e).__name__, str(e)[:200], isinstance(e, np.linalg.LinAlgError)), fz.fired
    if fz.pending is not None:
        out["ignored"] = fz.ignored or "a failed draw was neither repeated nor raised"
    elif fz.ignored:
        out["ignored"] = fz.ignored
    return ("ok", out), fz.fired


def body(plan):
    global SUPPORT
    common.quiet()
    SUPPORT = plan["support"]
    if not SUPPORT:
        from scipy.stats import _multivariate as mv

        mv._PSD._support_mask = lambda self, x: np.ones(np.shape(x)[:-1], dtype=bool)
    res, fired = chain(plan)
    if res[0] != "ok":
        return res, fired, None
    o = res[1]
    P = plan["spec"]["params"]
    n = o["want"]
    bad = None
    if o.get("ignored"):
        return ("bad", "draw-failure-ignored", o["ignored"]), fired, o
    if not (len(o["u"]) == len(o["ll"]) == len(o["lps"]) == n and (o["L"] is None or len(o["L"]) == n)):
        bad = ("count", "%d samples were requested after burn-in; recorded: %d samples, %d likelihoods, %d kernel parameters%s"
               % (n, len(o["u"]), len(o["ll"]), len(o["lps"]), "" if o["L"] is None else ", %d factors" % len(o["L"])))
        return ("bad",) + bad, fired, o
    gs = make_groups(zoo.make_data(plan["spec"]["data"]), P.get("assume_centered", False))
    checked = 0
    for i in range(n):
        L = o["L"][i] if o["L"] is not None else o["Lmap"]
        ll = loglik(gs, covs(o["u"][i], L))
        if ll is None:
            continue
        checked += 1
        if not same(ll, o["ll"][i]):
            return ("bad", "inconsistent-record", "record %d of %d: stored log-likelihood %.10g, that of its stored parameters is %.10g"
                    % (i, n, o["ll"][i], ll)), fired, o
        if not (np.isfinite(o["lps"][i]) and o["lps"][i] > 0):
            return ("bad", "kernel-parameter", "record %d: inverse width %r" % (i, o["lps"][i])), fired, o
    if "umap" in o and n and not np.isnan(o["ll"]).any():
        best = np.max(o["ll"])
        ties = [i for i in range(n) if o["ll"][i] == best]
        hit = [i for i in ties if np.array_equal(o["umap"], o["u"][i]) and o["lmap"] == o["lps"][i]
               and (o["L"] is None or np.array_equal(o["Lmap"], o["L"][i]))]
        if not hit:
            return ("bad", "estimate", "the reported estimate is not the recorded sample of highest likelihood (record %s)" % ties), fired, o
        C = covs(o["umap"], o["Lmap"])
        sc = np.abs(C).max() + 1e-300
        if o["cov"].shape != C.shape or np.abs(o["cov"] - C).max() > 1e-8 * sc:
            return ("bad", "covariance", "covariance_ is not the covariance of the reported sample"), fired, o
        if np.abs(np.moveaxis(o["dmap"], 2, 0) - C).max() > 1e-8 * sc:
            return ("bad", "covariance", "D_map is not the covariance of the reported sample"), fired, o
        for t in range(len(C)):
            c, q = o["cov"][t], o["prec"][t]
            s1 = np.abs(c).max() + 1e-300
            if np.abs(q).max() > 1e9 / s1 and np.linalg.eigvalsh(c)[0] < 1e-9 * s1:
                continue  # rounding noise of a singular matrix was inverted: no product of the two means anything
            if np.abs(c.dot(q).dot(c) - c).max() > 1e-5 * s1 or np.abs(q.dot(c).dot(q) - q).max() > 1e-5 * (np.abs(q).max() + 1e-300):
                return ("bad", "inverse", "precision and covariance at time %d are not inverse to each other" % t), fired, o
        if "score" in o and best > -np.inf and not same(o["score"], best):
            return ("bad", "score", "score on the training data is %.10g, the likelihood of the reported sample %.10g" % (o["score"], best)), fired, o
    if plan["prefix"] is not None:
        k = plan["prefix"]
        a, _ = chain(plan, burn_in=0) if plan["mode"] == "est" else (res, None)
        b, _ = chain(plan, n_iter=k, burn_in=0)
        if a[0] == "ok":
            if b[0] != "ok":
                return ("bad", "prefix", "a chain of %d steps fails (%s) where the same chain of %d steps does not" % (k, b[1:3], P["n_iter"])), fired, o
            for i in range(k):
                for f in ("u", "L"):
                    if a[1][f] is not None and not np.array_equal(a[1][f][i], b[1][f][i], equal_nan=True):
                        return ("bad", "record-changed", "record %d (%s) of a chain of %d steps is altered by the steps up to %d" % (i, f, k, P["n_iter"])), fired, o
                if not (same(a[1]["ll"][i], b[1]["ll"][i]) and a[1]["lps"][i] == b[1]["lps"][i]):
                    return ("bad", "record-changed", "record %d of a chain of %d steps is altered by the steps up to %d" % (i, k, P["n_iter"])), fired, o
    o["checked"] = checked
    return ("ok",), fired, o


def execute(plan):
    common.quiet()
    if "pre" in plan and "fault" not in plan["pre"]:
        seq = common.record(plan["spec"], plan["pre"]["data"], plan["stream"] + 1)
        if seq:
            plan = copy.deepcopy(plan)
            plan["pre"]["fault"] = pick_fault(seq, plan["pre"]["kind"], plan["pre"]["u_site"], plan["pre"]["u_occ"])
    res, fired, o = proc.call(body, plan)
    stats = {"faults": dict(fired), "probes": {}, "steps": plan["spec"]["params"]["n_iter"], "states": []}
    who = "%s%s" % (plan["mode"], "" if plan["support"] else "/nosupport")
    if res[0] == "ok":
        pat = "".join("=" if i and np.array_equal(o["u"][i], o["u"][i - 1]) else "+" for i in range(min(12, len(o["u"]))))
        stats["states"].append("%s|%s|%s" % (who, ",".join(sorted(fired)), pat))
        stats["probes"]["records recomputed"] = o["checked"]
        dg = state.digest([np.array(o["ll"]), np.array(o["lps"])])
        return {"status": "ok", "stats": stats, "digest": dg, "nontrivial": dg if o["checked"] else None, "note": "%s: %d records" % (who, o["checked"])}
    if res[0] == "raise":
        if not fired and "simulated" not in res[2]:
            stats["probes"]["raised without fault"] = 1
        if "simulated" in res[2] and min(plan["fails"], default=0) > 0:
            stats["probes"]["draw failure raised"] = 1
        return {"status": "ok", "stats": stats, "digest": state.digest(res[:2]), "nontrivial": None, "note": "%s raised %s" % (who, res[1])}
    if res[0] == "endless":
        return {"status": "violation", "cls": "endless", "stats": stats, "detail": "WishartProcess (%s): the chain keeps drawing after the failures stopped: %s" % (who, res[1]),
                "trace": ["failing draws %s" % plan["fails"]]}
    return {"status": "violation", "cls": res[1], "stats": stats, "detail": "WishartProcess (%s): %s" % (who, res[2]),
            "trace": ["parameters %s" % plan["spec"]["params"], "failing draws %s" % plan["fails"], "replaced draws %s" % plan["uni"], res[2]]}


def shrinks(plan):
    for k in ("pre", "prefix"):
        if plan.get(k) is not None:
            p = copy.deepcopy(plan)
            p[k] = None
            if k == "pre":
                del p[k]
            yield p
    for k in ("fails", "uni"):
        for i in range(len(plan[k])):
            p = copy.deepcopy(plan)
            del p[k][i]
            yield p
    for f in ("T", "d", "n"):
        v = plan["spec"]["data"][f]
        if v > 1 and f not in ("d", "n") or v > 2:
            p = copy.deepcopy(plan)
            p["spec"]["data"][f] = v - 1
            yield p
    n = plan["spec"]["params"]["n_iter"]
    if n > 1:
        p = copy.deepcopy(plan)
        p["spec"]["params"]["n_iter"] = n - 1
        if p["spec"]["params"].get("burn_in", 0) >= n - 1:
            p["spec"]["params"]["burn_in"] = 0
        if p["prefix"] and p["prefix"] > n - 1:
            p["prefix"] = n - 1
        yield p
