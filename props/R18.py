"""R18: Bayesian structure selection: every sampled graph is scored by its definition and the best ones win."""
import copy
import itertools

import numpy as np

from sim import common, proc, state
from sim.tracer import FAULTS, Tracer, pick_fault

PID = "R18"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("a run counts when a selection over two or more distinct sampled graphs was decided, or a score was judged; "
        "distinct = distinct histories (operations, sizes, draws, fault sites)")
STATE_MEASURE = "distinct (operation, score, mode, number of distinct sampled graphs, fault site) tuples"
REAL = ["regain.bayesian.gwishart_inference and regain.covariance.graphical_lasso_ (all code, from /repo)", "sklearn LassoLars, scipy.optimize"]
STUB = ["numpy.random.choice: the simulator seeds it, or dictates extreme draws (always the likeliest, the unlikeliest, cyclic), and records them",
        "the caller: order of operations, interruptions, reuse of estimators"]
ASSUMPTIONS = ["posterior modes are compared to 1e-2 (mode covsel) or 3e-2 (mode gl, which solves with tolerance 1e-4, on covariances of condition number below 12) of the largest entry; "
               "a selection whose scores tie within 0.3 is accepted either way",
               "blankets are those of the library's own GraphicalLasso, which R07 decides"]
METHODS = ["bic", "laplace", "diaglaplace"]
DRAWS = ["seeded", "seeded", "likeliest", "unlikeliest", "cyclic"]


def gen_op(rng):
    r = rng.random()
    if r < 0.4:
        return {"op": "score", "d": rng.choice([2, 3, 4, 5]), "n": rng.choice([3, 10, 40, 100]), "seed": rng.randrange(10 ** 6), "method": rng.choice(METHODS),
                "mode": rng.choice(["covsel", "gl"]), "d0": rng.choice([None, 3, 5, 8]), "S0": rng.choice([None, "eye", "spd"]), "scale": rng.choice([0.3, 1, 1, 3])}
    if r < 0.46:
        return {"op": "ugs", "d": rng.choice([2, 3, 4])}
    if r < 0.54:
        return {"op": "blankets", "d": rng.choice([2, 3, 4]), "n": rng.randint(1, 6), "seed": rng.randrange(10 ** 6), "boolean": rng.random() < 0.6, "unique": rng.random() < 0.4}
    op = {"op": "select", "d": rng.choice([2, 3, 3, 4]), "n": rng.choice([15, 40, 100]), "seed": rng.randrange(10 ** 6), "scoring": rng.choice(METHODS),
          "mode": rng.choice(["covsel", "gl"]), "alphas": rng.choice([[0.05, 0.3], [0.02, 0.2, 0.6], [0.3, 0.05, 0.15, 0.5], [0.1], "default"]),
          "n_resampling": rng.choice([1, 2, 5, 12, 30]), "top_n": rng.choice([1, 1, 1, 2, 3, 8]), "draws": rng.choice(DRAWS), "via": rng.choice(["class", "class", "function"]),
          "centered": rng.random() < 0.25, "shift": rng.choice([0, 0, 1.5]), "k": rng.randrange(2)}
    if rng.random() < 0.25:
        op.update(interrupt=rng.choice(["KeyboardInterrupt", "MemoryError"]), u_site=rng.random(), u_occ=rng.random(), draws="seeded", n_resampling=2)
    return op


def generate(rng, i, tier):
    return {"ops": [gen_op(rng) for _ in range(rng.randint(1, 4))]}


def data(op):
    rs = np.random.RandomState(op["seed"])
    n, d = op["n"], op["d"]
    X = rs.randn(n, d).dot(np.eye(d) + 0.35 * rs.randn(d, d))
    X = X / np.maximum(X.std(axis=0), 1e-3) * op.get("scale", 1) * rs.choice([0.7, 1.0, 1.4], size=d)
    return X - X.mean(axis=0) + op.get("shift", 0) * rs.choice([-1, 1], size=d)


def mode_precision(C, A):
    """The minimiser of -logdet K + tr(CK) with K zero outside A (Hastie et al., algorithm 17.1)."""
    p = len(C)
    W = C.copy()
    for _ in range(3000):
        old = W.copy()
        for j in range(p):
            nb = [k for k in range(p) if k != j and A[j, k]]
            b = np.zeros(p)
            if nb:
                b[nb] = np.linalg.solve(W[np.ix_(nb, nb)], C[nb, j])
            r = np.arange(p) != j
            w = W[:, r].dot(b[r])
            w[j] = C[j, j]
            W[j, :] = W[:, j] = w
        if np.abs(W - old).max() < 1e-13 * np.abs(C).max():
            break
    K = np.linalg.inv(W)
    K[~(A | np.eye(p, dtype=bool))] = 0
    return (K + K.T) / 2


def score_of(X, A, P, d0, S0, method):
    """The score by its definition: BIC, or the Laplace approximation of the log marginal likelihood."""
    n, p = X.shape
    Xc = X - X.mean(axis=0)
    S = Xc.T.dot(Xc)
    edges = list(zip(*np.nonzero(np.triu(A | np.eye(p, dtype=bool)))))
    ld = lambda M: np.linalg.slogdet(M)[1]
    if method == "bic":
        return n / 2.0 * (ld(P) - p * np.log(2 * np.pi)) - np.sum(S * P) / 2 - len(edges) * np.log(n) / 2

    def logI(d, K):
        W, E = np.linalg.inv(K), []
        for i, j in edges:
            e = np.zeros((p, p))
            e[i, j] = e[j, i] = 1
            E.append(W.dot(e))
        H = (d - 2) / 2.0 * np.array([[np.sum(a * b.T) for a in E] for b in E])
        h = ld(H) if method == "laplace" else np.log(np.diag(H)).sum()
        return len(edges) / 2.0 * np.log(2 * np.pi) + (d - 2) / 2.0 * (ld(K) - p) - h / 2
    return logI(n + d0, P) - logI(d0, mode_precision(S0 / (d0 - 2), A)) - n * p / 2.0 * np.log(2 * np.pi)


def posterior_cov(X, d0, S0):
    Xc = X - X.mean(axis=0)
    return (Xc.T.dot(Xc) + S0) / (len(X) + d0 - 2)


def far(P, K, tol):
    P = np.asarray(P)
    return P.shape != K.shape or not np.all(np.isfinite(P)) or np.abs(P - K).max() > tol * np.abs(K).max()


def well(C):
    s = 1 / np.sqrt(np.diag(C))
    return np.linalg.cond(C) < 12 and np.diag(C).max() < 4 and np.diag(C).min() > 0.25 and np.linalg.cond(C * s[:, None] * s) < 12


def do_score(op):
    from regain.bayesian.gwishart_inference import GWishartScore
    X = data(op)
    n, d = X.shape
    rs = np.random.RandomState(op["seed"] + 1)
    G = np.triu(rs.rand(d, d) < rs.choice([0.2, 0.5, 0.9]), 1) | np.eye(d, dtype=bool)
    d0 = op["d0"] or 3 + d - 1
    S0 = None if op["S0"] is None else np.eye(d)
    if op["S0"] == "spd":
        B = rs.randn(d, d)
        S0 = B.dot(B.T) * 0.3 + np.eye(d)
    keep = [X.copy(), G.copy(), None if S0 is None else S0.copy()]
    kw = {} if S0 is None else {"S0": S0}
    r = GWishartScore(X, G, d0=d0, score_method=op["method"], mode=op["mode"], **kw)
    if not np.array_equal(keep[0], X) or not np.array_equal(keep[1], G) or (S0 is not None and not np.array_equal(keep[2], S0)):
        return "arguments", "scoring a graph overwrote its arguments", None
    S0 = (d0 - 2) * np.diag(X.var(axis=0)) if S0 is None else S0
    A = G | G.T
    C = posterior_cov(X, d0, S0)
    P = np.asarray(r.P, float)
    if P.shape != (d, d) or not np.all(np.isfinite(P)) or not np.allclose(P, P.T, atol=1e-9 * np.abs(P).max()):
        return "mode", "the precision attached to a graph is not a symmetric matrix", None
    if np.any(P[~A] != 0):
        return "mode", "the precision attached to a graph is not zero where the graph has no edge", None
    if op["mode"] == "covsel" or well(C):
        K = mode_precision(C, A)
        if far(P, K, 1e-2 if op["mode"] == "covsel" else 3e-2):
            return "mode", "the precision attached to a graph (mode %s) is not its posterior mode: %s, expected %s" % (op["mode"], np.round(P, 4).tolist(), np.round(K, 4).tolist()), None
    if np.linalg.eigvalsh(P)[0] <= 1e-10 * np.abs(P).max():
        return None, None, None
    want = score_of(X, A, P, d0, S0, op["method"])
    # (the mode of the prior is itself found numerically unless it is diagonal)
    if not abs(r.score - want) <= (2e-2 if op["S0"] == "spd" and op["method"] != "bic" else 1e-5 * max(10, abs(want))):
        return "score", "the %s score of a graph with %d edges (n=%d, p=%d) is %.8g, expected %.8g" % (op["method"], np.triu(A, 1).sum(), n, d, r.score, want), None
    return None, None, [np.round(P, 5), round(float(r.score), 3)]


def do_ugs(op):
    from regain.bayesian.gwishart_inference import mk_all_ugs
    d = op["d"]
    G = np.asarray(mk_all_ugs(d))
    if G.shape != (2 ** (d * (d - 1) // 2), d, d) or np.any(G != G.transpose(0, 2, 1)) or np.any(G[:, range(d), range(d)]) or len({g.tobytes() for g in G.astype(bool)}) != len(G):
        return "graphs", "mk_all_ugs(%d) does not list every undirected graph exactly once" % d, None
    e = G.sum(axis=(1, 2))
    if np.any(np.diff(e.astype(int)) < 0):
        return "graphs", "mk_all_ugs(%d) is not ordered by the number of edges" % d, None
    return None, None, int(e.sum())


def do_blankets(op):
    from regain.bayesian.gwishart_inference import markov_blankets
    rs = np.random.RandomState(op["seed"])
    d = op["d"]
    graphs = []
    for _ in range(op["n"]):
        A = np.triu(rs.randn(d, d) * (rs.rand(d, d) < 0.5), 1)
        A[rs.rand(d, d) < 0.2] *= 1e-12
        graphs.append(A + A.T + np.eye(d))
    if op["n"] > 2:
        graphs[-1] = graphs[0].copy()
    keep = [g.copy() for g in graphs]
    out = markov_blankets(graphs, boolean=op["boolean"], tol=1e-8, unique=op["unique"])
    if any(not np.array_equal(a, b) for a, b in zip(keep, graphs)):
        return "arguments", "markov_blankets overwrote its graphs", None
    want = np.array([[np.where((np.abs(g[i]) < 1e-8) | (np.arange(d) == i), 0, g[i]) for g in keep] for i in range(d)])
    want = want != 0 if op["boolean"] else want
    out = np.asarray(out)
    if op["unique"]:
        rows = {want[:, k].tobytes() for k in range(op["n"])}
        ok = out.ndim == 3 and out.shape[0] == d and {np.ascontiguousarray(out[:, k]).astype(want.dtype).tobytes() for k in range(out.shape[1])} == rows and out.shape[1] == len(rows)
    else:
        ok = out.shape == want.shape and np.array_equal(out, want)
    if not ok:
        return "blankets", "markov_blankets does not return each variable's neighbours in each graph", None
    return None, None, want.astype(float)


class Choice:
    """numpy.random.choice under the simulator's control."""

    def __init__(self, how):
        self.how, self.calls = how, []

    def __enter__(self):
        self.real = np.random.choice
        np.random.choice = self
        return self

    def __exit__(self, *a):
        np.random.choice = self.real

    def __call__(self, a, size=None, replace=True, p=None):
        if self.how == "seeded" or p is None or size is None or not np.isscalar(a) or not np.isscalar(size) or not replace:
            out = self.real(a, size=size, replace=replace, p=p)
        else:
            k, p_ = int(a), np.asarray(p)
            pos = np.nonzero(p_ > 0)[0]
            if self.how == "cyclic":
                out = pos[(np.arange(size) + len(self.calls)) % len(pos)]
            else:
                out = np.full(size, pos[np.argmax(p_[pos])] if self.how == "likeliest" else pos[np.argmin(p_[pos])])
        self.calls.append((a, None if p is None else np.array(p), size, np.array(out)))
        return out


def perform(op, pool, X):
    kw = dict(alphas=None if op["alphas"] == "default" else list(op["alphas"]), n_resampling=op["n_resampling"], mode=op["mode"], top_n=op["top_n"],
              scoring=op["scoring"], assume_centered=op["centered"], tol=1e-4, max_iter=100)
    from regain.bayesian import gwishart_inference as m
    common.seed_streams(op["seed"])
    if op["via"] == "function":
        return m.bayesian_graphical_lasso(X, **kw)
    if pool[op["k"]] is None:
        pool[op["k"]] = m.BayesianGraphicalLasso()
    est = pool[op["k"]].set_params(**kw)
    if est.fit(X) is not est:
        raise AssertionError("fit did not return the estimator")
    for a, v in kw.items():
        if np.any(np.asarray(est.get_params()[a], dtype=object) != np.asarray(v, dtype=object)):
            raise AssertionError("fit changed the parameter %s" % a)
    for a, v in (("location_", np.zeros(op["d"]) if op["centered"] else X.mean(axis=0)), ("covariance_", np.linalg.inv(est.precision_))):
        if hasattr(est, a) and far(getattr(est, a), v, 1e-6) and np.abs(np.asarray(getattr(est, a)) - v).max() > 1e-9:
            raise AssertionError("%s does not belong to this fit" % a)
    return est.precision_


def sites(op):
    common.quiet()
    with Tracer(record=True) as tr:
        common.outcome(lambda: perform(op, [None, None], data(op)))
    return tr.seq


def do_select(op, pool, stats):
    from regain.covariance import GraphicalLasso
    from sklearn.linear_model import LassoLars
    X = data(op)
    d, keep = op["d"], X.copy()
    if op.get("interrupt"):
        f = op if "site" in op else pick_fault(proc.call(sites, op), op["interrupt"], op["u_site"], op["u_occ"])
        if f is not None:
            with Tracer(fault=f) as tr:
                try:
                    perform(op, pool, X)
                    if tr.fired:
                        return "swallowed", "an interrupted selection returned", None
                except (KeyboardInterrupt, MemoryError):
                    pass
            if tr.fired:
                stats["faults"][op["interrupt"]] = stats["faults"].get(op["interrupt"], 0) + 1
                stats["states"].append("site:%s" % (f["site"],))
    with Choice(op["draws"]) as ch:
        P = np.asarray(perform(op, pool, X), float)
    stats["faults"]["draws:" + op["draws"]] = stats["faults"].get("draws:" + op["draws"], 0) + 1
    if not np.array_equal(keep, X):
        return "arguments", "the selection overwrote its data", None
    if P.shape != (d, d) or not np.all(np.isfinite(P)) or not np.allclose(P, P.T, atol=1e-9 * max(1e-300, np.abs(P).max())):
        return "result", "the result is not a symmetric matrix", None
    # what may be sampled, and with which probability
    alphas = np.logspace(-2, 0, 20) if op["alphas"] == "default" else op["alphas"]
    blank = []
    for a in alphas:
        K = GraphicalLasso(alpha=a, assume_centered=op["centered"], tol=1e-4, max_iter=100).fit(X).precision_
        B = np.abs(K) >= 1e-4
        np.fill_diagonal(B, False)
        blank.append(B)
    mb = np.unique(np.array([[B[i] for B in blank] for i in range(d)]), axis=1)
    k = mb.shape[1]
    sc = np.zeros((d, k))
    for i in range(d):
        for j in range(k):
            Z = X[:, mb[i, j]] if mb[i, j].any() else np.zeros((len(X), 1))
            sc[i, j] = sum(LassoLars(alpha=a).fit(Z, X[:, i]).score(Z, X[:, i]) for a in (0.01, 0.5, 1))
    w = np.exp(sc)
    w /= w.sum(axis=1, keepdims=True)
    exact = [c for c in ch.calls if c[1] is not None and len(c[1]) == k and c[2] == op["n_resampling"]]
    if len(exact) == d and len(ch.calls) == d:
        ps = np.array([c[1] for c in exact])
        if not np.allclose(np.sort(ps, axis=1), np.sort(w, axis=1), atol=1e-6):
            return "probabilities", "blankets are drawn with probabilities %s, expected %s" % (np.round(ps, 4).tolist(), np.round(w, 4).tolist()), None
        known = np.allclose(ps, w, atol=1e-6)
    else:
        known = False
    d0, S0 = 3 + d - 1, np.eye(d)
    C = posterior_cov(X, d0, S0)
    if op["mode"] == "gl" and not well(C):
        return None, None, None
    if known:
        idx = np.array([c[3] for c in exact])
        sampled = [np.array([mb[i, idx[i, r]] for i in range(d)]) for r in range(op["n_resampling"])]
        sampled = [g & g.T for g in sampled]
    else:
        if k ** d > 300:
            return None, None, None
        sampled = [np.array([mb[i, c[i]] for i in range(d)]) for c in itertools.product(range(k), repeat=d)]
        sampled = [g & g.T for g in sampled]
    cache = {}
    for g in sampled:
        if g.tobytes() not in cache:
            K = mode_precision(C, g)
            cache[g.tobytes()] = (score_of(X, g, K, d0, S0, op["scoring"]), K)
    tol = 1e-2 if op["mode"] == "covsel" else 3e-2
    stats["states"].append("select/%s/%s/%d" % (op["scoring"], op["mode"], len(cache)))
    top = min(op["top_n"], op["n_resampling"])
    if not known:  # (drawn in another way than the simulator knows: only what holds for every draw)
        if top == 1 and all(far(P, K, tol) for _, K in cache.values()):
            return "result", "the result belongs to none of the graphs that can be sampled", None
        return None, None, None
    vals = sorted((cache[g.tobytes()] for g in sampled), key=lambda x: -x[0])
    if top < len(vals) and vals[top - 1][0] - vals[top][0] < 0.3:
        cut = vals[top][0]
        tie = [v for v in vals if abs(v[0] - cut) < 0.6]
        if len({v[1].tobytes() for v in tie}) > 1:  # nearly tied: only for a single winner can the answer be judged
            if top == 1 and all(far(P, v[1], tol) for v in tie):
                return "result", "the result is not the mode of any of the best scoring sampled graphs", None
            return None, None, ["tie"]
    want = np.mean([v[1] for v in vals[:top]], axis=0)
    if far(P, want, tol):
        return "result", "the result is not the mean of the %d best scoring of %d sampled graphs (%d distinct; %s, %s): %s, expected %s" % (
            top, len(vals), len(cache), op["scoring"], op["mode"], np.round(P, 3).tolist(), np.round(want, 3).tolist()), None
    return None, None, [np.round(want, 6), len(cache)]


def execute(plan):
    common.quiet()
    np.seterr(all="ignore")
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    trace, imgs, counted = [], [], False
    pool = [None, None]
    for op in plan["ops"]:
        name = op["op"]
        stats["steps"] += 1
        trace.append("%s %s" % (name, {k: v for k, v in op.items() if k not in ("op", "u_site", "u_occ")}))
        try:
            cls, detail, img = do_select(op, pool, stats) if name == "select" else {"score": do_score, "ugs": do_ugs, "blankets": do_blankets}[name](op)
        except Exception as e:
            cls, detail, img = "crash", "%s raised %s: %s" % (name, type(e).__name__, str(e)[:150]), None
        if cls:
            return {"status": "violation", "cls": cls, "detail": detail, "stats": stats, "trace": trace}
        if name == "score":
            stats["states"].append("score/%s/%s/%d" % (op["method"], op["mode"], op["d"]))
        counted = counted or (name == "score" and img is not None) or (name == "select" and img is not None and len(img) > 1 and img[1] > 1)
        imgs.append(img)
    out = {"status": "ok", "stats": stats, "digest": state.digest(state.encode(imgs)), "note": plan["ops"][0]["op"]}
    if counted:
        out["nontrivial"] = str(plan["ops"])
    return out


def concretise(plan, res):
    return plan


def shrinks(plan):
    for k in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            p = copy.deepcopy(plan)
            del p["ops"][k]
            yield p
    for k, op in enumerate(plan["ops"]):
        for a, v in (("d", 2), ("d", 3), ("top_n", 1), ("n_resampling", 1), ("alphas", [0.05, 0.3]), ("mode", "covsel"), ("scoring", "bic"), ("via", "function"), ("centered", False), ("shift", 0), ("S0", "eye"), ("scale", 1)):
            if a in op and op[a] != v and not (a == "d" and op[a] < v):
                p = copy.deepcopy(plan)
                p["ops"][k][a] = v
                yield p
        if op.get("interrupt"):
            p = copy.deepcopy(plan)
            for a in ("interrupt", "u_site", "u_occ"):
                del p["ops"][k][a]
            yield p
