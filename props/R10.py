"""R10: whatever the random stream yields, a generator raises or returns a well-formed data set."""
import copy
import itertools
import random

import numpy as np

from sim import common, gens, seams, state

PID = "R10"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 200000}
RULE = ("a run counts when the generator returned a data set and it was judged; distinct = distinct (request, stream, adversarial "
        "draw pattern) triples whose draws were actually altered or whose plain seeded data set was judged")
STATE_MEASURE = "distinct (generator, update rules, kind of altered draw) combinations judged"
REAL = ["regain.datasets (all code, from /repo)", "numpy and networkx"]
STUB = ["some draws of numpy.random are replaced by extreme but legal values of the same distribution and shape"]
ASSUMPTIONS = ["raising is an acceptable answer to an unlucky draw"]
SAMPLERS = ["ising_sampler", "poisson_sampler"]


def gen_req(rng):
    r = rng.random()
    if r < 0.13:
        n = rng.choice([2, 3, 5])
        return {"gen": "ising_sampler", "kw": {"n": rng.choice([1, 3, 6]), "method": rng.choice(["MH", "MH", "CFTP", "direct"]), "responses": rng.choice([[-1, 1], [0, 1]]),
                                               "max_iter": 3, "beta": rng.choice([0.1, 0.2])}, "d": n, "gseed": rng.randrange(10 ** 6)}
    if r < 0.23:
        return {"gen": "poisson_sampler", "kw": {"n_samples": rng.choice([1, 3, 6]), "_type": rng.choice(["LPGM", "Gibbs"]), "max_iter": 3,
                                                 "_lambda": rng.choice([0.5, 1, 2])}, "d": rng.choice([2, 3, 6]), "gseed": rng.randrange(10 ** 6)}
    while True:
        q = gens.gen_request(rng, gens.NAMES + list(gens.TICC))
        if q["gen"] == "cov" and rng.random() < 0.2:
            q["kw"]["n_dim_obs"] = rng.choice([22, 22, 30, 45])
            q["kw"]["proportional"] = rng.random() < 0.7
        return q


def generate(rng, i, tier):
    q = gen_req(rng)
    adv = None
    if rng.random() < 0.65:
        if rng.random() < 0.6:
            adv = {"actions": {str(rng.randrange(25)): rng.choice(["low", "high", "repeat"]) for _ in range(rng.choice([1, 2, 4]))}}
        else:
            adv = {"rate": rng.choice([0.1, 0.3]), "mode": rng.choice(["low", "high", "repeat"]), "seed": rng.randrange(10 ** 6)}
    return {"req": q, "stream": rng.randrange(2 ** 31), "adv": adv}


class Endless(BaseException):
    pass


class Spy(seams.RngFault):
    """Also notes every covariance a Gaussian sample was asked for."""

    def __init__(self, **k):
        super().__init__(**k)
        self.mvn = []

    def draw(self, name, orig, a, k):
        if self.n > 300000:
            raise Endless()
        if name == "multivariate_normal":
            cov = a[1] if len(a) > 1 else k.get("cov")
            size = a[2] if len(a) > 2 else k.get("size")
            self.mvn.append((np.array(cov, dtype=float), size))
        return super().draw(name, orig, a, k)


def call(q):
    g = q["gen"]
    if g == "ising_sampler":
        from regain.datasets.ising import ising_sampler
        rs = np.random.RandomState(q["gseed"])
        A = np.triu(rs.choice([-1.0, 0, 1], size=(q["d"], q["d"])), 1)
        return ising_sampler(A + A.T, 0.3 * rs.randn(q["d"]), **q["kw"])
    if g == "poisson_sampler":
        from regain.datasets.poisson import poisson_sampler
        rs = np.random.RandomState(q["gseed"])
        A = np.triu((rs.rand(q["d"], q["d"]) < 0.5).astype(int), 1)
        A = A + A.T
        if q["kw"]["_type"] != "LPGM":
            A = -A
        return poisson_sampler(A, variances=np.zeros(q["d"]), **q["kw"])
    return gens.call(q)


# -- what well-formed means -------------------------------------------------------
class Bad(Exception):
    pass


def need(ok, cls, msg):
    if not ok:
        raise Bad(cls, msg)


def sym(A):
    return np.allclose(A, np.swapaxes(A, -1, -2), rtol=0, atol=1e-9 * max(1.0, np.abs(A).max() if A.size else 1))


def pd(A, strict=False):
    """Positive definite up to what a factorisation can tell; strict: numerically nonsingular as well."""
    w = np.linalg.eigvalsh((A + A.T) / 2)
    return w[0] > (1e-16 if strict else -1e-13) * w[-1] and w[-1] > 0


def psd(A):
    w = np.linalg.eigvalsh((A + A.T) / 2)
    return w[0] > -1e-8 * max(1.0, abs(w[-1]))


def rank(A):
    return np.linalg.matrix_rank(A, tol=1e-8 * max(1.0, np.abs(A).max()))


def off(A):
    return A - np.diag(np.diag(A))


def edges(A):
    return int(np.count_nonzero(np.triu(np.abs(A) > 1e-12, 1)))


def graph_checks(Gs, kw, d, T, change, values, add=True):
    need(len(Gs) == T, "shape", "%d graphs for T=%d" % (len(Gs), T))
    for t, G in enumerate(Gs):
        G = np.asarray(G)
        need(G.shape == (d, d), "shape", "graph of shape %s" % (G.shape,))
        need(np.array_equal(G, G.T), "asymmetric", "graph %d is not symmetric" % t)
        need(not np.diag(G).any(), "self-loop", "graph %d has a self-loop" % t)
        need(np.isin(G, values).all(), "values", "graph %d has weights %s" % (t, np.unique(G)))
    G0 = np.asarray(Gs[0])
    k = kw.get("random_graph", "scale-free")
    deg = kw.get("degree", 2)
    if k == "scale-free":
        need(edges(G0) == deg * (d - deg), "edge-count", "%d edges, a scale-free graph of degree %d on %d nodes has %d" % (edges(G0), deg, d, deg * (d - deg)))
    elif k == "small-world":
        need(edges(G0) == d * (deg // 2), "edge-count", "%d edges, a small-world graph has %d" % (edges(G0), d * (deg // 2)))
    elif k == "other" and kw.get("_poisson"):
        need(edges(G0) == min(deg, d * (d - 1) // 2), "edge-count", "%d edges requested, %d present" % (deg, edges(G0)))
    for t in range(1, T):
        A, B = np.asarray(Gs[t - 1]), np.asarray(Gs[t])
        need(edges(A.astype(float) - B) <= change, "evolution", "%d edges changed between consecutive times, at most %d asked for" % (edges(A.astype(float) - B), change))
        if not add:
            need(not np.any((A == 0) & (B != 0)), "evolution", "an edge appeared although edges are only removed")


def bunch_checks(b, kw, d, T, n):
    X, y, data = np.asarray(b.X), np.asarray(b.y), np.asarray(b.data)
    first = data if kw.get("time_on_axis") != "last" else data.transpose(2, 0, 1)
    need(first.shape == (T, n, d), "shape", "data of shape %s for T=%d n=%d d=%d" % (data.shape, T, n, d))
    need(X.shape == (T * n, d) and y.shape == (T * n,), "shape", "X %s y %s" % (X.shape, y.shape))
    need(np.isfinite(X).all(), "not-finite", "samples are not finite")
    need(np.array_equal(X, np.vstack(list(first))), "labels", "X is not the stacked data")
    need(np.array_equal(y, np.repeat(np.arange(T), n)), "labels", "y does not label the samples by time")


def gauss_checks(g, kw, b, d, T, lat, spy, n):
    th, ob, el = np.asarray(b.thetas, float), np.asarray(b.thetas_observed, float), np.asarray(b.ells, float)
    need(th.shape == ob.shape == el.shape == (T, d, d), "shape", "thetas %s observed %s latent %s" % (th.shape, ob.shape, el.shape))
    need(sym(th) and sym(ob) and sym(el), "asymmetric", "a precision or latent matrix is not symmetric")
    scale = max(1.0, np.abs(th).max(), np.abs(el).max())
    need(np.allclose(ob, th - el, rtol=0, atol=1e-9 * scale), "decomposition", "observed precisions are not sparse minus latent part")
    for t in range(T):
        need(pd(ob[t], g == "sin"), "not-positive-definite", "the observed precision of time %d has an eigenvalue %g" % (t, np.linalg.eigvalsh(ob[t])[0]))
        need(pd(th[t]), "not-positive-definite", "the precision of time %d is not positive definite" % t)
        need(psd(el[t]), "latent-not-psd", "the latent part of time %d is not positive semidefinite" % t)
        need(rank(el[t]) <= lat, "latent-rank", "the latent part of time %d has rank %d, requested %d" % (t, rank(el[t]), lat))
    big = [c for c, _ in spy.mvn if c.shape == (d, d)]
    if len(big) == T:
        for t in range(T):
            w = np.linalg.eigvalsh(ob[t])
            if w[0] > 1e-6 * w[-1]:
                need(np.allclose(big[t].dot(ob[t]), np.eye(d), atol=1e-5), "covariance", "the samples of time %d are not drawn from the inverse of its observed precision" % t)
    if g == "cov":
        eps, no = kw["epsilon"], (int(np.ceil(d / 20)) if kw["proportional"] else 1)
        for t in range(1, T):
            D = off(th[t] - th[t - 1])
            if kw["update_theta"] == "l1":
                dd = np.diag(th[t]) - np.diag(th[t - 1])
                need(np.all(dd >= -1e-9 * scale), "evolution", "a diagonal entry dropped by %g in an edge update" % -dd.min())
                need(edges(D) <= no, "evolution", "%d edges changed between consecutive times, at most %d asked for" % (edges(D), no))
            else:
                need(np.linalg.norm(D) <= 3 * eps * (1 + 1e-6), "evolution", "a step of size %g where at most about %g was asked for" % (np.linalg.norm(D), eps))
                if kw["keep_sparsity"]:
                    need(not np.any((off(th[0]) == 0) & (off(th[t]) != 0)), "evolution", "an edge appeared although the sparsity pattern is kept")
            if kw["update_ell"] == "fixed" or lat < 1:
                need(np.array_equal(el[t], el[t - 1]), "evolution", "the latent part changed although it is fixed")
            elif kw["update_ell"] in ("l1", "yuan"):
                k = 2 * (no if kw["update_ell"] == "l1" else 1)
                need(rank(el[t] - el[t - 1]) <= k, "evolution", "the latent part changed in more than %d entries" % (k // 2))
    if g in ("fixed_sparsity", "gp"):
        need(all(np.array_equal(el[0], e) for e in el), "evolution", "the latent part changed although it is fixed")
    if g == "fixed_sparsity":
        for t in range(1, T):
            need(not np.any((off(th[t - 1]) == 0) & (off(th[t]) != 0)), "evolution", "an edge appeared although the sparsity is fixed")
    if g in ("ma", "mak"):
        need(all(np.array_equal(th[0], x) for x in th), "evolution", "the precision changed over time")


def multi_checks(kw, out):
    sets, bins = out
    C, d, n = kw["n_classes"], kw["n_dim_obs"], kw["n_samples"]
    dist = kw["distribution"] if isinstance(kw["distribution"], list) else [kw["distribution"]]
    need(sorted(sets) == sorted(dist), "shape", "distributions %s" % sorted(sets))
    need(len(bins) == C, "shape", "%d networks for %d classes" % (len(bins), C))
    bins = [np.asarray(b) for b in bins]
    for b in bins:
        need(b.shape == (d, d) and np.array_equal(b, b.T) and np.isin(b, [0, 1]).all(), "asymmetric", "a network is not a symmetric 0/1 matrix")
        need(not np.diag(b).any(), "self-loop", "a network has a self-loop")
        pairs = d * (d - 1) // 2
        need(edges(b - bins[0]) <= 0.1 * pairs + 1e-9, "evolution", "more than a tenth of the edges changed")
    if kw["_type"] == "scale-free":
        need(edges(bins[0]) == 2 * (d - 2), "edge-count", "%d edges in the first network" % edges(bins[0]))
    for k, s in sets.items():
        th = np.asarray(s.thetas, float)
        need(np.shape(s.data) == (C, n, d) and s.X.shape == (C * n, d) and np.array_equal(s.X, np.vstack(list(s.data))), "shape", "samples of %s" % k)
        need(np.array_equal(s.y, np.repeat(np.arange(C), n)), "labels", "labels of %s" % k)
        need(th.shape == (C, d, d) and sym(th), "asymmetric", "a %s network is not symmetric" % k)
        for b, t in zip(bins, th):
            need(np.array_equal((off(t) != 0) & (b == 0), np.zeros((d, d), bool)), "edge-count", "a %s network has an edge its class does not have" % k)
        if k == "gaussian":
            need(all(pd(t) for t in th), "not-positive-definite", "a class precision is not positive definite")
            need(np.isfinite(s.X).all(), "not-finite", "samples")
        elif k == "ising":
            need(np.isin(s.X, [-1, 1]).all(), "values", "Ising samples take values %s" % np.unique(s.X))
        else:
            need((s.X >= 0).all() and np.array_equal(s.X, np.round(s.X)), "values", "Poisson samples are not counts")


def ticc_checks(g, kw, b):
    cl, n, d, w, T = kw["clusters"], kw["n_samples"], kw["n_dim"], kw["w_size"], kw["T"]
    N = len(cl) * n
    need(b.X.shape == (N, d) and np.isfinite(b.X).all(), "shape", "samples of shape %s" % (b.X.shape,))
    need(np.array_equal(b.id_cluster, np.repeat(cl, n)), "labels", "samples are not labelled with their clusters")
    need(np.array_equal(b.y, np.repeat(np.arange(T), N // T) if g != "ticc3" else np.repeat(np.arange(len(cl)), n)), "labels", "samples are not labelled with their times")
    P = np.asarray(b.precs)
    need(P.shape == (N if g != "ticc3" else len(cl), d, d), "shape", "%d precisions" % len(P))
    for p in P:
        need(sym(p) and pd(p), "not-positive-definite", "a conditional precision is not positive definite")
    if g != "ticc3":
        need(np.array_equal(b.id_cluster_group, np.asarray(b.id_cluster)[::N // T]), "labels", "clusters of the time points")
    if g == "ticc1":
        for c in b.covs.values():
            need(c.shape == (w * d, w * d) and sym(c) and pd(c), "not-positive-definite", "a cluster covariance is not positive definite")
        for i in range(N):  # conditional precision of the last block given the preceding ones
            k = min(i, w - 1) + 1
            c = b.covs[b.id_cluster[i]][:k * d, :k * d]
            q = np.linalg.inv(c)[-d:, -d:]
            need(np.allclose(P[i], q, rtol=1e-5, atol=1e-6 * np.abs(q).max()), "covariance", "the precision of sample %d is not that of its block given the window" % i)
    else:
        I = np.asarray(b.inv)
        m = N if g == "ticc2" else len(cl)
        need(I.shape == (m * d, m * d) and sym(I) and pd(I), "not-positive-definite", "joint precision")
        C = np.linalg.inv(I)
        for i in range(m):
            lo = max(i - w, 0)
            q = np.linalg.inv(C[lo * d:(i + 1) * d, lo * d:(i + 1) * d])[-d:, -d:]
            need(np.allclose(P[i], q, rtol=1e-5, atol=1e-6 * np.abs(q).max()), "covariance", "the precision of sample %d is not that of its block given the window" % i)
            need(np.array_equal(b.sparse_precs[i], I[i * d:(i + 1) * d, i * d:(i + 1) * d]), "decomposition", "sparse precision %d" % i)


def judge(q, out, spy):
    g, kw = q["gen"], q["kw"]
    d, T, n = kw.get("n_dim_obs", q.get("d")), kw.get("T", 1), kw.get("n_samples", 0)
    if g in ("cov", "fixed_sparsity", "sin", "ma", "gp", "fede", "mak"):
        bunch_checks(out, kw, d, T, n)
        lat = kw["n_dim_lat"] if g not in ("ma", "mak") else int(d * 0.05)
        gauss_checks(g, kw, out, d, T, lat, spy, n)
    elif g == "ising":
        bunch_checks(out, kw, d, T, n)
        graph_checks(list(out.thetas), kw, d, T, kw["change"], [-1, 0, 1])
        need(np.isin(out.X, [-1, 1]).all(), "values", "Ising samples take values %s" % np.unique(out.X))
    elif g == "ising_theta":
        graph_checks(out, kw, d, T, kw["change"], [-1, 0, 1])
    elif g == "poisson":
        bunch_checks(out, kw, d, T, n)
        k = dict(kw, _poisson=True)
        k.setdefault("degree", 3)
        if kw.get("random_graph") != "erdos-renyi":
            k["degree"] = 3
        graph_checks(list(out.thetas), k, d, T, kw["n_to_change"], [0, 1], add=False)
        need((out.X >= 0).all() and np.array_equal(out.X, np.round(out.X)), "values", "Poisson samples are not counts")
    elif g == "poisson_theta":
        graph_checks(out, dict(kw, _poisson=True), d, T, kw["n_to_change"], [0, 1], add=False)
    elif g == "ising_sampler":
        need(np.shape(out) == (kw["n"], q["d"]), "shape", "samples of shape %s" % (np.shape(out),))
        need(np.isin(out, kw["responses"]).all(), "values", "samples take values %s" % np.unique(out))
    elif g == "poisson_sampler":
        need(np.shape(out) == (kw["n_samples"], q["d"]), "shape", "samples of shape %s" % (np.shape(out),))
        out = np.asarray(out)
        need((out >= 0).all() and np.array_equal(out, np.round(out)), "values", "samples are not counts")
    elif g == "my":
        p = kw["p"]
        locs, th, ob, cov, lat, smp = out
        need(len(th) == len(ob) == len(cov) == len(smp) == len(locs) == T, "shape", "wrong number of time points")
        L = np.asarray(lat).T.dot(lat)
        need(np.shape(lat) == (kw["h"], p), "shape", "latent factor of shape %s" % (np.shape(lat),))
        for t in range(T):
            need(sym(th[t]) and pd(th[t]) and pd(ob[t]), "not-positive-definite", "time %d" % t)
            need(np.allclose(np.diag(th[t]), 1), "values", "the precision of time %d has no unit diagonal" % t)
            need(np.allclose(ob[t], th[t] - L), "decomposition", "observed precisions are not sparse minus latent part")
            need(np.allclose(cov[t].dot(ob[t]), np.eye(p), atol=1e-6), "covariance", "covariance and observed precision are not inverse")
            need(np.count_nonzero(off(th[t]), axis=1).max() <= 4, "edge-count", "a node has more than four neighbours")
            need(np.shape(smp[t]) == (kw["n"], p) and np.isfinite(smp[t]).all(), "shape", "samples of time %d" % t)
    elif g == "mys":
        p, h = kw["p"], kw["h"]
        locs, th, H, ob, con, cov, smp = out
        need(len(th) == len(ob) == len(cov) == len(smp) == len(locs) == len(H) == T, "shape", "wrong number of time points")
        need(np.shape(con) == (h, p), "shape", "connections of shape %s" % (np.shape(con),))
        for t in range(T):
            need(sym(th[t]) and pd(th[t]) and pd(ob[t]) and sym(H[t]) and pd(H[t]), "not-positive-definite", "time %d" % t)
            need(np.allclose(np.diag(th[t]), 1), "values", "the precision of time %d has no unit diagonal" % t)
            need(np.allclose(ob[t], th[t] - con.T.dot(np.linalg.inv(H[t])).dot(con)), "decomposition", "observed precisions are not sparse minus latent part")
            need(np.allclose(cov[t].dot(ob[t]), np.eye(p), atol=1e-6), "covariance", "covariance and observed precision are not inverse")
            need(np.count_nonzero(off(th[t]), axis=1).max() <= 4, "edge-count", "a node has more than four neighbours")
            need(np.shape(smp[t]) == (kw["n"], p) and np.isfinite(smp[t]).all(), "shape", "samples of time %d" % t)
    elif g == "multi":
        multi_checks(kw, out)
    elif g == "cluster":
        K = np.asarray(out.precs)
        need(K.shape == (T, kw["n_dim"], kw["n_dim"]), "shape", "%d time points of %d" % (len(K), T))
        need(sym(K), "asymmetric", "a precision is not symmetric")
        need(np.allclose(np.diagonal(K, axis1=1, axis2=2), 1), "values", "no unit diagonal")
        need(out.X.shape == (T * n, kw["n_dim"]) and np.array_equal(out.y, np.repeat(np.arange(T), n)), "shape", "samples or labels")
        need(len(out.id_cluster) == T * n and all(len(set(out.id_cluster[t * n:(t + 1) * n])) == 1 for t in range(T)), "labels", "a time point is in two clusters")
        big = [c for c, _ in spy.mvn]
        if len(big) == T:
            for t in range(T):
                if np.linalg.eigvalsh(K[t])[0] > 1e-6:
                    need(np.allclose(big[t].dot(K[t]), np.eye(kw["n_dim"]), atol=1e-6), "covariance", "the samples of time %d are not drawn from the inverse of its precision" % t)
    elif g == "ticc":
        b, k = kw["n_dim_obs"], kw["num_blocks"]
        need(out.shape == (b * k, b * k) and sym(out) and pd(out), "not-positive-definite", "block precision")
        B = out.reshape(k, b, k, b).transpose(0, 2, 1, 3)
        need(all(np.allclose(B[i, j], B[i - 1, j - 1]) for i in range(1, k) for j in range(1, k)), "values", "the block precision is not block Toeplitz")
    elif g in gens.TICC:
        ticc_checks(g, kw, out)
    elif g == "ell":
        L, K = out
        need(np.allclose(L, K.T.dot(K)), "decomposition", "the latent part is not its factor squared")
        need(K.shape == (kw["n_dim_lat"], kw["n_dim_obs"]), "shape", "factor of shape %s" % (K.shape,))
        need(np.isfinite(L).all() and psd(L) and rank(L) <= kw["n_dim_lat"], "latent-rank", "the latent part is not of the requested rank")
    elif g == "starting":
        th, ob, L, K = out
        need(sym(th) and sym(L) and pd(ob) and psd(L), "not-positive-definite", "starting matrices")
        need(np.allclose(ob, th - L) and np.allclose(L, K.T.dot(K)), "decomposition", "observed precision is not sparse minus latent part")
        need(rank(L) <= kw["n_dim_lat"], "latent-rank", "latent rank")
    elif g == "rbf":
        ths, obs, ells = out
        p, h = kw["n_dim_obs"], kw["n_dim_lat"]
        for t in range(T):
            th = np.asarray(ths[t])
            need(th.shape == (p + h, p + h) and sym(th) and pd(th), "not-positive-definite", "time %d" % t)
            need(sym(np.asarray(obs[t])) and pd(obs[t]), "not-positive-definite", "the observed precision of time %d" % t)
            need(np.allclose(obs[t], th[h:, h:] - ells[t]), "decomposition", "observed precision is not sparse minus latent part")
            need(psd(np.asarray(ells[t])) and rank(np.asarray(ells[t])) <= h, "latent-rank", "latent part of time %d" % t)


LEGAL = (AssertionError, np.linalg.LinAlgError, ValueError, ZeroDivisionError, OverflowError)


def execute(plan):
    common.quiet()
    q = plan["req"]
    stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
    adv = plan["adv"] or {}
    spy = Spy(actions={int(k): v for k, v in adv.get("actions", {}).items()}, mode=adv.get("mode"), rate=adv.get("rate", 0),
              rng=random.Random(adv["seed"]) if "seed" in adv else None)
    common.seed_streams(plan["stream"])
    with seams.active(spy):
        try:
            out = call(q)
        except Endless:
            return {"status": "violation", "cls": "never-returns", "stats": stats, "trace": trace(plan, spy),
                    "detail": "%s: no result after 300000 random draws (a request of this size takes a few thousand)" % q["gen"]}
        except LEGAL as e:
            stats["probes"]["raised"] = 1
            stats["faults"] = dict(spy.fired)
            return {"status": "ok", "stats": stats, "digest": state.digest(["raise", type(e).__name__]), "note": "raised"}
        except Exception as e:
            stats["faults"] = dict(spy.fired)
            return {"status": "violation", "cls": "crash", "stats": stats, "detail": "%s: %s: %s" % (q["gen"], type(e).__name__, str(e)[:200]), "trace": trace(plan, spy)}
    stats["faults"] = dict(spy.fired)
    stats["steps"] = spy.n
    key = "%s/%s/%s" % (q["gen"], q["kw"].get("update_theta", q["kw"].get("random_graph", "")), q["kw"].get("update_ell", ""))
    stats["states"] = ["%s/%s" % (key, f) for f in (spy.fired or {"plain": 1})]
    stats["probes"]["judged"] = 1
    try:
        judge(q, out, spy)
    except Bad as e:
        return {"status": "violation", "cls": e.args[0], "detail": "%s %s: %s" % (q["gen"], {k: v for k, v in q["kw"].items()}, e.args[1]), "stats": stats, "trace": trace(plan, spy)}
    return {"status": "ok", "stats": stats, "digest": state.digest(state.encode(out)), "note": key,
            "nontrivial": "%s|%d|%s" % (q, plan["stream"], plan["adv"])}


def trace(plan, spy):
    return ["seed both streams with %d" % plan["stream"], "altered draws: %s" % (plan["adv"],), "call %s" % (plan["req"],), "fired: %s of %d draws" % (spy.fired, spy.n)]


def shrinks(plan):
    if plan["adv"]:
        p = copy.deepcopy(plan)
        p["adv"] = None
        yield p
        acts = plan["adv"].get("actions", {})
        for k in acts:
            if len(acts) > 1:
                p = copy.deepcopy(plan)
                del p["adv"]["actions"][k]
                yield p
    kw = plan["req"]["kw"]
    for k, vs in (("T", (1, 2)), ("n_samples", (1,)), ("n_dim_obs", (4, 5)), ("n_dim_lat", (0, 1)), ("degree", (1,))):
        for v in vs:
            if isinstance(kw.get(k), int) and kw[k] > v:
                p = copy.deepcopy(plan)
                p["req"]["kw"][k] = v
                yield p
    for k in ("time_on_axis", "keep_sparsity", "proportional", "normalize_starting_matrices"):
        if kw.get(k) and kw[k] is not False:
            p = copy.deepcopy(plan)
            if k == "time_on_axis":
                del p["req"]["kw"][k]
            else:
                p["req"]["kw"][k] = False
            yield p
