"""Documented objectives and independent optimum references for the convex estimators."""
import numpy as np

from sim import refadmm as ref

sq, od, nll = ref.sq, ref.od, ref.nll


def covariances(X, y, centered):
    out, n = [], []
    for t in np.unique(y):
        x = X[y == t]
        n.append(len(x))
        x = x if centered else x - x.mean(0)
        out.append(x.T.dot(x) / len(x))
    return np.array(out), np.array(n, float)


def pair_pen(X, weights, psi):
    f = ref.PSI[psi][0]
    return sum(w * f(X[b] - X[a]) for (a, b), w in weights.items())


def fb_time(X, beta, p, laplacian):
    D = X[1:] - X[:-1]
    if laplacian:
        return beta * sq(D)
    return beta * float(((np.abs(D) ** p).sum(axis=0) ** (1.0 / p)).sum())


class Cov:
    """min f(R) + penalties, R = K - L."""

    def __init__(self, S, n, P, quadratic=0.0):
        self.S, self.n, self.P = S, n, P
        self.q = quadratic

    def value(self, K, L=None):
        P, S = self.P, self.S
        R = K if L is None else K - L
        if self.q:
            v = self.q * sq(S - R)
        else:
            v = sum(self.n[t] * nll(S[t], R[t]) for t in range(len(S)))
        v += P["alpha"] * od(K)
        if P.get("fb"):
            v += 0.5 * P["vareps"] * sq(K) + fb_time(K, P["beta"], P["time_norm"], P["laplacian"])
        elif P.get("wpsi"):
            v += pair_pen(K, P["wpsi"], P["psi"])
        if L is not None:
            v += P["tau"] * sum(float(np.abs(np.linalg.eigvalsh((l + l.T) / 2)).sum()) for l in L)
            if P.get("wphi"):
                v += pair_pen(L, P["wphi"], P["phi"])
        return float(v)

    def reference(self, limit=2500, tol=3e-10):
        """Near-minimiser by an independent recursion; None if it did not settle."""
        P, S, n = self.P, self.S, self.n
        T, d, _ = S.shape
        latent = "tau" in P
        if P.get("fb"):
            if P["laplacian"]:
                g = ref.timevarying(S, n, P["alpha"], ref.chain(T, P["beta"]), "laplacian", 1.0, tol, tol, {"mu": 3}, "empirical", 1.0)
            elif P["time_norm"] == 1 or T == 2:
                g = ref.timevarying(S, n, P["alpha"], ref.chain(T, P["beta"]), "l1", 1.0, tol, tol, {"mu": 3}, "empirical", 1.0)
            else:
                return None
        elif latent:
            g = ref.latent_timevarying(S, n, P["alpha"], P["tau"], P["wpsi"], P["wphi"], P["psi"], P["phi"], 1.0, tol, tol, {"mu": 3}, "empirical", 1.0,
                                       quadratic=bool(self.q), qscale=self.q or 1.0)
        else:
            g = ref.timevarying(S, n, P["alpha"], P["wpsi"], P["psi"], 1.0, tol, tol, {"mu": 3}, "empirical", 1.0)
        for k in range(limit):
            q = next(g)
            if q["rnorm"] <= q["e_pri"] and q["snorm"] <= q["e_dual"]:
                return q["est"], k + 1
        return None


def group_lasso(A, b, lam, groups, iters=6000):
    d = A.shape[1]
    z = np.zeros(d)
    x = [np.zeros(len(g)) for g in groups]
    u = [np.zeros(len(g)) for g in groups]
    rho = max(1.0, lam)
    cnt = np.zeros(d)
    for g in groups:
        cnt[g] += 1
    M = np.linalg.inv(A.T.dot(A) + rho * np.diag(cnt))
    for _ in range(iters):
        rhs = A.T.dot(b)
        for k, g in enumerate(groups):
            rhs[g] += rho * (x[k] + u[k])
        zo = z
        z = M.dot(rhs)
        r = 0.0
        for k, g in enumerate(groups):
            v = z[g] - u[k]
            nv = np.linalg.norm(v)
            x[k] = v * max(0.0, 1 - lam / rho / nv) if nv > 0 else v
            u[k] = u[k] + x[k] - z[g]
            r = max(r, float(np.max(np.abs(x[k] - z[g]))))
        if r < 1e-10 and np.max(np.abs(z - zo)) < 1e-10:
            break
    return z


def group_value(A, b, lam, groups, z):
    return 0.5 * sq(A.dot(z) - b) + lam * sum(float(np.linalg.norm(z[g])) for g in groups)


def latent_group_lasso(X, y, tau, groups, iters=20000):
    """min |y - Xb|^2 / 2n + tau * min {sum_g |v_g| : sum_g v_g = b}, by the expanded (disjoint) group lasso."""
    n = len(y)
    E = np.hstack([X[:, g] for g in groups])
    at = np.cumsum([0] + [len(g) for g in groups])
    sl = [slice(a, b) for a, b in zip(at[:-1], at[1:])]
    L = np.linalg.norm(E, 2) ** 2 / n
    v = np.zeros(at[-1])
    z, t = v.copy(), 1.0
    for _ in range(iters):
        w, old = z - E.T.dot(E.dot(z) - y) / n / L, v
        v = np.zeros(at[-1])
        for s in sl:
            nn = np.linalg.norm(w[s])
            if nn > tau / L:
                v[s] = w[s] * (1 - tau / L / nn)
        if np.sum((z - v) * (v - old)) > 0:
            t = 1.0
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        z, t = v + (t - 1) / tn * (v - old), tn
        if np.max(np.abs(v - old)) < 1e-13:
            break
    b = np.zeros(X.shape[1])
    for g, s in zip(groups, sl):
        b[g] += v[s]
    star = tau * sum(float(np.linalg.norm(v[s])) for s in sl)

    def value(z):
        """A lower bound of the objective, exact at the optimum: the dual point of the optimum certifies the norm."""
        q = X.T.dot(y - X.dot(b)) / n
        return 0.5 * sq(X.dot(z) - y) / n + (star if z is b else max(float(q.dot(z)), 0.0))
    return b, value


def prox_grad(f, grad, prox, x0, iters=20000, tol=1e-11):
    """Accelerated proximal gradient with backtracking and restart."""
    x = x0.copy()
    y, t, L = x.copy(), 1.0, 1.0
    for _ in range(iters):
        fy, g = f(y), grad(y)
        while True:
            z = prox(y - g / L, 1 / L)
            dz = z - y
            if f(z) <= fy + np.sum(g * dz) + L / 2 * np.sum(dz * dz) + 1e-13 * abs(fy):
                break
            L *= 2
            if L > 1e14:
                return x
        if np.sum((y - z) * (z - x)) > 0:
            t = 1.0
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        step = np.max(np.abs(z - x), initial=0)
        y = z + (t - 1) / tn * (z - x)
        x, t = z, tn
        if step < tol:
            break
    return x


def soft(a, t):
    return np.sign(a) * np.maximum(np.abs(a) - t, 0)


def neighbourhood(X, ix, alpha, kind):
    n, d = X.shape
    sel = [k for k in range(d) if k != ix]
    A, b = X[:, sel], X[:, ix]
    if kind == "logistic":  # summed loss, the intercept is penalised as well
        A = np.hstack([A, np.ones((n, 1))])
        f = lambda w: float(np.sum(np.logaddexp(0, -b * A.dot(w))))
        g = lambda w: -A.T.dot(b / (1 + np.exp(b * A.dot(w))))
        w = prox_grad(f, g, lambda v, s: soft(v, alpha * s), np.zeros(d))
        p = 1 / (1 + np.exp(A.dot(w)))
        return w[:-1], float(np.linalg.eigvalsh((A * (p * (1 - p))[:, None]).T.dot(A))[0])  # (curvature: is the optimum well determined?)
    if kind == "gauss":
        f = lambda w: float(np.sum(0.5 * A.dot(w) ** 2 - b * A.dot(w)) / n)
        g = lambda w: A.T.dot(A.dot(w) - b) / n
    else:
        f = lambda w: float(np.sum(np.exp(A.dot(w)) - b * A.dot(w)) / n)
        g = lambda w: A.T.dot(np.exp(A.dot(w)) - b) / n
    w = prox_grad(f, g, lambda v, s: soft(v, alpha * s), np.zeros(d - 1))
    return w, (lambda v: f(v) + alpha * float(np.abs(v).sum()))


def ising(X, alpha):
    n, d = X.shape
    mask = 1 - np.eye(d)

    def f(th):
        M = X.dot(th * mask)
        return float(np.sum(np.logaddexp(M, -M) - X * M) / n)

    def g(th):
        M = X.dot(th * mask)
        G = X.T.dot(np.tanh(M) - X) / n * mask
        return (G + G.T) / 2

    th = prox_grad(f, g, lambda v, s: soft(v, alpha * s) * mask, np.zeros((d, d)))
    return th, (lambda t: f(t) + alpha * od(t))


def ising_time(X, alpha, weights, psi, iters=800, tol=1e-8):
    """min sum_t ising(K_t) + sum_{s<t} w psi(K_t - K_s), zero diagonals: consensus splitting with an exact inner solve."""
    T, n, d = X.shape
    mask = 1 - np.eye(d)
    val, prox = ref.PSI[psi]
    P = {p: w for p, w in weights.items() if w > 0}

    def f(x, th):
        M = x.dot(th * mask)
        return float(np.sum(np.logaddexp(M, -M) - x * M) / n)

    def g(x, th):
        M = x.dot(th * mask)
        G = x.T.dot(np.tanh(M) - x) / n * mask
        return (G + G.T) / 2

    def F(K):
        return sum(f(x, k) + alpha * od(k) for x, k in zip(X, K)) + sum(w * val(K[b] - K[a]) for (a, b), w in P.items())

    K = np.zeros((T, d, d))
    Z = {p: [K[p[0]].copy(), K[p[1]].copy()] for p in P}
    U = {p: [np.zeros((d, d)), np.zeros((d, d))] for p in P}
    rho = 0.5
    for _ in range(iters):
        old = K.copy()
        for t in range(T):
            pulls = [ref.sym(Z[p][k] - U[p][k]) for p in P for k in (0, 1) if p[k] == t]
            h = lambda th: f(X[t], th) + rho / 2 * sum(sq(th - q) for q in pulls)
            dh = lambda th: g(X[t], th) + rho * sum((th - q for q in pulls), np.zeros((d, d)))
            K[t] = prox_grad(h, dh, lambda v, s: soft(v, alpha * s) * mask, K[t], iters=400, tol=1e-12)
        r = 0.0
        for p, w in P.items():
            a, b = K[p[0]] + U[p][0], K[p[1]] + U[p][1]
            e = prox(b - a, 2 * w / rho)
            Z[p] = [(a + b - e) / 2, (a + b + e) / 2]
            U[p] = [a - Z[p][0], b - Z[p][1]]
            r = max(r, np.max(np.abs(K[p[0]] - Z[p][0])), np.max(np.abs(K[p[1]] - Z[p][1])))
        if r < tol and np.max(np.abs(K - old)) < tol:
            return K, F
    return None, F
