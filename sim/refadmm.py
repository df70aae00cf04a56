"""Small executable reference models of the solvers' published ADMM recursions.

Written from the papers / docstrings, sharing no code with regain.  Each model is a
generator of records {obj, rnorm, snorm, e_pri, e_dual, est} - one per iteration, plus
`borderline`: True when the penalty-parameter decision was too close to call, in which
case a comparison must stop there.
"""
import numpy as np


def sq(a):
    return float(np.sum(np.square(a)))


def sym(a):
    return (a + np.swapaxes(a, -1, -2)) / 2


def od(a):
    return float(np.abs(a).sum() - np.abs(np.diagonal(a, axis1=-2, axis2=-1)).sum())


def shrink_od(a, t):
    s = np.sign(a) * np.maximum(np.abs(a) - t, 0)
    i = np.arange(a.shape[-1])
    s[..., i, i] = a[..., i, i]
    return s


def logdet_prox(b, s, n, c):
    """argmin_K n (tr(sK) - logdet K) + c/2 ||K - b||^2"""
    e, q = np.linalg.eigh(c * b - n * s)
    x = (e + np.sqrt(e * e + 4 * n * c)) / (2 * c)
    return (q * x) @ q.T


def trace_prox(a, t):
    e, q = np.linalg.eigh(a)
    return (q * np.maximum(e - t, 0)) @ q.T


def nll(s, k):
    sgn, ld = np.linalg.slogdet(k)
    if sgn <= 0:
        return np.inf
    return float(np.sum(s * k) - ld)


PSI = {
    "laplacian": (lambda x: sq(x), lambda a, t: a / (1 + 2 * t)),
    "l1": (lambda x: float(np.abs(x).sum()), lambda a, t: np.sign(a) * np.maximum(np.abs(a) - t, 0)),
    "l2": (lambda x: float(np.sqrt((x * x).sum(axis=-2)).sum()),
           lambda a, t: a * _colscale(a, t)),
    "linf": (lambda x: float(np.abs(x).max(axis=-2).sum()), lambda a, t: _clip_columns(a, t)),
    "node": (lambda x: _node_value(x), lambda a, t: _node_prox(a, t)),
}


def _node_value(x):
    """min of the summed column norms of V with V + V' = x, by reweighted least squares."""
    if not np.all(np.isfinite(x)):
        return float("inf")
    m = float(np.abs(x).max(initial=0))
    if m == 0:
        return 0.0
    x = (x + x.T) / 2 / m
    h = np.linalg.norm(x, axis=0) + 1e-3
    best = np.inf
    for _ in range(3000):
        w = h[None, :] / (h[:, None] + h[None, :])
        n = np.linalg.norm(x * w, axis=0)
        v = n.sum()
        if best - v < 1e-13:
            break
        best = min(best, v)
        h = np.maximum(n, 1e-14)
    return float(min(best, v) * m)


def _node_prox(a, t):
    """a minus its projection on {Y symmetric, every column at most t/2 long}; the dual has one multiplier a column."""
    a = (a + a.T) / 2
    if t == 0:
        return a.copy()
    d, r2 = len(a), t * t / 4
    mu = np.zeros(d)
    b2 = a * a

    def terms(mu):
        w = 1 + (mu[:, None] + mu[None, :]) / 2
        return w, float((b2 / w).sum()) / 2 + r2 * mu.sum() / 2  # minus the dual, convex in mu

    w, f = terms(mu)
    for _ in range(200):
        y2 = b2 / w ** 2
        g = (r2 - y2.sum(axis=0)) / 2
        free = (mu > 0) | (g < 0)
        if np.max(np.abs(g[free]), initial=0) < 1e-14 * (r2 + 1e-30):
            break
        q = y2 / w / 2
        H = q + np.diag(q.sum(axis=0))
        step = np.zeros(d)
        k = np.flatnonzero(free)
        step[k] = np.linalg.solve(H[np.ix_(k, k)] + 1e-300 * np.eye(len(k)), g[k])
        s = 1.0
        while s > 1e-12:
            new = np.maximum(mu - s * step, 0)
            w2, f2 = terms(new)
            if f2 <= f:
                break
            s /= 2
        else:
            break
        if np.max(np.abs(new - mu)) <= 1e-15 * (1 + np.max(new)):
            break
        mu, w, f = new, w2, f2
    return a - a / w


def _clip_columns(a, t):
    """argmin t*max|x| + |x-a|^2/2 per column, by bisection on the clipping level."""
    m = np.abs(a)
    lo, hi = np.zeros(a.shape[:-2] + (1, a.shape[-1])), m.max(axis=-2, keepdims=True)
    for _ in range(60):
        mid = (lo + hi) / 2
        over = np.maximum(m - mid, 0).sum(axis=-2, keepdims=True) > t
        lo, hi = np.where(over, mid, lo), np.where(over, hi, mid)
    return np.sign(a) * np.minimum(m, hi)


def _colscale(a, t):
    n = np.sqrt((a * a).sum(axis=-2, keepdims=True))
    return np.where(n > t, 1 - t / np.where(n > 0, n, 1), 0.0)


def rho_rule(rho, r, s, opt):
    mu, inc, dec = opt.get("mu", 10), opt.get("tau_inc", 2), opt.get("tau_dec", 2)
    noise = 1e-11 * (1 + mu)  # residuals are differences of numbers of size 1 to 100
    near = abs(r - mu * s) <= 1e-7 * (r + mu * s) + noise or abs(s - mu * r) <= 1e-7 * (s + mu * r) + noise
    if r > mu * s:
        return inc * rho, near
    if s > mu * r:
        return rho / dec, near
    return rho, near


def init_value(S, init):
    if isinstance(init, np.ndarray):
        return init.astype(float).copy()
    if init == "zeros":
        return np.zeros_like(S)
    inv = lambda c: np.linalg.pinv(c, hermitian=True)
    cov = S.copy() if S.ndim == 3 else S[None].copy()
    out = []
    for c in cov:
        d = np.diag(c).copy()
        c = c * 0.95
        np.fill_diagonal(c, d)
        out.append(inv(c))
    out = np.array(out)
    return out if S.ndim == 3 else out[0]


def gl(S, alpha, rho, relax, tol, rtol, opt, init):
    Z = init_value(S, init)
    U = np.zeros_like(S)
    Zo = np.zeros_like(S)
    while True:
        K = logdet_prox(sym(Z - U), S, 1.0, rho)
        H = relax * K + (1 - relax) * Z
        Z = shrink_od(H + U, alpha / rho)
        U = U + H - Z
        r, s = np.sqrt(sq(K - Z)), rho * np.sqrt(sq(Z - Zo))
        rec = {"obj": nll(S, K) + alpha * od(Z), "rnorm": r, "snorm": s,
               "e_pri": np.sqrt(S.size) * tol + rtol * max(np.sqrt(sq(K)), np.sqrt(sq(Z))),
               "e_dual": np.sqrt(S.size) * tol + rtol * rho * np.sqrt(sq(U)), "est": [Z.copy()]}
        Zo = Z
        new, near = rho_rule(rho, r, s, opt)
        rec["borderline"] = near
        yield rec
        U = U * (rho / new)
        rho = new


def latent(S, alpha, tau, rho, tol, rtol, opt, init, quadratic):
    K = np.zeros_like(S) if quadratic else init_value(S, init)
    L = np.zeros_like(S)
    U = np.zeros_like(S)
    Ro = np.zeros_like(S)
    while True:
        A = K - L - U
        A = sym(A)
        R = (S + rho * A) / (1 + rho) if quadratic else logdet_prox(A, S, 1.0, rho)
        K = shrink_od(L + R + U, alpha / rho)
        L = trace_prox(sym(K - R - U), tau / rho)
        U = U + R - K + L
        r, s = np.sqrt(sq(R - K + L)), rho * np.sqrt(sq(R - Ro))
        fit = 0.5 * sq(S - R) if quadratic else nll(S, R)
        rec = {"obj": fit + alpha * od(K) + tau * float(np.abs(np.linalg.eigvalsh(L)).sum()), "rnorm": r, "snorm": s,
               "e_pri": np.sqrt(S.size) * tol + rtol * max(np.sqrt(sq(R)), np.sqrt(sq(K - L))),
               "e_dual": np.sqrt(S.size) * tol + rtol * rho * np.sqrt(sq(U)), "est": [K.copy(), L.copy()]}
        Ro = R
        new, near = rho_rule(rho, r, s, opt)
        rec["borderline"] = near
        yield rec
        U = U * (rho / new)
        rho = new


class Pairs:
    """Copies of X[t], X[s] for every penalised pair of times, with their duals."""

    def __init__(self, T, d, weights, psi, start):
        self.idx = sorted(weights)
        self.w = weights
        self.psi, self.prox = PSI[psi]
        self.z = {p: [start[p[0]].copy(), start[p[1]].copy()] for p in self.idx}
        self.u = {p: [np.zeros((d, d)), np.zeros((d, d))] for p in self.idx}
        self.old = {p: [np.zeros((d, d)), np.zeros((d, d))] for p in self.idx}

    def pull(self, A):
        for p in self.idx:
            for k in (0, 1):
                A[p[k]] += self.z[p][k] - self.u[p][k]

    def update(self, X, rho):
        for p in self.idx:
            a, b = X[p[0]] + self.u[p][0], X[p[1]] + self.u[p][1]
            e = self.prox(b - a, 2 * self.w[p] / rho)
            self.z[p] = [(a + b - e) / 2, (a + b + e) / 2]

    def dual(self, X):
        for p in self.idx:
            for k in (0, 1):
                self.u[p][k] = self.u[p][k] + X[p[k]] - self.z[p][k]

    def r2(self, X):
        return sum(sq(X[p[k]] - self.z[p][k]) for p in self.idx for k in (0, 1))

    def s2(self):
        return sum(sq(self.z[p][k] - self.old[p][k]) for p in self.idx for k in (0, 1))

    def z2(self):
        return sum(sq(self.z[p][k]) for p in self.idx for k in (0, 1))

    def x2(self, X):
        return sum(sq(X[p[k]]) for p in self.idx for k in (0, 1))

    def u2(self):
        return sum(sq(self.u[p][k]) for p in self.idx for k in (0, 1))

    def pen(self):
        return sum(self.w[p] * self.psi(self.z[p][1] - self.z[p][0]) for p in self.idx)

    def remember(self):
        self.old = {p: [x.copy() for x in self.z[p]] for p in self.idx}

    def scale(self, f):
        for p in self.idx:
            self.u[p] = [x * f for x in self.u[p]]


def chain(T, w):
    return {(t, t + 1): w for t in range(T - 1)}


def dense(kernel):
    T = len(kernel)
    return {(t, s): float(kernel[t, s]) for t in range(T) for s in range(t + 1, T)}


def _counts(T, weights):
    c = np.ones(T)
    for p in weights:
        c[p[0]] += 1
        c[p[1]] += 1
    return c


def timevarying(S, n, alpha, weights, psi, rho, tol, rtol, opt, init, size):
    T, d, _ = S.shape
    Z = init_value(S, init)
    P = Pairs(T, d, weights, psi, Z)
    U = np.zeros_like(S)
    Zo = np.zeros_like(S)
    c = _counts(T, weights)
    while True:
        A = Z - U
        P.pull(A)
        K = np.array([logdet_prox(sym(A[t] / c[t]), S[t], n[t], rho * c[t]) for t in range(T)])
        Z = shrink_od(sym(K + U), alpha / rho)
        P.update(K, rho)
        U = U + K - Z
        P.dual(K)
        r = np.sqrt(sq(K - Z) + P.r2(K))
        s = rho * np.sqrt(sq(Z - Zo) + P.s2())
        obj = sum(n[t] * nll(S[t], Z[t]) for t in range(T)) + alpha * od(K) + P.pen()
        rec = {"obj": obj, "rnorm": r, "snorm": s,
               "e_pri": size * tol + rtol * max(np.sqrt(sq(Z) + P.z2()), np.sqrt(sq(K) + P.x2(K))),
               "e_dual": size * tol + rtol * rho * np.sqrt(sq(U) + P.u2()), "est": [Z.copy()]}
        Zo = Z
        P.remember()
        new, near = rho_rule(rho, r, s, opt)
        rec["borderline"] = near
        yield rec
        U = U * (rho / new)
        P.scale(rho / new)
        rho = new


def latent_timevarying(S, n, alpha, tau, wpsi, wphi, psi, phi, rho, tol, rtol, opt, init, size, quadratic=False, qscale=1.0):
    T, d, _ = S.shape
    Z = np.zeros_like(S) if quadratic else init_value(S, init)
    W = np.zeros_like(S)
    P, Q = Pairs(T, d, wpsi, psi, Z), Pairs(T, d, wphi, phi, W)
    X = np.zeros_like(S)
    Ro = np.zeros_like(S)
    c = _counts(T, wpsi)
    while True:
        A = Z - W - X
        if quadratic:
            R = (rho * A + 2 * qscale * S) / (2 * qscale + rho)
        else:
            R = np.array([logdet_prox(sym(A[t]), S[t], n[t], rho) for t in range(T)])
        A = R + W + X
        P.pull(A)
        Z = shrink_od(A / c[:, None, None], alpha / (rho * c[:, None, None]))
        P.update(Z, rho)
        A = Z - R - X
        Q.pull(A)
        A = sym(A / c[:, None, None])
        W = np.array([trace_prox(A[t], tau / (rho * c[t])) for t in range(T)])
        Q.update(W, rho)
        X = X + R - Z + W
        P.dual(Z)
        Q.dual(W)
        r = np.sqrt(sq(R - Z + W) + P.r2(Z) + Q.r2(W))
        s = rho * np.sqrt(sq(R - Ro) + P.s2() + Q.s2())
        fit = qscale * sq(S - R) if quadratic else sum(n[t] * nll(S[t], R[t]) for t in range(T))
        obj = fit + alpha * od(Z) + tau * sum(float(np.abs(np.linalg.eigvalsh(w)).sum()) for w in W) + P.pen() + Q.pen()
        rec = {"obj": obj, "rnorm": r, "snorm": s,
               "e_pri": size * tol + rtol * max(np.sqrt(sq(R) + P.z2() + Q.z2()), np.sqrt(sq(Z - W) + P.x2(Z) + Q.x2(W))),
               "e_dual": size * tol + rtol * rho * np.sqrt(sq(X) + P.u2() + Q.u2()), "est": [Z.copy(), W.copy()]}
        Ro = R
        P.remember()
        Q.remember()
        new, near = rho_rule(rho, r, s, opt)
        rec["borderline"] = near
        yield rec
        X = X * (rho / new)
        P.scale(rho / new)
        Q.scale(rho / new)
        rho = new
