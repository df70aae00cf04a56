"""Estimators that record what they are fitted on: scripted ones, whose edge
estimates are a pure function of (script, parameters, subsample), and recording
versions of regain's own."""
import hashlib

import numpy as np
from sklearn.base import BaseEstimator

LOG = []  # one entry per fit: dict(params, ids, y, precision)
HOOK = None  # called before every fit


def _u(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "little") / 2.0 ** 64


class Scripted(BaseEstimator):
    def __init__(self, alpha=0.1, beta=0.0, script=None, times=0):
        self.alpha = alpha
        self.beta = beta
        self.script = script
        self.times = times

    def fit(self, X, y=None):
        if HOOK is not None:
            HOOK()
        X = np.asarray(X)
        ids = X[:, 0].astype(int)
        s = self.script
        d = s["d"]
        key = hashlib.blake2b(np.sort(ids).tobytes(), digest_size=8).hexdigest()

        def one(t):
            K = np.eye(d)
            for i in range(d):
                for j in range(i + 1, d):
                    pe = s["probs"][int(_u(s["seed"], "p", float(self.alpha), float(self.beta), i, j, t) * len(s["probs"])) % len(s["probs"])]
                    if _u(s["seed"], "e", float(self.alpha), float(self.beta), i, j, t, key) < pe:
                        K[i, j] = K[j, i] = s["weight"] * (1 if _u(s["seed"], "s", i, j, key) < 0.5 else -1)
            return K

        self.precision_ = one(0) if not self.times else np.array([one(t) for t in range(self.times)])
        LOG.append({"params": {"alpha": float(self.alpha), "beta": float(self.beta)}, "ids": ids.tolist(), "y": None if y is None else np.asarray(y).tolist(),
                    "precision": self.precision_.copy(), "obj": id(self)})
        return self

    def get_precision(self):
        return self.precision_

    def score(self, X, y=None):
        return _u(self.script["seed"], "score", float(self.alpha), float(self.beta), len(X)) * 100


def _recording(base):
    class Rec(base):
        def fit(self, X, y=None):
            if HOOK is not None:
                HOOK()
            ids = np.asarray(X)[:, 0]
            super().fit(X, y) if y is not None else super().fit(X)
            LOG.append({"params": {"alpha": float(self.alpha), "beta": float(getattr(self, "beta", 0.0))}, "ids": ids.tolist(),
                        "y": None if y is None else np.asarray(y).tolist(), "precision": np.array(self.get_precision()), "obj": id(self)})
            return self

    Rec.__name__ = "Rec" + base.__name__
    return Rec


_cache = {}


def recording(name):
    from sim import zoo

    if name not in _cache:
        _cache[name] = _recording(zoo._c(zoo.CLASSES[name][0]))
    return _cache[name]
