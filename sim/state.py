"""Observations: fitted state, input fingerprints, process-wide footprints."""
import dataclasses
import functools
import hashlib
import inspect
import types

import numpy as np

SKIP_ATTRS = {"mean_fit_time", "std_fit_time", "mean_score_time", "std_score_time", "refit_time_"}


def encode(v, depth=0, seen=None):
    """A comparable, picklable image of a value (arrays kept as arrays)."""
    if depth > 12:
        return ("deep",)
    if v is None or isinstance(v, (bool, str, bytes)):
        return v
    if isinstance(v, (int, float, complex)):
        return v
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ma.MaskedArray):
        return ("masked", encode(v.filled(0) if v.dtype != object else list(v.filled(None)), depth + 1, seen),
                np.ma.getmaskarray(v).copy())
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objarr", tuple(v.shape), [encode(x, depth + 1, seen) for x in v.ravel()])
        return np.array(v, copy=True)
    if isinstance(v, (list, tuple)):
        return [encode(x, depth + 1, seen) for x in v]
    if isinstance(v, dict):
        return {str(k): encode(x, depth + 1, seen) for k, x in v.items() if str(k) not in SKIP_ATTRS}
    if isinstance(v, (set, frozenset)):
        return ("set", sorted(repr(x) for x in v))
    if isinstance(v, functools.partial):
        return ("partial", encode(v.func, depth + 1, seen), encode(list(v.args), depth + 1, seen),
                encode(v.keywords, depth + 1, seen))
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type)) or callable(v) and not hasattr(v, "get_params"):
        return ("callable",)
    if dataclasses.is_dataclass(v):
        return ("obj", type(v).__name__, {f.name: encode(getattr(v, f.name), depth + 1, seen) for f in dataclasses.fields(v)})
    if type(v).__module__.startswith("pandas"):
        return ("pandas", encode(np.asarray(v), depth + 1, seen), [str(x) for x in getattr(v, "columns", [])], [str(x) for x in v.index])
    if hasattr(v, "toarray"):
        return ("sparse", encode(v.toarray(), depth + 1, seen))
    try:
        d = vars(v)
    except TypeError:
        return ("opaque", type(v).__name__)
    seen = seen or ()
    if id(v) in seen:
        return ("cycle",)
    return ("obj", type(v).__name__,
            {k: encode(x, depth + 1, seen + (id(v),)) for k, x in d.items() if k not in SKIP_ATTRS})


def snapshot(est):
    """Observable state of an estimator: parameters and public attributes."""
    out = {}
    for k, x in vars(est).items():
        if k.startswith("_") or k in SKIP_ATTRS:
            continue
        out[k] = encode(x)
    return out


def is_num(a):
    return isinstance(a, (int, float, complex)) and not isinstance(a, bool)


def diff(a, b, rtol=1e-7, atol=1e-9, path="", scale=None):
    """First difference between two encoded values, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            # a list of equal-shaped rows and a stacked array are the same observation
            try:
                a2, b2 = np.asarray(a), np.asarray(b)
                if a2.dtype == object or b2.dtype == object:
                    raise ValueError
            except ValueError:
                return "%s: %s vs %s" % (path, type(a).__name__, type(b).__name__)
            a, b = a2, b2
        if a.shape != b.shape:
            return "%s: shape %s vs %s" % (path, a.shape, b.shape)
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            if a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
                return "%s: dtype %s vs %s" % (path, a.dtype, b.dtype)
            if "f4" in (a.dtype.str[1:], b.dtype.str[1:]):
                rtol, atol = max(rtol, 1e-4), max(atol, 1e-5)
            na, nb = np.isnan(a), np.isnan(b)
            if not np.array_equal(na, nb):
                return "%s: NaN pattern differs" % path
            m = ~na
            fa, fb = a[m], b[m]
            inf = np.isinf(fa) | np.isinf(fb)
            if not np.array_equal(fa[inf], fb[inf]):
                return "%s: infinities differ" % path
            fa, fb = fa[~inf], fb[~inf]
            if fa.size:
                s = max(np.abs(fa).max(), np.abs(fb).max())
                d = np.abs(fa - fb)
                if d.max() > atol + rtol * s:
                    return "%s: max difference %.3g (scale %.3g)" % (path, d.max(), s)
            return None
        if not np.array_equal(a, b):
            return "%s: arrays differ" % path
        return None
    if is_num(a) and is_num(b):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return "%s: %r vs %r" % (path, a, b)
    if type(a) != type(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            pass
        else:
            return "%s: %r vs %r" % (path, _short(a), _short(b))
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d vs %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return "%s: keys differ: %s" % (path, sorted(set(a) ^ set(b)))
        for k in sorted(a):
            d = diff(a[k], b[k], rtol, atol, "%s.%s" % (path, k))
            if d:
                return d
        return None
    if a != b:
        return "%s: %r vs %r" % (path, _short(a), _short(b))
    return None


def _short(x):
    r = repr(x)
    return r if len(r) < 80 else r[:77] + "..."


def diff_fit(ref, got, **kw):
    """Fitted state `got` against the fresh reference `ref` (extra leftovers allowed)."""
    for k in sorted(ref):
        if k not in got:
            return "attribute %s missing" % k
        d = diff(ref[k], got[k], path=k, **kw)
        if d:
            return d
    return None


def digest(v):
    """Hash of an encoded value, rounding floats so that the last bits do not matter."""
    h = hashlib.sha256()

    def rec(x):
        if isinstance(x, np.ndarray):
            if x.dtype.kind in "fc":
                x = np.round(np.nan_to_num(x.astype(complex if x.dtype.kind == "c" else float)), 6) + 0.0
            h.update(str(x.shape).encode())
            h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                rec(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for y in x:
                rec(y)
            h.update(b"]")
        elif isinstance(x, float):
            h.update(("%.6g" % x).encode())
        else:
            h.update(repr(x).encode())

    rec(v)
    return h.hexdigest()[:16]


def fingerprint(v):
    """Exact fingerprint of a caller-owned value (bytes, dtype, shape, layout)."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("o", v.shape, repr(v.tolist()))
        return ("a", v.shape, v.dtype.str, v.strides, hashlib.md5(v.tobytes()).hexdigest())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [fingerprint(x) for x in v])
    if isinstance(v, dict):
        return ("d", [(k, fingerprint(x)) for k, x in v.items()])
    if type(v).__module__.startswith("pandas"):
        return ("p", fingerprint(np.asarray(v)), [str(x) for x in v.index], [str(x) for x in getattr(v, "columns", [])])
    return ("r", repr(v))


def arrays_in(v, depth=0, seen=None):
    """All ndarrays reachable from a value (containers and object attributes)."""
    seen = set() if seen is None else seen
    if id(v) in seen or depth > 10:
        return
    seen.add(id(v))
    if isinstance(v, np.ndarray):
        yield v
        if v.dtype == object:
            for x in v.ravel():
                yield from arrays_in(x, depth + 1, seen)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from arrays_in(x, depth + 1, seen)
    elif isinstance(v, dict):
        for x in v.values():
            yield from arrays_in(x, depth + 1, seen)
    elif isinstance(v, functools.partial):
        return
    elif hasattr(v, "__dict__") and not isinstance(v, (types.FunctionType, types.ModuleType, type)):
        yield from arrays_in(vars(v), depth + 1, seen)
