"""Process-wide settings a library call has no business changing."""
import gc
import locale
import logging
import os
import random
import signal
import sys
import warnings

import numpy as np


def _fd(n):
    try:
        s = os.fstat(n)
        return (s.st_dev, s.st_ino, s.st_mode)
    except OSError:
        return None


def take(rng=True):
    import sklearn

    root = logging.getLogger()
    fp = {
        "warning filters": [tuple(str(x) for x in f) for f in warnings.filters],
        "warnings.showwarning": id(warnings.showwarning),
        "numpy error handling": dict(np.geterr()),
        "numpy error callback": id(np.geterrcall()),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "sys.stdout": id(sys.stdout), "sys.stderr": id(sys.stderr), "sys.stdin": id(sys.stdin),
        "sys.__stdout__": id(sys.__stdout__),
        "fd 0": _fd(0), "fd 1": _fd(1), "fd 2": _fd(2),
        "open file descriptors": {x for x in os.listdir("/proc/self/fd") if _fd(int(x)) is not None},
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "logging root": (root.level, [id(h) for h in root.handlers], [id(h) for h in root.filters], root.disabled, logging.root.manager.disable,
                         [h.level for h in root.handlers]),
        "logging class": id(logging.getLoggerClass()),
        "recursion limit": sys.getrecursionlimit(),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "switch interval": sys.getswitchinterval(),
        "sys.path": list(sys.path),
        "excepthook": id(sys.excepthook), "displayhook": id(sys.displayhook),
        "signal handlers": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "locale": locale.setlocale(locale.LC_ALL),
        "umask": _umask(),
        "scikit-learn configuration": repr(sorted(sklearn.get_config().items())),
    }
    if "pandas" in sys.modules:
        import pandas as pd
        fp["pandas options"] = repr(pd.get_option("display.max_columns")) + repr(pd.get_option("mode.chained_assignment")) + repr(pd.get_option("display.precision"))
    if rng:
        st = np.random.get_state()
        fp["numpy global random stream"] = (st[0], st[1].tobytes(), st[2:])
        fp["python global random stream"] = random.getstate()
    return fp


def _umask():
    u = os.umask(0o022)
    os.umask(u)
    return u


def compare(a, b):
    new = b["open file descriptors"] - a["open file descriptors"]
    if new:
        return "file descriptors left open: %s" % sorted(new)
    for k in a:
        if k == "open file descriptors":
            continue
        if a[k] != b[k]:
            x, y = repr(a[k])[:120], repr(b[k])[:120]
            return "%s changed: %s -> %s" % (k, x, y)
    return None
