#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough] | --replay FILE"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
FIXED = {"OMP_NUM_THREADS": "1", "OMP_THREAD_LIMIT": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
         "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "LC_ALL": "C.UTF-8"}

if os.environ.get("_VERIF_CHILD") != "1":
    env = dict(os.environ)
    for k, v in FIXED.items():
        if k == "PYTHONHASHSEED" and env.get("VERIF_HASHSEED"):
            v = env["VERIF_HASHSEED"]
        env[k] = v
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONWARNINGS", None)
    env["_VERIF_CHILD"] = "1"
    if any("R12" in x or (os.path.isfile(x) and '"property": "R12"' in open(x, errors="replace").read(200)) for x in sys.argv[1:]):
        # the disk seam sits below libc: it has to be there when the interpreter starts
        sys.path.insert(0, HERE)
        from sim import disk

        env["LD_PRELOAD"] = disk.shim()
    os.execve(PY, [PY, "-W", "ignore"] + [os.path.abspath(__file__)] + sys.argv[1:], env)

if HERE not in sys.path:
    sys.path.insert(0, HERE)
os.environ.pop("LD_PRELOAD", None)
import warnings  # noqa

warnings.simplefilter("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write one line per run: index, status, event-log digest")
    a = ap.parse_args()
    from sim import engine

    if a.replay:
        return engine.replay(a.replay)
    if a.digests:
        return engine.digests(a.property, a.tier, a.seed, a.digests)
    return engine.check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
