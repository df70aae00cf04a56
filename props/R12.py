"""R12: saved results survive I/O errors, full disks, short writes, process and machine crashes."""
import copy
import errno
import os
import random
import shutil
import tempfile

import numpy as np

from sim import common, disk, proc, state, zoo
from sim.disk import CRASH_AFTER, CRASH_BEFORE, CRASH_MID, ERR, SHORT
from sim.sched import Sched
from sim.tracer import Tracer, pick_fault

PID = "R12"
LEVEL = "exploration"
NEEDS_DISK = True
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("a run counts when at least one planned disk fault, crash, interruption or thread switch fired; distinct = distinct "
        "sequences of (operation, faults fired, outcome)")
STATE_MEASURE = "distinct (file operation, call, fault) triples that fired"
REAL = ["regain.utils save_pickle, load_pickle, write_network, read_network; Python's I/O stack, pickle, pandas; the kernel's file system (scratch directory)"]
STUB = ["system calls on the scratch directory are intercepted below libc and may fail, be shortened or end the process",
        "what a machine crash leaves behind comes from a model of synced and unsynced bytes and directory entries"]
ASSUMPTIONS = ["directory changes reach the disk in order; unsynced file data in any order, torn or as zeros",
               "network weights are non-negative and networks symmetric (the reader drops negative scores by design)"]
ERRNOS = [errno.EIO, errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EINTR]


# -- plans ----------------------------------------------------------------------
def gen_obj(rng, kind):
    s = rng.randrange(10 ** 6)
    if kind == "network":
        return {"o": "net", "seed": s, "n": rng.choice([1, 2, 3, 4, 6, 11, 12]), "density": rng.choice([0.0, 0.2, 0.6, 1.0]),
                "weights": rng.choice(["one", "float", "float", "tiny", "huge"]), "prefix": rng.choice(["G", "G", "x", "é"]),
                "labels": rng.choice(["seq", "gap", "shuffled"])}
    o = rng.choice(["dict", "dict", "array", "nested", "est", "big", "df", "none", "str"])
    return {"o": o, "seed": s}


def gen_fault(rng, crash=True):
    r = rng.random()
    if r < 0.45 or not crash:
        return {"at": rng.randrange(12), "act": ERR, "arg": rng.choice(ERRNOS)}
    if r < 0.6:
        return {"at": rng.randrange(8), "act": SHORT, "arg": rng.randrange(1, 100000)}
    return {"at": rng.randrange(12), "act": rng.choice([CRASH_BEFORE, CRASH_AFTER, CRASH_MID]), "arg": rng.randrange(100000)}


def generate(rng, i, tier):
    kind = rng.choice(["pickle", "pickle", "network"])
    if kind == "pickle":
        names = rng.choice([["a", "b.pkl"], ["res.v1", "res.v1.pkl.bak", "res"], ["dir/out.pkl", "out"], ["nåme with space", "x.PKL"], ["r.pkl", "r"]])
    else:
        names = rng.choice([["net.csv", "net2.csv"], ["n.txt", "n.txt.csv"], ["dir/g.csv"]])
    steps = []
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        n = rng.randrange(len(names))
        if r < 0.62:
            st = {"op": "save", "name": n, "obj": gen_obj(rng, kind), "rel": rng.random() < 0.3}
            q = rng.random()
            if q < 0.5:
                st["faults"] = [gen_fault(rng) for _ in range(rng.choice([1, 1, 2]))]
            elif q < 0.6:
                st["capacity"] = rng.choice([0, 1, 20, 100, 500, 3000])
            elif q < 0.75:
                st["interrupt"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "u_site": rng.random(), "u_occ": rng.random()}
        elif r < 0.75:
            st = {"op": "load", "name": n, "faults": [{"at": rng.randrange(6), "act": rng.choice([ERR, SHORT]), "arg": 0}]}
            f = st["faults"][0]
            f["arg"] = rng.choice([errno.EIO, errno.EINTR]) if f["act"] == ERR else rng.randrange(1, 1000)
        elif r < 0.85:
            st = {"op": "threads", "name": n, "objs": [gen_obj(rng, kind), gen_obj(rng, kind)],
                  "spec": {"mode": "rand", "seed": rng.randrange(10 ** 6), "p": rng.choice([0.1, 0.3, 0.6]), "first": rng.randrange(3)}}
            if rng.random() < 0.4:
                st["faults"] = [gen_fault(rng)]
        else:
            st = {"op": "machine-crash", "seed": rng.randrange(10 ** 6)}
        steps.append(st)
        if kind == "pickle" and rng.random() < 0.25:
            steps.append({"op": "lost-tail", "name": n, "u": rng.choice([0.0, rng.random(), rng.random()])})
        if st["op"] == "save" and rng.random() < 0.35:
            steps.append({"op": "machine-crash", "seed": rng.randrange(10 ** 6)})
    return {"kind": kind, "names": names, "steps": steps}


# -- objects ----------------------------------------------------------------------
def make_obj(r):
    import pandas as pd

    rs = np.random.RandomState(r["seed"])
    o = r["o"]
    if o == "net":
        n = r["n"]
        nums = {"seq": np.arange(1, n + 1), "gap": np.cumsum(rs.randint(1, 9, n)), "shuffled": rs.permutation(n) + 1}[r["labels"]]
        labels = ["%s%d" % (r["prefix"], k) for k in nums]
        A = np.triu(rs.rand(n, n) + 0.01, 1) * (rs.rand(n, n) < r["density"])
        if r["weights"] == "one":
            A = (A > 0).astype(float)
        elif r["weights"] == "tiny":
            A *= 1e-9
        elif r["weights"] == "huge":
            A *= 1e12
        return pd.DataFrame(A + A.T, index=labels, columns=labels)
    if o == "dict":
        return {"seed": r["seed"], "scores": rs.randn(3), "nested": {"a": [1, 2.5, None], "t": (1, "x")}}
    if o == "array":
        return rs.randn(rs.randint(1, 6), 4)
    if o == "nested":
        return [{"k%d" % i: rs.randn(2, 2), "v": r["seed"]} for i in range(3)]
    if o == "big":
        return {"x": rs.randn(120, 150), "y": bytes(bytearray(rs.randint(0, 255, 30000).astype(np.uint8))), "seed": r["seed"]}
    if o == "df":
        return pd.DataFrame(rs.randn(4, 3), columns=list("abc"))
    if o == "none":
        return [None, True, float(r["seed"])]
    if o == "str":
        return "héllo %d\n\0" % r["seed"]
    from regain.covariance import GraphicalLasso

    est = GraphicalLasso(alpha=0.1 + (r["seed"] % 7) * 0.1, max_iter=5)
    est.fit(rs.randn(8, 3))
    return est


def image(kind, v):
    """Comparable image of a loaded or saved value."""
    if kind == "network":
        return ("net", [str(c) for c in v.index], [str(c) for c in v.columns], np.array(v.values, dtype=float))
    import pandas as pd

    if isinstance(v, pd.DataFrame):
        return ("df", [str(c) for c in v.columns], np.array(v.values))
    if hasattr(v, "get_params"):
        return ("est", type(v).__name__, state.snapshot(v))
    return state.encode(v)


def expected(kind, obj, diag):
    if kind == "network":
        order = sorted(obj.index, key=lambda x: int(x[1:]))
        A = obj.loc[order, order].values.copy()
        if diag:
            np.fill_diagonal(A, A.sum(axis=1))
        return ("net", order, order, A)
    return image(kind, obj)


TOL = {"network": dict(rtol=1e-12, atol=0.0), "pickle": dict(rtol=0.0, atol=0.0)}


def target(kind, name):
    return name if kind == "network" or name.endswith(".pkl") else name + ".pkl"


def do_save(kind, obj, path):
    from regain import utils

    return utils.write_network(obj, path) if kind == "network" else utils.save_pickle(obj, path)


def do_load(kind, path, diag=False):
    from regain import utils

    if kind == "network":
        return utils.read_network(path, fill_diagonal=diag, delimiter="," if not path.endswith(".csv") else "auto")
    return utils.load_pickle(path)


# -- one run ----------------------------------------------------------------------
class World:
    def __init__(self, plan, base):
        self.kind = plan["kind"]
        self.base = base
        self.root = os.path.join(base, "disk")
        os.makedirs(os.path.join(self.root, "dir"))
        self.names = plan["names"]
        self.model = disk.Model(self.root)
        # per target file: the complete versions a load may return (None = no file yet)
        self.allowed = {target(self.kind, n): [None] for n in self.names}
        self.stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}
        self.events = []
        self.trace = []

    def count(self, log, op):
        acts = {ERR: "error", SHORT: "short", CRASH_BEFORE: "process_crash", CRASH_AFTER: "process_crash", CRASH_MID: "torn_write_crash", 9: "disk_full"}
        for r in log:
            if r["op"] == "fault":
                k = acts[r["ino"]]
                if k == "error":
                    k += "_" + errno.errorcode.get(r["off"], str(r["off"]))
                self.fault(k, "%s/%s" % (op, r["a"]))
            else:
                self.stats["steps"] += 1

    def fault(self, k, where):
        self.stats["faults"][k] = self.stats["faults"].get(k, 0) + 1
        self.stats["states"].append("%s@%s" % (k, where))
        self.events.append("%s@%s" % (k, where))

    def path(self, st):
        n = self.names[st["name"]]
        return n if st.get("rel") else os.path.join(self.root, n)

    def lookup(self, key, got):
        for v in self.allowed[key]:
            if v is None:
                continue
            if state.diff(v, got, **TOL[self.kind]) is None:
                return True
        return False

    def verify(self, when):
        """Every name loads as one of its complete versions."""

        def body():
            common.quiet()
            out = {}
            for n in self.names:
                t = target(self.kind, n)
                try:
                    out[t] = ("ok", image(self.kind, do_load(self.kind, os.path.join(self.root, t))))
                    if self.kind == "network":  # the default read fills the diagonal
                        full = image(self.kind, do_load(self.kind, os.path.join(self.root, t), True))
                        A, B = out[t][1][3], full[3]
                        off = ~np.eye(len(A), dtype=bool)
                        if full[1:3] != out[t][1][1:3] or not np.array_equal(A[off], B[off]) or not np.allclose(np.diag(B), A.sum(axis=1), rtol=1e-9):
                            out[t] = ("raise", "Mismatch", "reads with and without filled diagonal disagree")
                except Exception as e:
                    out[t] = ("raise", type(e).__name__, str(e)[:200])
            return out

        got = proc.call(body)
        for t, r in got.items():
            if r[0] == "ok":
                if not self.lookup(t, r[1]):
                    return ("altered", "%s: loading %s returns something that was never completely saved" % (when, t))
            elif r[1] == "FileNotFoundError":
                if None not in self.allowed[t]:
                    return ("lost", "%s: the saved file %s is gone" % (when, t))
            else:
                return ("damaged", "%s: loading %s raises %s: %s" % (when, t, r[1], r[2]))
        return None


def resolve_interrupt(w, st, obj):
    it = st["interrupt"]
    if "site" in it:
        return it
    dry = os.path.join(w.base, "dry")
    shutil.copytree(w.root, dry)

    def body():
        common.quiet()
        os.chdir(dry)
        with Tracer(record=True) as tr:
            do_save(w.kind, obj, os.path.join(dry, w.names[st["name"]]))
        return tr.seq

    try:
        seq = proc.call(body)
    finally:
        shutil.rmtree(dry)
    return pick_fault(seq, it["kind"], it["u_site"], it["u_occ"])


def execute(plan):
    common.quiet()
    base = os.path.realpath(tempfile.mkdtemp(prefix="regain-r12-"))
    try:
        return run(plan, World(plan, base))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run(plan, w):
    kind = w.kind
    fresh = {"op": "save", "faults": [], "final": True}
    tail = [dict(fresh, name=k, obj={"o": "net", "seed": 5 + k, "n": 3, "density": 1.0, "weights": "float", "prefix": "G", "labels": "seq"}
                 if kind == "network" else {"o": "dict", "seed": 5 + k}) for k in range(len(w.names))]
    for k, st in enumerate(plan["steps"] + tail):
        bad = step(w, st, k)
        if bad is None:
            bad = w.verify("after step %d (%s)" % (k, st["op"]))
        if bad:
            return {"status": "violation", "cls": bad[0], "detail": "%s: %s" % (kind, bad[1]), "trace": w.trace, "stats": w.stats}
    fired = sum(w.stats["faults"].values())
    return {"status": "ok", "stats": w.stats, "digest": state.digest([w.events, w.trace]),
            "nontrivial": "|".join([kind] + w.trace) if fired else None, "note": "; ".join(w.trace)}


def soft(r):
    """An interrupted call that Python itself retries."""
    return r["ino"] == ERR and r["off"] == errno.EINTR and r["a"] in ("open", "write", "read", "fsync")


def step(w, st, k):
    kind, op = w.kind, st["op"]
    if op == "machine-crash":
        what = w.model.crash(random.Random(st["seed"]))
        w.fault("machine_crash", "crash")
        w.trace.append("machine crash: " + "; ".join(what))
        return None
    key = target(kind, w.names[st["name"]])
    if op == "lost-tail":  # a copy that lost its tail (torn copy, full disk) is loaded
        if not os.path.exists(os.path.join(w.root, key)):
            return None
        with open(os.path.join(w.root, key), "rb") as f:
            whole = f.read()
        cut = int(st["u"] * len(whole))
        p = os.path.join(w.base, "torn.pkl")
        with open(p, "wb") as f:
            f.write(whole[:cut])

        def body():
            common.quiet()
            try:
                return ("ok", image(kind, do_load(kind, p)))
            except Exception as e:
                return ("raise", type(e).__name__, "")

        got = proc.call(body)
        os.remove(p)
        w.fault("lost_tail", "load")
        w.trace.append("load the first %d of %d bytes of %s -> %s" % (cut, len(whole), key, got[:2] if got[0] == "raise" else "ok"))
        if got[0] == "ok" and not w.lookup(key, got[1]):
            return ("altered", "loading the first %d of %d bytes of a saved file returns something that was never saved" % (cut, len(whole)))
        return None
    if op == "save":
        obj = proc_obj(st["obj"])
        want = expected(kind, obj, False)
        it = resolve_interrupt(w, st, obj) if st.get("interrupt") else None

        def body():
            common.quiet()
            if st.get("rel"):
                os.chdir(w.root)
            before = image(kind, obj)
            tr = Tracer(fault=it) if it else None
            try:
                if tr:
                    with tr:
                        do_save(kind, obj, w.path(st))
                else:
                    do_save(kind, obj, w.path(st))
                out = ("ok",)
            except BaseException as e:
                out = ("raise", type(e).__name__, str(e)[:120].replace(w.base, ""))
            return out, (tr.fired if tr else None), state.diff(before, image(kind, obj), rtol=0, atol=0)

        got, log = disk.run_armed(w.root, st.get("faults", []), st.get("capacity"), body, w.base)
        w.model.replay(log)
        w.count(log, "save")
        if got and got[1]:
            w.fault(it["kind"], "save/line")
        w.trace.append("save %s %s faults=%s -> %s" % (key, st["obj"]["o"], [r["a"] for r in log if r["op"] == "fault"], got[0] if got else "process died"))
        if got is not None and got[2]:
            return ("object-changed", "saving changed the saved object: %s" % got[2])
        if got is not None and got[0][0] == "ok":
            w.allowed[key] = [want]
        else:
            w.allowed[key] = w.allowed[key] + [want]
            hard = [r for r in log if r["op"] == "fault" and not (r["ino"] == SHORT or soft(r))]
            if got is not None and not hard and not got[1]:
                return ("refused", "saving %s failed without any fault: %s" % (key, got[0]))
        return None
    if op == "load":
        def body():
            common.quiet()
            try:
                return ("ok", image(kind, do_load(kind, os.path.join(w.root, key))))
            except Exception as e:
                return ("raise", type(e).__name__, str(e)[:120].replace(w.base, ""))

        got, log = disk.run_armed(w.root, st.get("faults", []), None, body, w.base)
        w.model.replay([r for r in log if r["op"] != "open" or r["res"]])
        w.count(log, "load")
        w.trace.append("load %s faults=%s -> %s" % (key, [r["a"] for r in log if r["op"] == "fault"], got[0] if got[0] == "ok" else got))
        if got[0] == "ok" and not w.lookup(key, got[1]):
            return ("altered", "a load during I/O faults returned something that was never completely saved")
        hard = [r for r in log if r["op"] == "fault" and r["ino"] == ERR and not soft(r)]
        if got[0] == "raise" and not hard and got[1] != "FileNotFoundError":
            return ("damaged", "loading %s raises %s: %s" % (key, got[1], got[2]))
        return None
    # two savers and a reader, interleaved line by line
    objs = [proc_obj(o) for o in st["objs"]]
    wants = [expected(kind, o, False) for o in objs]
    p = os.path.join(w.root, w.names[st["name"]])

    def body():
        common.quiet()

        def saver(o):
            return lambda: do_save(kind, o, p)

        def reader():
            return image(kind, do_load(kind, os.path.join(w.root, key)))

        s = Sched([saver(objs[0]), saver(objs[1]), reader], st["spec"], fine=True)
        res = s.run(60)
        return [r if r[0] == "ok" else (r[0], r[1], r[2].replace(w.base, "")) for r in res], len(s.switches), s.switches

    got, log = disk.run_armed(w.root, st.get("faults", []), None, body, w.base)
    w.model.replay(log)
    w.count(log, "threads")
    before = w.allowed[key]
    w.allowed[key] = before + wants
    if got is None:
        w.trace.append("threads %s -> process died" % key)
        return None
    res, nsw, switches = got
    st["switches_seen"] = switches
    if nsw:
        w.fault("thread_switches", "threads/%d" % min(nsw, 20))
    w.trace.append("threads %s: %d switches -> %s" % (key, nsw, [r[0] if r[0] == "ok" else r[1] for r in res]))
    if res[2][0] == "ok" and not w.lookup(key, res[2][1]):
        return ("altered", "a concurrent load returned something that was never completely saved")
    hard = [r for r in log if r["op"] == "fault"]
    if res[2][0] == "raise" and not hard and not (res[2][1] == "FileNotFoundError" and None in before):
        return ("damaged", "a concurrent load of %s raises %s: %s" % (key, res[2][1], res[2][2]))
    for r in res[:2]:
        if r[0] == "raise" and not hard:
            return ("refused", "a concurrent save of %s failed without any fault: %s %s" % (key, r[1], r[2]))
    if res[0][0] == res[1][0] == "ok":
        w.allowed[key] = wants
    elif any(r[0] == "ok" for r in res[:2]):
        w.allowed[key] = wants
    return None


_cache = {}


def proc_obj(r):
    """Build an object; fitting happens in a fork so that this process stays pristine."""
    if r["o"] != "est":
        return make_obj(r)
    return proc.call(make_obj, r)


def concretise(plan, res):
    return plan


def shrinks(plan):
    steps = plan["steps"]
    for k in range(len(steps) - 1, -1, -1):
        p = copy.deepcopy(plan)
        del p["steps"][k]
        yield p
    for k, st in enumerate(steps):
        for key in ("faults", "capacity", "interrupt"):
            if st.get(key):
                p = copy.deepcopy(plan)
                if key == "faults" and len(st["faults"]) > 1:
                    for j in range(len(st["faults"])):
                        q = copy.deepcopy(plan)
                        del q["steps"][k]["faults"][j]
                        yield q
                del p["steps"][k][key]
                yield p
        if st.get("rel"):
            p = copy.deepcopy(plan)
            p["steps"][k]["rel"] = False
            yield p
        if st["op"] == "save" and plan["kind"] == "pickle" and st["obj"]["o"] != "dict":
            p = copy.deepcopy(plan)
            p["steps"][k]["obj"]["o"] = "dict"
            yield p
        if st["op"] == "save" and plan["kind"] == "network" and st["obj"]["n"] > 2:
            p = copy.deepcopy(plan)
            p["steps"][k]["obj"]["n"] = 2
            yield p
        if st["op"] == "threads" and st["spec"]["p"] > 0.1:
            p = copy.deepcopy(plan)
            p["steps"][k]["spec"]["p"] = 0.1
            yield p
