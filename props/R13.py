"""R13: every record reaches the console and the latest log file exactly once."""
import copy
import io
import logging
import os
import random
import re
import shutil
import sys
import tempfile
import threading

from sim import common, state
from sim.sched import Sched
from sim.tracer import Tracer, pick_fault

PID = "R13"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 100000}
RULE = ("a run counts when logging was initialised at least twice, or an initialisation was interrupted or failed, or threads "
        "were switched; distinct = distinct operation histories with their outcomes")
STATE_MEASURE = "distinct (fault, place) pairs and distinct numbers of switches"
REAL = ["regain.utils.init_logger, Python's logging, real files in a scratch directory"]
STUB = ["the console is a captured stream"]
ASSUMPTIONS = ["the console level is ERROR when not verbose, INFO otherwise; the file level is INFO",
               "a record logged while another thread is inside init_logger may go to either configuration, but at most once to each log"]
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]


def gen_init(rng):
    return {"op": "init", "file": rng.choice(["run", "run.log", "a.txt", "sub/b.log", "c.dat"]), "verbose": rng.random() < 0.6}


def gen_log(rng):
    return {"op": "log", "level": rng.choice(LEVELS), "logger": rng.choice(["", "", "regain", "other.child"])}


def generate(rng, i, tier):
    steps = []
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        if r < 0.3:
            steps.append(gen_init(rng))
        elif r < 0.68:
            steps.append(gen_log(rng))
        elif r < 0.76:
            steps.append({"op": "prior", "what": rng.choice(["stream", "file", "null", "filter", "filter2", "level", "basic", "memory", "stderr"])})
        elif r < 0.84:
            steps.append({"op": "init-interrupted", "init": gen_init(rng), "kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "u_site": rng.random(), "u_occ": rng.random()})
        elif r < 0.9:
            steps.append({"op": "init-fails", "verbose": rng.random() < 0.5, "how": rng.choice(["nodir", "isdir", "null"])})
        elif r < 0.93:
            steps.append({"op": "newconsole"})
        else:
            steps.append({"op": "threads", "logs": [[gen_log(rng) for _ in range(3)] for _ in range(rng.choice([1, 2]))],
                          "init": gen_init(rng) if rng.random() < 0.6 else None,
                          "spec": {"mode": "rand", "seed": rng.randrange(10 ** 6), "p": rng.choice([0.2, 0.5, 0.8]), "first": rng.randrange(2)}})
    # faults stop: a clean initialisation must work again
    steps += [gen_init(rng), gen_log(rng), gen_log(rng), dict(gen_log(rng), level=logging.ERROR)]
    return {"steps": steps}


def where(name):
    return name if name.endswith(".log") or name.endswith(".txt") else name + ".log"


class World:
    def __init__(self, base):
        self.base = base
        os.makedirs(os.path.join(base, "sub"))
        self.n = 0
        self.cfg = None  # (file, verbose) after the last successful init
        self.unsure = False  # after a failed or interrupted init nothing is promised until the next one
        self.expect = {}  # file -> tokens since it was last (re)opened
        self.console = []  # expected console tokens
        self.maybe = set()  # may or may not appear, at most once
        self.free = set()  # logged while the user's own handlers were in place: nothing promised
        self.logged = []
        self.consoles = [io.StringIO()]
        sys.stderr = self.consoles[0]
        self.trace = []
        self.stats = {"faults": {}, "probes": {}, "steps": 0, "states": []}

    def fault(self, k, place):
        self.stats["faults"][k] = self.stats["faults"].get(k, 0) + 1
        self.stats["states"].append("%s@%s" % (k, place))

    def init(self, st):
        from regain.utils import init_logger

        return init_logger(os.path.join(self.base, st["file"]), verbose=st["verbose"])

    def configured(self, st):
        f = where(st["file"])
        self.cfg = (f, st["verbose"])
        self.expect[f] = []
        self.unsure = False

    def token(self):
        self.n += 1
        return "tok%05dend" % self.n

    def emit(self, st, tok):
        logging.getLogger(st["logger"]).log(st["level"], "message %s", tok)

    def booked(self, st, tok):
        self.logged.append(tok)
        if self.cfg is None or self.unsure:
            self.maybe.add(tok)
            self.free.add(tok)
            return
        f, verbose = self.cfg
        if st["level"] >= logging.INFO:
            self.expect[f].append(tok)
        if st["level"] >= (logging.INFO if verbose else logging.ERROR):
            self.console.append(tok)


def step(w, st):
    op = st["op"]
    w.stats["steps"] += 1
    root = logging.getLogger()
    if op == "init":
        got = w.init(st)
        if os.path.realpath(got) != os.path.realpath(os.path.join(w.base, where(st["file"]))):
            return ("wrong-file", "init_logger(%s) reports %s" % (st["file"], os.path.basename(got)))
        w.configured(st)
    elif op == "log":
        t = w.token()
        w.emit(st, t)
        w.booked(st, t)
    elif op == "prior":
        k = st["what"]
        w.unsure = True  # until the next init the user's own changes apply
        if k == "stream":
            root.addHandler(logging.StreamHandler(io.StringIO()))
        elif k == "stderr":
            root.addHandler(logging.StreamHandler())
        elif k == "file":
            root.addHandler(logging.FileHandler(os.path.join(w.base, "prior.out")))
        elif k == "null":
            root.addHandler(logging.NullHandler())
        elif k == "memory":
            from logging.handlers import MemoryHandler
            root.addHandler(MemoryHandler(10, target=logging.StreamHandler(io.StringIO())))
        elif k == "filter":
            root.addFilter(lambda r: False)
        elif k == "filter2":
            root.addFilter(logging.Filter("nobody"))
            root.addFilter(logging.Filter("nobody.else"))
        elif k == "level":
            root.setLevel(logging.CRITICAL)
        else:
            logging.basicConfig(level=logging.DEBUG)
    elif op == "init-interrupted":
        f = st if "site" in st else dict(pick_fault(record(st["init"]), st["kind"], st["u_site"], st["u_occ"]))
        try:
            with Tracer(fault=f) as tr:
                w.init(st["init"])
            w.configured(st["init"])
        except (KeyboardInterrupt, MemoryError):
            w.fault(st["kind"], str(f["site"]))
            w.expect.pop(where(st["init"]["file"]), None)
            w.unsure = True
    elif op == "init-fails":
        name = {"nodir": "missing/x.log", "isdir": "sub.log", "null": "a\0b.log"}[st["how"]]
        if st["how"] == "isdir":
            os.makedirs(os.path.join(w.base, "sub.log"), exist_ok=True)
        try:
            w.init({"file": name, "verbose": st["verbose"]})
            return ("no-error", "init_logger accepted a file that cannot be opened (%s)" % st["how"])
        except (OSError, ValueError):
            w.fault("open_error", st["how"])
            w.unsure = True
    elif op == "newconsole":
        w.consoles.append(io.StringIO())
        sys.stderr = w.consoles[-1]
    elif op == "threads":
        return threads(w, st)
    w.trace.append("%s %s" % (op, {k: v for k, v in st.items() if k != "op"}))
    return None


def threads(w, st):
    toks = [[(s, w.token()) for s in logs] for logs in st["logs"]]
    init = st["init"]

    def logger(k):
        def body():
            for s, t in toks[k]:
                gate()
                w.emit(s, t)
        return body

    bodies = [logger(k) for k in range(len(toks))]
    if init:
        bodies.append(lambda: w.init(init))
    spec = st["spec"]
    s = Sched(bodies, spec, fine=True)

    def gate():
        """A switch point between two records."""
        tid = tids[threading.get_ident()]
        s._step(tid, sys._getframe())

    tids = {}
    wrapped = []
    for k, b in enumerate(s.bodies):
        def go(k=k, b=b):
            tids[threading.get_ident()] = k
            return b()
        wrapped.append(go)
    s.bodies = wrapped
    # no switch while a logging lock is held: a suspended holder would block the baton
    inner = s._step

    def careful(tid, frame):
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_filename == logging.__file__:
                return
            f = f.f_back
        inner(tid, frame)

    s._step = careful
    res = s.run(60)
    if s.switches:
        w.fault("thread_switches", str(min(len(s.switches), 30)))
    w.trace.append("threads: %d loggers%s, %d switches" % (len(toks), " and an initialisation" if init else "", len(s.switches)))
    for r in res:
        if r[0] == "raise":
            return ("thread-error", "a thread failed: %s %s" % (r[1], r[2]))
    if init:
        f = where(init["file"])
        for k in toks:
            for _, t in k:
                w.maybe.add(t)
                if w.unsure or w.cfg is None:
                    w.free.add(t)
                w.logged.append(t)
        w.configured(init)
    else:
        # order between threads is free; order within a thread is not
        w.loose = getattr(w, "loose", [])
        for k in toks:
            w.loose.append([t for _, t in k])
            for s_, t in k:
                w.booked(s_, t)
    return None


_rec = {}


def record(init):
    """Sites of a fault-free initialisation, recorded in a fork."""
    from sim import proc

    key = (init["file"], init["verbose"])
    if key not in _rec:
        def body():
            base = tempfile.mkdtemp(prefix="regain-r13r-")
            try:
                w = World(base)
                with Tracer(record=True) as tr:
                    w.init(init)
                logging.shutdown()
                return tr.seq
            finally:
                shutil.rmtree(base, ignore_errors=True)
        _rec[key] = proc.call(body)
    return _rec[key]


TOK = re.compile(r"tok\d{5}end")
LINE = re.compile(r"^(DEBUG|INFO|WARNING|ERROR|CRITICAL) \(.*\): message (tok\d{5}end)$")


def read(text, name):
    lines = text.split("\n")
    if text and lines[-1] != "":
        return None, ("torn", "%s ends in an incomplete line" % name)
    out = []
    for ln in lines[:-1]:
        t = TOK.findall(ln)
        if len(t) > 1:
            return None, ("torn", "two records on one line of %s" % name)
        out += t
    return out, None


def judge(w, name, text, expect, order_free):
    got, bad = read(text, name)
    if bad:
        return bad
    for t in sorted(set(got) - w.free):
        if got.count(t) > 1:
            return ("duplicated", "a record was written %d times to %s" % (got.count(t), name))
    missing = [t for t in expect if t not in got]
    if missing:
        return ("lost", "%d of %d records never reached %s" % (len(missing), len(expect), name))
    extra = [t for t in got if t not in expect and t not in w.maybe]
    if extra:
        return ("stray", "%d records were written to %s although it was not configured for them" % (len(extra), name))
    idx = {t: i for i, t in enumerate(w.logged)}
    loose = {}
    for n, g in enumerate(getattr(w, "loose", [])):
        for t in g:
            loose[t] = n
    seq = [t for t in got if t in expect]
    for a, b in zip(seq, seq[1:]):
        if idx[a] > idx[b] and not (a in loose and b in loose and loose[a] != loose[b]):
            return ("reordered", "records of %s are out of order" % name)
    return None


def execute(plan):
    common.quiet()
    base = os.path.realpath(tempfile.mkdtemp(prefix="regain-r13-"))
    old = sys.stderr
    logging.raiseExceptions = False
    for st in plan["steps"]:  # before any live initialisation: the recordings need a pristine process
        if st["op"] == "init-interrupted" and "site" not in st:
            record(st["init"])
    try:
        w = World(base)
        bad = None
        for k, st in enumerate(plan["steps"]):
            bad = step(w, st)
            if bad:
                bad = (bad[0], "step %d: %s" % (k, bad[1]))
                break
        sys.stderr = old
        for h in list(logging.getLogger().handlers):
            h.flush()
        if bad is None:
            for f in sorted(w.expect):
                p = os.path.join(base, f)
                text = open(p, encoding="utf8").read() if os.path.exists(p) else ""
                bad = judge(w, f, text, w.expect[f], False)
                if bad:
                    break
        if bad is None:
            bad = judge(w, "the console", "".join(c.getvalue() for c in w.consoles), w.console, False)
    finally:
        sys.stderr = old
        logging.shutdown()
        shutil.rmtree(base, ignore_errors=True)
    inits = sum(1 for s in plan["steps"] if s["op"] == "init")
    if bad:
        return {"status": "violation", "cls": bad[0], "detail": bad[1].replace(base, ""), "trace": w.trace, "stats": w.stats}
    return {"status": "ok", "stats": w.stats, "digest": state.digest(w.trace),
            "nontrivial": "|".join(w.trace) if inits > 1 or w.stats["faults"] else None, "note": "; ".join(w.trace)[:400]}


def shrinks(plan):
    for k in range(len(plan["steps"]) - 1, -1, -1):
        p = copy.deepcopy(plan)
        del p["steps"][k]
        yield p
