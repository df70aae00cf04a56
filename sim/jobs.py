"""Simulated joblib backend: every Parallel() call of the process runs here.

Workers are threads under the baton scheduler ("threads": shared memory, tasks
interleaved line by line) or forked processes ("procs": arguments and results
pickled, read-only arrays on request).  A seeded generator decides the batch
sizes, which waiting batches run next, how they interleave, in which order they
complete, and which fault hits which batch.
"""
import pickle
import random

import numpy as np

from sim import proc
from sim.sched import Sched
from sim.tracer import FAULTS, Tracer


class WorkerDied(Exception):
    """What joblib reports when a worker process is killed."""


class Result:
    def __init__(self, backend):
        self.backend, self.out, self.done = backend, None, False

    def get(self, timeout=None):
        return self.backend.finish(self)


class Core:
    """One simulated pool; `plan` = {kind, seed, n_jobs, batch, p, memmap, fault}."""

    def __init__(self, plan):
        self.plan = plan
        self.rng = random.Random(plan["seed"])
        self.pending = []  # (result, func, callback, ordinal)
        self.submitted = 0
        self.fired = {}
        self.log = []
        self.steps = 0
        self.switches = 0

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def submit(self, func, callback):
        r = Result(self)
        self.pending.append((r, func, callback, self.submitted))
        self.submitted += 1
        return r

    def finish(self, want):
        f = self.plan.get("fault")
        while not want.done:
            k = 1 + self.rng.randrange(max(1, self.n))
            self.rng.shuffle(self.pending)
            wave, self.pending = self.pending[:k], self.pending[k:]
            if f and f["kind"] == "main_interrupt" and any(w[3] >= f["batch"] for w in wave) and not self.fired:
                self.fire("main_interrupt")
                raise KeyboardInterrupt("injected while waiting for workers")
            outs = (self.run_threads if self.plan["kind"] == "threads" else self.run_procs)(wave)
            order = list(range(len(wave)))
            self.rng.shuffle(order)
            for j in order:
                r, func, cb, no = wave[j]
                r.out, r.done = outs[j], True
                self.log.append(no)
            for j in order:
                if wave[j][2] is not None and outs[j][0] == "ok":
                    wave[j][2](outs[j])  # a completed batch makes joblib dispatch the next one
        if want.out[0] == "raise":
            raise want.out[1]
        return want.out[1]

    def fault_for(self, no):
        f = self.plan.get("fault")
        return f if f and f["kind"] != "main_interrupt" and f["batch"] == no else None

    def run_threads(self, wave):
        outs = [None] * len(wave)
        faults = {}

        def body(j, func, f):
            def go():
                try:
                    if f and f["kind"] == "dies":
                        self.fire("worker_dies")
                        raise WorkerDied("simulated")
                    r = func()
                    if f and f["kind"] == "lost":
                        self.fire("result_lost")
                        raise WorkerDied("simulated: result lost")
                    outs[j] = ("ok", r)
                except BaseException as e:
                    outs[j] = ("raise", e)
            return go

        bodies = []
        for j, (r, func, cb, no) in enumerate(wave):
            f = self.fault_for(no)
            bodies.append(body(j, func, f))
            if f and f["kind"] in FAULTS:
                faults[j] = {"kind": f["kind"], "step": f["step"]}
        s = Sched(bodies, {"mode": "rand", "seed": self.rng.randrange(10 ** 9), "p": self.plan["p"], "first": self.rng.randrange(len(wave))},
                  fine=True, faults=faults)
        s.run()
        for x in s.fired:
            self.fire("worker_" + x[1])
        self.steps += s.steps
        self.switches += len(s.switches)
        return outs

    def run_procs(self, wave):
        outs = []
        for j, (r, func, cb, no) in enumerate(wave):
            f = self.fault_for(no)
            if f and f["kind"] == "dies":
                self.fire("worker_dies")
                outs.append(("raise", WorkerDied("simulated")))
                continue
            blob = self.dumps(func)
            st = proc.call(self.in_worker, blob, f if f and f["kind"] in FAULTS else None, self.plan.get("memmap", False))
            if st[2]:
                self.fire("worker_" + f["kind"])
            if f and f["kind"] == "lost":
                self.fire("result_lost")
                outs.append(("raise", WorkerDied("simulated: result lost")))
            else:
                outs.append((st[0], pickle.loads(st[1]) if st[0] == "ok" else st[1]))
        return outs

    @staticmethod
    def dumps(func):
        try:
            import cloudpickle
        except ImportError:
            from joblib.externals import cloudpickle

        return cloudpickle.dumps(func)

    @staticmethod
    def in_worker(blob, f, memmap):
        func = pickle.loads(blob)
        if memmap:
            for fn, a, k in getattr(func, "items", []):
                for v in list(a) + list(k.values()):
                    if isinstance(v, np.ndarray):
                        v.setflags(write=False)
        tr = Tracer(fault={"kind": f["kind"], "step": f["step"]}) if f else None
        try:
            if tr:
                with tr:
                    out = func()
            else:
                out = func()
            return "ok", Core.dumps(out), bool(tr and tr.fired)
        except BaseException as e:
            try:
                pickle.loads(pickle.dumps(e))
            except Exception:
                e = RuntimeError(repr(e))
            return "raise", e, bool(tr and tr.fired)


CORE = None


def install():
    from joblib._parallel_backends import ParallelBackendBase
    from joblib.parallel import register_parallel_backend

    class SimBackend(ParallelBackendBase):
        supports_sharedmem = True
        uses_threads = True

        def effective_n_jobs(self, n_jobs):
            n = n_jobs if n_jobs is not None else 1
            n = 8 + 1 + n if n < 0 else n
            CORE.n = max(1, n)
            return CORE.n

        def submit(self, func, callback=None):
            return CORE.submit(func, callback)

        apply_async = submit

        def compute_batch_size(self):
            return 1 + CORE.rng.randrange(CORE.plan.get("batch", 1))

    register_parallel_backend("sim", SimBackend)


class pool:
    """with pool(plan) as core: ... every Parallel() inside runs simulated."""

    def __init__(self, plan):
        self.core = Core(plan)

    def __enter__(self):
        global CORE
        import joblib

        CORE = self.core
        self.ctx = joblib.parallel_backend("sim", n_jobs=self.core.plan["n_jobs"])
        self.ctx.__enter__()
        return self.core

    def __exit__(self, *exc):
        global CORE
        self.ctx.__exit__(*exc)
        CORE = None
