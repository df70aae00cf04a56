"""Baton scheduler: real Python threads, exactly one of which runs at a time.

Switch points are the simulated steps: executed lines of regain and, in fine
mode, also every entry to and return from its functions and every call it makes
into Python code of numpy, scipy, ... (bytecode-level tracing of several threads
crashes CPython 3.12, so it is not used here); a seeded
generator, or an explicit list of switches, decides who runs next.
"""
import random
import sys
import threading

from sim.tracer import FAULTS, in_regain, site_of


class Deadlock(Exception):
    pass


class Sched:
    """spec: {"mode": "rand", "seed": n, "p": prob, "first": tid}  or
             {"mode": "list", "switches": [[step, tid], ...], "first": tid}"""

    def __init__(self, bodies, spec, fine=False, faults=None, max_steps=4000000):
        self.bodies = bodies
        self.n = len(bodies)
        self.spec = spec
        self.fine = fine
        self.rng = random.Random(spec["seed"]) if spec["mode"] == "rand" else None
        self.p = spec.get("p", 0)
        self.plan = {int(s): int(t) for s, t in spec.get("switches", [])}
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.done = threading.Event()
        self.alive = set(range(self.n))
        self.results = [None] * self.n
        self.steps = 0
        self.tsteps = [0] * self.n
        self.switches = []
        self.sites = set()
        self.faults = faults or {}  # tid -> {"kind":, "step": own step number}
        self.fired = []
        self.max_steps = max_steps

    # -- tracing (runs in the thread that holds the baton) ---------------------
    def _tracer(self, tid):
        fine = self.fine

        def local(frame, event, arg):
            if event == "line" or (fine and event == "return"):
                self._step(tid, frame)
            return local

        def glob(frame, event, arg):
            if in_regain(frame.f_code):
                if fine:
                    self._step(tid, frame)
                return local
            if fine and frame.f_back is not None and in_regain(frame.f_back.f_code):
                # a call out of the library into numpy, scipy, ...: a point inside the line
                self._step(tid, frame.f_back)
            return None

        return glob

    def _step(self, tid, frame):
        self.steps += 1
        self.tsteps[tid] += 1
        f = self.faults.get(tid)
        if f is not None and self.tsteps[tid] == f["step"]:
            self.fired.append((tid, f["kind"], site_of(frame)))
            raise FAULTS[f["kind"]]("injected into thread %d" % tid)
        if len(self.alive) < 2:
            return
        if self.rng is not None:
            if self.rng.random() >= self.p:
                return
            others = sorted(self.alive - {tid})
            nxt = others[self.rng.randrange(len(others))]
        else:
            nxt = self.plan.get(self.steps)
            if nxt is None or nxt not in self.alive or nxt == tid:
                return
        self.switches.append((self.steps, nxt))
        self.sites.add((frame.f_code.co_filename, frame.f_lineno or 0))
        self.sems[nxt].release()
        self.sems[tid].acquire()

    # -- threads ---------------------------------------------------------------
    # Tracing is switched on in every thread before the first step and off after
    # the last one: CPython re-instruments code objects whenever a trace function
    # is set, which is not safe while another thread is suspended inside one.
    def _main(self, tid):
        sys.settrace(self._tracer(tid))
        self.ready.release()
        self.sems[tid].acquire()
        try:
            r = ("ok", self.bodies[tid]())
        except BaseException as e:
            r = ("raise", type(e).__name__, str(e)[:200])
        self.results[tid] = r
        self.alive.discard(tid)
        if self.alive:
            rest = sorted(self.alive)
            if self.rng is not None:
                nxt = rest[self.rng.randrange(len(rest))]
            else:
                nxt = self.plan.get(-tid - 1, rest[0])
                nxt = nxt if nxt in self.alive else rest[0]
            self.switches.append((-tid - 1, nxt))
            self.sems[nxt].release()
        else:
            self.done.set()
        self.stop.wait()
        sys.settrace(None)

    def run(self, timeout=200):
        self.ready = threading.Semaphore(0)
        self.stop = threading.Event()
        ts = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
            self.ready.acquire()
        self.sems[self.spec.get("first", 0) % self.n].release()
        if not self.done.wait(timeout):
            raise Deadlock("no progress: baton not returned within %ds" % timeout)
        self.stop.set()
        for t in ts:
            t.join()
        return self.results
