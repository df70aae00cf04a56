"""Line/opcode level stepping of regain code, and fault injection.

A simulated step is one executed source line (or one bytecode, in opcode mode)
of a file below the regain package.  Nothing else is traced.
"""
import sys

from sim.boot import PKG, REPO

_code_cache = {}


def in_regain(code):
    r = _code_cache.get(code)
    if r is None:
        fn = code.co_filename
        r = fn.startswith(PKG) and "/tests/" not in fn
        _code_cache[code] = r
    return r


class StepBudget(BaseException):
    """Raised inside the system when a run exceeds its simulated step budget."""


class SimFault:
    """Mixin that marks an exception as injected by the simulator."""


class SimKeyboardInterrupt(KeyboardInterrupt, SimFault):
    pass


class SimMemoryError(MemoryError, SimFault):
    pass


FAULTS = {"KeyboardInterrupt": SimKeyboardInterrupt, "MemoryError": SimMemoryError}


def site_of(frame):
    c = frame.f_code
    q = getattr(c, "co_qualname", c.co_name)
    return (c.co_filename[len(REPO) + 1:], q, frame.f_lineno or 0)


class Tracer:
    """Single-thread tracer: records sites, injects at most one fault, runs probes.

    fault = {"kind":..., "site": (file, qualname, line), "occ": n}  (occ is 1-based)
    """

    def __init__(self, record=False, fault=None, budget=None, opcodes=False, probe=None, probe_every=1):
        self.record = record
        self.fault = fault
        self.budget = budget
        self.opcodes = opcodes
        self.probe = probe
        self.probe_every = probe_every
        self.steps = 0
        self.seq = []  # recorded sites
        self.fired = None
        self._occ = 0
        self._fstep = fault.get("step") if fault else None
        if fault and self._fstep is None:
            self._fsite = tuple(fault["site"])
            self._focc = fault["occ"]

    def _global(self, frame, event, arg):
        if in_regain(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event != ("opcode" if self.opcodes else "line"):
            return self._local
        self.steps += 1
        if self.record:
            self.seq.append(site_of(frame))
        if self.probe is not None and self.steps % self.probe_every == 0:
            self.probe(frame)
        if self.fault is not None and self.fired is None:
            s = site_of(frame)
            if self._fstep is not None:
                if self.steps == self._fstep:
                    self.fired = s
                    raise FAULTS[self.fault["kind"]]("injected at step %d" % self.steps)
            elif s == self._fsite:
                self._occ += 1
                if self._occ == self._focc:
                    self.fired = s
                    raise FAULTS[self.fault["kind"]]("injected at %s:%s line %d (occurrence %d)" % (s + (self._focc,)))
        if self.budget is not None and self.steps > self.budget:
            raise StepBudget("more than %d steps" % self.budget)
        return self._local

    def __enter__(self):
        self._prev = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._prev)
        return False


def pick_fault(seq, kind, u_site, u_occ):
    """Resolve two fractions to a concrete (site, occurrence) of a recorded run.

    Sites are chosen uniformly over *distinct* sites (not over time), so rarely
    executed lines are hit as often as the inner loop.
    """
    if not seq:
        return None
    counts = {}
    order = []
    for s in seq:
        if s not in counts:
            order.append(s)
            counts[s] = 0
        counts[s] += 1
    s = order[min(int(u_site * len(order)), len(order) - 1)]
    n = counts[s]
    if u_occ < 0.34:
        occ = 1
    elif u_occ < 0.67:
        occ = n
    else:
        occ = 1 + min(int((u_occ - 0.67) / 0.33 * n), n - 1)
    return {"kind": kind, "site": list(s), "occ": occ}


_unsafe_cache = {}


def cleanup_lines(filename):
    """Lines of a source file where an interruption defeats even correct clean-up code.

    `with` headers (their exit runs on that line), `try:` lines, `finally` and
    `except` bodies, and the bodies of context managers: no pure-Python code can
    restore a setting when it is interrupted exactly there.
    """
    import ast
    import os

    if filename in _unsafe_cache:
        return _unsafe_cache[filename]
    path = filename if os.path.isabs(filename) else os.path.join(REPO, filename)
    out = set()
    with open(path) as f:
        tree = ast.parse(f.read())

    def span(nodes):
        for n in nodes:
            out.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            out.update(range(n.lineno, n.body[0].lineno + (1 if n.body[0].lineno == n.lineno else 0)))
        elif isinstance(n, ast.Try):
            out.add(n.lineno)
            span(n.finalbody)
            for h in n.handlers:
                out.add(h.lineno)
                span(h.body)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            names = {getattr(d, "id", getattr(d, "attr", "")) for d in n.decorator_list}
            if "contextmanager" in names or n.name in ("__enter__", "__exit__", "__del__", "close"):
                span([n])
    # helpers that only clean-up code calls are clean-up code themselves
    funcs = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            funcs.setdefault(n.name, []).append(n)
    calls = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            name = n.id if isinstance(n, ast.Name) else n.attr
            if name in funcs:
                calls.setdefault(name, []).append(n.lineno)
    grown = True
    while grown:
        grown = False
        for name, lines in calls.items():
            if len(funcs[name]) == 1 and all(k in out for k in lines):
                before = len(out)
                span(funcs[name])
                grown = grown or len(out) > before
    _unsafe_cache[filename] = out
    return out


def drop_cleanup(seq):
    return [s for s in seq if s[2] not in cleanup_lines(s[0])]
