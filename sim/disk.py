"""Simulated disk: the system-call seam (native/disk.c) plus a model of what survives a machine crash.

Files live in a real scratch directory, so all of Python's, pandas' and numpy's
I/O code is real.  The seam logs every call; the model replays the log and
knows, for every file, which bytes were synced and which directory changes were
synced, and produces legal post-crash disks.
"""
import ctypes
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "native", "disk.c")
ERR, SHORT, CRASH_BEFORE, CRASH_AFTER, CRASH_MID = 1, 2, 3, 4, 5
CRASHED = 77


def shim():
    """Path of the compiled seam (compiled when missing)."""
    with open(SRC, "rb") as f:
        h = hashlib.sha1(f.read()).hexdigest()[:12]
    d = os.path.join(os.path.dirname(HERE), ".cache")
    so = os.path.join(d, "disk-%s.so" % h)
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = "%s.%d" % (so, os.getpid())
        subprocess.check_call(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", tmp, SRC, "-ldl"])
        os.replace(tmp, so)
    return so


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.disk_arm.argtypes = [ctypes.c_char_p, ctypes.c_int]
        _lib.disk_fault.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long]
        _lib.disk_capacity.argtypes = [ctypes.c_long]
        _lib.disk_mark.argtypes = [ctypes.c_char_p]
    return _lib


def parse(path):
    with open(path, "rb") as f:
        b = f.read()
    out, i = [], 0
    while i < len(b):
        j = b.find(b"\n", i)
        if j < 0:
            break
        p = b[i:j].decode("utf8", "surrogateescape").split("\t")
        op, fd, ino, off, res, n = p[0], int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5])
        out.append({"op": op, "fd": fd, "ino": ino, "off": off, "res": res, "a": p[6], "b": p[7], "data": b[j + 1:j + 1 + n]})
        i = j + 1 + n + 1
    return out


class Inode:
    def __init__(self, data=b""):
        self.dur = bytes(data)  # synced content
        self.vol = bytearray(data)  # what the running system sees
        self.pending = []  # unsynced changes, oldest first
        self.lost = False  # an fsync failed: the kernel may have dropped these pages

    def apply(self, op, buf):
        if op[0] == "trunc":
            if op[1] <= len(buf):
                del buf[op[1]:]
            else:
                buf.extend(b"\0" * (op[1] - len(buf)))
        else:
            _, off, data = op
            if off > len(buf):
                buf.extend(b"\0" * (off - len(buf)))
            buf[off:off + len(data)] = data

    def change(self, op):
        self.pending.append(op)
        self.apply(op, self.vol)

    def sync(self):
        if not self.lost:
            self.dur = bytes(self.vol)
            self.pending = []


class Model:
    """Directory tree of regular files with synced and unsynced parts."""

    def __init__(self, root):
        self.root = root
        self.now = {}  # path -> Inode
        self.dur = {}
        self.dirops = []
        self.fds = {}
        self.byino = {}
        self.scan()

    def scan(self):
        self.now, self.dirops, self.fds, self.byino = {}, [], {}, {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    self.now[p] = Inode(h.read())
        self.dur = dict(self.now)

    def replay(self, log):
        self.fds = {}
        for r in log:
            op = r["op"]
            if op == "open":
                p = os.path.normpath(r["a"])
                node = self.now.get(p)
                if os.path.isdir(p):
                    self.fds[r["fd"]] = ("dir", p)
                    continue
                if node is None:
                    node = self.now[p] = Inode()
                    self.dirops.append(("create", p, node))
                if r["off"] & os.O_TRUNC and node.vol:
                    node.change(("trunc", 0))
                self.fds[r["fd"]] = ("file", node)
            elif op in ("write", "ftruncate", "fsync", "fsyncfail"):
                k, node = self.fds.get(r["fd"], (None, None))
                if k == "dir":
                    if op == "fsync":
                        self.flush_dirs()
                elif k == "file":
                    if op == "write":
                        node.change(("write", r["off"], r["data"]))
                    elif op == "ftruncate":
                        node.change(("trunc", r["off"]))
                    elif op == "fsync":
                        node.sync()
                    elif node.pending:
                        node.lost = True
            elif op == "sync":
                for n in self.now.values():
                    n.sync()
                self.flush_dirs()
            elif op == "rename":
                a, b = os.path.normpath(r["a"]), os.path.normpath(r["b"])
                if a in self.now:
                    self.now[b] = self.now.pop(a)
                    self.dirops.append(("rename", a, b))
                elif r["res"] == 1:  # moved in from elsewhere: content unknown to the seam
                    with open(b, "rb") as f:
                        node = Inode()
                        node.change(("write", 0, f.read()))
                    self.now[b] = node
                    self.dirops.append(("create", b, node))
            elif op == "link":
                a, b = os.path.normpath(r["a"]), os.path.normpath(r["b"])
                if a in self.now:
                    self.now[b] = self.now[a]
                    self.dirops.append(("create", b, self.now[a]))
            elif op == "unlink":
                p = os.path.normpath(r["a"])
                self.now.pop(p, None)
                self.dirops.append(("unlink", p))

    def _dirop(self, d, o):
        if o[0] == "create":
            d[o[1]] = o[2]
        elif o[0] == "rename":
            if o[1] in d:
                d[o[2]] = d.pop(o[1])
        else:
            d.pop(o[1], None)

    def flush_dirs(self):
        for o in self.dirops:
            self._dirop(self.dur, o)
        self.dirops = []

    def crash(self, rng):
        """Lay a legal post-crash disk into the scratch directory; returns a description."""
        names = dict(self.dur)
        k = rng.choice([0, len(self.dirops), rng.randint(0, len(self.dirops))])
        for o in self.dirops[:k]:
            self._dirop(names, o)
        what = ["%d of %d unsynced directory changes kept" % (k, len(self.dirops))]
        content = {}
        for p, node in sorted(names.items()):
            if id(node) in content:
                continue
            mode = rng.choice(["none", "all", "some", "some"])
            buf = bytearray(node.dur)
            if mode == "all":
                buf = bytearray(node.vol)
            elif mode == "some":
                keep = [rng.random() < 0.5 for _ in node.pending]
                for o, kp in zip(node.pending, keep):
                    if o[0] == "write":
                        if kp:
                            n = len(o[2]) if rng.random() < 0.6 else rng.randint(0, len(o[2]))
                            node.apply(("write", o[1], o[2][:n]), buf)
                        elif rng.random() < 0.4:
                            node.apply(("write", o[1], b"\0" * len(o[2])), buf)
                    elif kp:
                        node.apply(o, buf)
            if node.pending:
                what.append("%s: %d unsynced changes, %s kept" % (os.path.basename(p), len(node.pending), mode))
            content[id(node)] = bytes(buf)
        for d, _, fs in os.walk(self.root):
            for f in fs:
                os.unlink(os.path.join(d, f))
        for p, node in names.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(content[id(node)])
        self.scan()
        return what


def run_armed(root, faults, capacity, body, collect_dir):
    """Fork; run body() with the seam armed.  Returns (outcome, log, fired) - outcome is None after a simulated process death."""
    import pickle

    logp = os.path.join(collect_dir, "log")
    resp = os.path.join(collect_dir, "res")
    for p in (logp, resp):
        if os.path.exists(p):
            os.unlink(p)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            lg = os.open(logp, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND)
            L = lib()
            L.disk_arm(root.encode(), lg)
            if capacity is not None:
                L.disk_capacity(capacity)
            for f in faults:
                L.disk_fault(f["at"], f["act"], f.get("arg", 0))
            try:
                out = body()
            finally:
                L.disk_disarm()
            with open(resp, "wb") as f:
                pickle.dump(out, f, protocol=4)
            code = 0
        except BaseException:
            import traceback

            with open(resp, "wb") as f:
                pickle.dump(("harness", traceback.format_exc()), f, protocol=4)
            code = 8
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    log = parse(logp) if os.path.exists(logp) else []
    rc = os.waitstatus_to_exitcode(st)
    if rc == CRASHED:
        return None, log
    if rc != 0:
        msg = "exit %d" % rc
        if os.path.exists(resp):
            with open(resp, "rb") as f:
                msg = str(pickle.load(f))
        raise RuntimeError("simulated process failed: " + msg)
    with open(resp, "rb") as f:
        return pickle.load(f), log
