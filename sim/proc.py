"""One run = one forked process.  Results come back over a pipe."""
import errno
import os
import pickle
import selectors
import signal
import struct
import sys
import time
import traceback


class ChildError(Exception):
    pass


def _child(fn, args, wfd, capture):
    code = 0
    try:
        if capture is not None:
            os.dup2(capture, 1)
            os.dup2(capture, 2)
        try:
            res = ("ok", fn(*args))
        except BaseException as e:
            res = ("exc", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:])
        try:
            data = pickle.dumps(res, protocol=4)
        except Exception as e:
            data = pickle.dumps(("exc", "unpicklable result: %r" % (e,)), protocol=4)
        mv = memoryview(struct.pack("<Q", len(data)) + data)
        while len(mv):
            n = os.write(wfd, mv)
            mv = mv[n:]
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def _spawn(fn, args, quiet=True):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            cap = None
            if quiet:
                cap = os.open(os.devnull, os.O_WRONLY)
            _child(fn, args, w, cap)
        finally:
            os._exit(4)
    os.close(w)
    return pid, r


def _decode(buf):
    if len(buf) < 8:
        return None
    (n,) = struct.unpack("<Q", bytes(buf[:8]))
    if len(buf) < 8 + n:
        return None
    return pickle.loads(bytes(buf[8:8 + n]))


def call(fn, *args, timeout=300.0, quiet=True):
    """Run fn(*args) in a forked copy of this process and return its result."""
    pid, r = _spawn(fn, args, quiet)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    sel = selectors.DefaultSelector()
    sel.register(r, selectors.EVENT_READ)
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                raise ChildError("timeout after %.0fs" % timeout)
            if not sel.select(left):
                continue
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    except BaseException:
        _kill(pid)
        raise
    finally:
        sel.close()
        os.close(r)
    _, st = os.waitpid(pid, 0)
    res = _decode(buf)
    if res is None:
        raise ChildError("child ended without a result (status %d)" % st)
    if res[0] == "exc":
        raise ChildError(res[1])
    return res[1]


def _kill(pid):
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


def pool(fn, items, workers, run_timeout, deadline=None, stop=None):
    """Yield (index, status, value) as forked runs of fn(item) finish.

    status: "ok" (value = result), "exc" (value = traceback text), "timeout",
    "died", or "unstarted" for items not launched before the deadline.
    """
    sel = selectors.DefaultSelector()
    live = {}
    it = iter(enumerate(items))
    done_feeding = False
    while True:
        while not done_feeding and len(live) < workers:
            if (deadline is not None and time.monotonic() > deadline) or (stop is not None and stop()):
                done_feeding = True
                break
            try:
                i, item = next(it)
            except StopIteration:
                done_feeding = True
                break
            pid, r = _spawn(fn, (item,))
            os.set_blocking(r, False)
            live[r] = [i, pid, bytearray(), time.monotonic()]
            sel.register(r, selectors.EVENT_READ)
        if not live:
            break
        for key, _ in sel.select(0.5):
            r = key.fd
            i, pid, buf, t0 = live[r]
            try:
                b = os.read(r, 1 << 20)
            except OSError as e:
                if e.errno == errno.EAGAIN:
                    continue
                b = b""
            if b:
                buf += b
                continue
            sel.unregister(r)
            os.close(r)
            del live[r]
            os.waitpid(pid, 0)
            res = _decode(buf)
            if res is None:
                yield i, "died", None
            else:
                yield i, res[0], res[1]
        now = time.monotonic()
        for r in [r for r, v in live.items() if now - v[3] > run_timeout]:
            i, pid, buf, t0 = live.pop(r)
            sel.unregister(r)
            os.close(r)
            _kill(pid)
            yield i, "timeout", None
