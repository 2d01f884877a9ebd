"""Running things in pristine forked processes."""
import os
import pickle
import select
import signal
import sys
import traceback
from time import monotonic as _now        # bound before the simulated clock is installed


class ChildDied(Exception):
    pass


def fork_call(fn, *args, timeout=90):
    """fn(*args) in a forked child; returns its (picklable) value or raises ChildDied."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:  # noqa: BLE001 - reported to the parent
                out = ("err", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
            try:
                data = pickle.dumps(out, protocol=5)
            except BaseException as e:  # noqa: BLE001
                data = pickle.dumps(("err", f"unpicklable result: {e!r}"))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = _now() + timeout
    try:
        while True:
            left = end - _now()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise ChildDied("wall")
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    finally:
        os.close(r)
        try:
            _, st = os.waitpid(pid, 0)
        except ChildProcessError:
            st = 0
    if not buf:
        raise ChildDied(f"no result (status {st})")
    kind, val = pickle.loads(b"".join(buf))
    if kind == "err":
        raise ChildDied(val)
    return val


def quiet_std():
    """Detach a simulated process from the real terminal."""
    n = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(n, fd)
    os.close(n)
