"""Another interpreter: other hash seed, time zone, locale, working directory and environment.

A simulation worker starts its peers once; every request runs in a fresh fork of the peer.
"""
import importlib
import os
import pickle
import select
import struct
import subprocess
import sys
from time import monotonic as _now        # bound before the simulated clock is installed


class PeerError(Exception):
    pass


class Peer:
    """The worker's handle of one peer interpreter."""

    def __init__(self, env=None, cwd=None, hashseed="random"):
        from . import engine

        e = engine.worker_env(hashseed)
        e.update(env or {})
        self.p = subprocess.Popen([engine.PY, "-m", "sim.peer"], cwd=cwd or engine.ROOT, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.n = 0
        self.i, self.o = self.p.stdout.fileno(), self.p.stdin.fileno()

    def _read(self, n, end):
        b = b""
        while len(b) < n:
            left = end - _now()
            if left <= 0 or not select.select([self.i], [], [], left)[0]:
                raise PeerError("wall")
            x = os.read(self.i, n - len(b))
            if not x:
                raise PeerError("peer ended")
            b += x
        return b

    def call(self, mod, fn, *args, timeout=90):
        """fn(*args) in a fresh fork of the peer."""
        rid = os.urandom(8)
        data = pickle.dumps((rid, mod, fn, args))
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(self.o, data) :]
        end = _now() + timeout
        while True:
            n = struct.unpack("<Q", self._read(8, end))[0]
            r, kind, val = pickle.loads(self._read(n, end))
            if r != rid:
                continue          # answer to a request whose asker is gone
            if kind == "err":
                raise PeerError(val)
            return val


def _exact(i, n):
    b = b""
    while len(b) < n:
        x = os.read(i, n - len(b))
        if not x:
            os._exit(0)
        b += x
    return b


def main():
    i, o = os.dup(0), os.dup(1)
    n = os.open(os.devnull, os.O_RDWR)
    os.dup2(n, 0)
    os.dup2(n, 1)
    from . import forks, worker

    worker._load()
    worker._warm()
    while True:
        k = struct.unpack("<Q", _exact(i, 8))[0]
        rid, mod, fn, args = pickle.loads(_exact(i, k))
        try:
            out = (rid, "ok", forks.fork_call(getattr(importlib.import_module(mod), fn), *args, timeout=80))
        except BaseException as e:  # noqa: BLE001
            out = (rid, "err", str(e)[-2000:])
        d = pickle.dumps(out)
        d = struct.pack("<Q", len(d)) + d
        while d:
            d = d[os.write(o, d) :]


if __name__ == "__main__":
    main()
