"""The logging machinery of one simulated application: sinks, configuration, records."""
import importlib
import io
import logging
import os
import shutil
import sys
import tempfile

from . import boot, core
from . import catalog as C
from . import util as U

NAME = "quantfinlib"
LEVELS = [5, 10, 15, 20, 25, 30, 35, 40, 50]
VERB = [10, 20, 30, 40, 50, 20, 30, 10, 15, 25, 1, 60, "DEBUG", "INFO", "WARNING", "ERROR"]
BADV = ["LOUD", None, 2.5]


def level_of(v):
    return getattr(logging, v) if isinstance(v, str) else v


def log_codes():
    """Code objects of the standard library's logging, so that threads also switch inside it."""
    out = []
    for v in list(vars(logging).values()):
        if isinstance(v, type) and v.__module__ == "logging":
            for f in vars(v).values():
                f = getattr(f, "__func__", f)
                if hasattr(f, "__code__"):
                    out.append(f.__code__)
    return out


def monitor_logging(on):
    core._set(log_codes(), core.E.LINE if on else 0)


class Scene:
    """A scratch directory with console and log files, and a library that was just started."""

    def __init__(self, fresh=True, console_fd=False):
        self.dir = tempfile.mkdtemp(prefix="verif-log-")
        self.old = os.getcwd()
        os.chdir(self.dir)
        if fresh:
            boot.purge_library()
            logging.root.manager.loggerDict.pop(NAME, None)
            for n in [n for n in logging.root.manager.loggerDict if n.startswith(NAME + ".")]:
                logging.root.manager.loggerDict.pop(n)
        logging.root.handlers[:] = []
        self.console_path = os.path.join(self.dir, "console.out")
        if console_fd:
            self.fd = os.open(self.console_path, os.O_CREAT | os.O_RDWR | os.O_APPEND, 0o600)
            sys.stderr = sys.__stderr__ = io.TextIOWrapper(io.BufferedWriter(io.FileIO(self.fd, "w", closefd=False)), line_buffering=True, encoding="utf-8", errors="backslashreplace")
            sys.stdout = io.StringIO()
        else:
            self.fd = None
            sys.stderr = sys.__stderr__ = io.StringIO()
            sys.stdout = sys.__stdout__ = io.StringIO()

    def console(self):
        if self.fd is None:
            return sys.__stderr__.getvalue() + "\n" + sys.stdout.getvalue()
        with open(self.console_path, errors="replace") as f:
            return f.read() + "\n" + sys.stdout.getvalue()

    def files(self):
        """{absolute path: content} of every log file in the scratch directory."""
        out = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                if p != self.console_path:
                    with open(p, errors="replace") as h:
                        out[p] = h.read()
        return out

    def path(self, f):
        """Where a log file named `f` goes ("": the default name in the working directory)."""
        return None if f is None else os.path.join(os.getcwd(), "quantfinlib.log") if f == "" else os.path.join(self.dir, f)

    def open_logs(self):
        """Log files this process still holds open."""
        out = []
        for f in os.listdir("/proc/self/fd"):
            try:
                t = os.readlink("/proc/self/fd/" + f)
            except OSError:
                continue
            if t.startswith(self.dir) and not t.startswith(self.console_path):
                out.append(os.path.basename(t))
        return sorted(out)

    def close(self):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def configure(v, f, dirname, kind=str, spell=None):
    """The public way to configure logging; `f` is a file name in the scratch directory, "" the default name, None no file."""
    conf = importlib.import_module("quantfinlib.util").configure_logger
    if f is None:
        return conf(verbosity=v)
    if f == "":
        return conf(verbosity=v, log_to_file=True)
    p = os.path.join(dirname, f)
    if spell == "rel":
        p = os.path.relpath(p)
    elif spell == "dots":
        p = os.path.join(dirname, "..", os.path.basename(dirname), ".", f)
    elif spell == "link":
        if not os.path.islink(os.path.join(dirname, "here")):
            os.symlink(dirname, os.path.join(dirname, "here"))
        p = os.path.join(dirname, "here", f)
    return conf(verbosity=v, log_to_file=True, log_file_path=kind(p))


def emit(level, text, via=0, how=None):
    """Log one record that carries `text` on one of its lines."""
    lg = importlib.import_module("quantfinlib.util").logger if via else logging.getLogger(NAME)
    if how == "args":
        lg.log(level, "%s of %d", text, 3)
    elif how == "dict":
        lg.log(level, "value %(a)s", {"a": text})
    elif how == "percent":
        lg.log(level, "100% sure: " + text + " %s {}")
    elif how == "wide":
        lg.log(level, "\u20ac \u4e2d " + text)
    elif how == "lines":
        lg.log(level, "first\n" + text + "\nlast")
    elif how == "stack":
        lg.log(level, text, stack_info=True)
    elif how == "exc":
        try:
            raise ValueError("simulated")
        except ValueError:
            lg.log(level, text, exc_info=True)
    else:
        lg.log(level, text)


def count(text, token):
    """Records (not error reports of the logging machinery) that carry the token."""
    return sum(token in line and not line.startswith(("Message: ", "Arguments: ")) for line in text.splitlines())


# ------------------------------------------------------------------ what a library call logs
class _Cap(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, r):
        self.got.append((r.levelno, r.getMessage()))


def captured(op):
    """[(level, message)] that `op` logs when everything is captured (the caller forks)."""
    from . import jobs

    lg = logging.getLogger(NAME)
    cap = _Cap()
    lg.handlers[:] = [cap]
    lg.setLevel(1)
    lg.propagate = False
    jobs.reset(workers=1)
    th, _ = C.prepare(op, C.Env())
    _, c = U.outcome(th)
    return cap.got, c


def log_op(rng):
    r = rng.random()
    if r < 0.3 and C.has("datasets", "load_vix"):
        return {"f": rng.choice(["load_vix", "load_vix", "load_treasury_rates"]), "a": {}}
    if r < 0.65:
        op = {"f": "get_info_distance_matrix", "a": C.F["get_info_distance_matrix"]["gen"](rng)}
        op["a"]["method"] = "mutual_info"
        return op
    op = {"f": "get_corr_distance_matrix", "a": C.F["get_corr_distance_matrix"]["gen"](rng)}
    op["a"]["X"]["c"] = "np"
    op["a"].pop("corr_transformer", None)
    return op
