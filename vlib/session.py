"""Runs a function in a forked child - a life of one elsie process - with optional crash points."""
import ctypes
import json
import os
import signal
import sys
import time
import traceback

from . import core
from .core import Violation


LIBC = ctypes.CDLL(None)
PR_SET_PDEATHSIG = 1


class Result:
    def __init__(self, status, value, where):
        self.status = status  # "ok", "exception", "killed"
        self.value = value
        self.where = where  # crash point reached


def tracer(files, at, path):
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == at:
                fd = os.open(path, os.O_WRONLY | os.O_CREAT)
                os.write(fd, ("%s:%s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)).encode())
                os.close(fd)
                os.kill(os.getpid(), signal.SIGKILL)
        return local

    def glob(frame, event, arg):
        fn = frame.f_code.co_filename
        return local if any(fn.endswith(f) for f in files) else None

    return glob


def run(fn, folder, env=None, crash=None, timeout=90):
    """fn() -> JSON value, executed in a child process.  crash = {"files": [...], "at": n}: the
    process is killed before the n-th line executed in one of these files."""
    res = os.path.join(folder, "session-result")
    point = os.path.join(folder, "session-crash")
    for p in (res, point):
        if os.path.exists(p):
            os.remove(p)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(0)
            # a session that hangs must not outlive its check
            LIBC.prctl(PR_SET_PDEATHSIG, signal.SIGKILL)
            os.setpgid(0, 0)
            os.environ.update(env or {})
            if crash:
                sys.settrace(tracer(crash["files"], crash["at"], point))
            try:
                out = {"status": "ok", "value": fn()}
            except Exception as e:
                out = {"status": "exception", "value": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1500:],
                       "repo": core.in_repo(e.__traceback__) is not None}
            finally:
                sys.settrace(None)
            with open(res + ".tmp", "w") as f:
                json.dump(out, f)
            os.rename(res + ".tmp", res)
            code = 0
        finally:
            os._exit(code)
    end = time.monotonic() + timeout
    delay = 0.001
    try:
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.monotonic() > end:
                raise Violation("hang", "no result of a session within %d s" % timeout)
            time.sleep(delay)
            delay = min(0.02, delay * 1.5)
    except BaseException:
        # also when the check itself runs out of time
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        raise
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    where = None
    if os.path.exists(point):
        where = open(point).read()
    if os.path.exists(res):
        out = json.load(open(res))
        r = Result(out["status"], out["value"], where)
        r.trace = out.get("trace")
        r.repo = out.get("repo")
        return r
    return Result("killed", None, where)


def reload_elsie(version):
    """In a session: import elsie anew as another version of itself."""
    for m in [m for m in sys.modules if m == "elsie" or m.startswith("elsie.")]:
        del sys.modules[m]
    import importlib
    import types

    # the version module alone, before anything copies the constant
    pkg = types.ModuleType("elsie")
    pkg.__path__ = [os.path.join(os.path.realpath(core.REPO), "elsie")]
    sys.modules["elsie"] = pkg
    v = importlib.import_module("elsie.version")
    v.VERSION = version
    del sys.modules["elsie"]
    import elsie

    return elsie
