"""Runs a function in a forked child, so that process-global state starts fresh for every case."""
import os
import pickle
import signal
import sys
import traceback

from .core import Violation, HarnessError, limit_cpu


class Died(Exception):
    pass


def in_child(fn, *args):
    """-> the picklable result of fn(*args). Violation and HarnessError propagate, any other exception
    becomes a Violation carrying its traceback; a killed child is a Violation too."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            limit_cpu()
            try:
                out = ("ok", fn(*args))
            except Violation as e:
                out = ("violation", str(e))
            except HarnessError as e:
                out = ("harness", str(e))
            except BaseException as e:
                out = ("violation", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-8)))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    if not data:
        raise Violation("the process died: status %d" % os.waitstatus_to_exitcode(st))
    k, v = pickle.loads(data)
    if k == "ok":
        return v
    if k == "harness":
        raise HarnessError(v)
    raise Violation(v)
