"""Scratch directories created by a check, removed when it ends."""
import atexit
import os
import shutil
import tempfile

_dirs = {}


def _rm(p, pid):
    if os.getpid() == pid:
        shutil.rmtree(p, ignore_errors=True)


def base():
    """One scratch directory per process."""
    pid = os.getpid()
    if pid not in _dirs or not os.path.isdir(_dirs[pid]):
        d = tempfile.mkdtemp(prefix="vp-%d-" % pid)
        _dirs[pid] = d
        atexit.register(_rm, d, pid)
        try:
            from multiprocessing import util
            util.Finalize(None, _rm, args=(d, pid), exitpriority=1)
        except Exception:
            pass
    return _dirs[pid]


class Dir:
    """with Dir() as d: a fresh empty directory"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=base())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
