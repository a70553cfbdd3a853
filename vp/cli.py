"""Running `ucis` commands: in a forked child (fast) or as a real `python -m ucis` process."""
import os
import signal
import subprocess
import sys
import traceback

from .core import HarnessError, limit_cpu


class Result:
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err

    def __repr__(self):
        return "exit %s, stdout %.300r, stderr %.500r" % (self.code, self.out, self.err)


def _exit_code(e):
    if e.code is None:
        return 0
    if isinstance(e.code, int):
        return e.code & 0xff
    sys.stderr.write(str(e.code) + "\n")
    return 1


def forked(argv, cwd, logdir, setup=None):
    """Runs `python -m ucis argv` in a forked child, after setup(); the module is executed anew as __main__."""
    of, ef = os.path.join(logdir, "out"), os.path.join(logdir, "err")
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            limit_cpu()
            os.chdir(cwd)
            for path, fd in ((of, 1), (ef, 2)):
                f = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                os.dup2(f, fd)
                os.close(f)
            sys.stdout = sys.__stdout__ = open(1, "w", encoding="utf-8", closefd=False)
            sys.stderr = sys.__stderr__ = open(2, "w", encoding="utf-8", closefd=False)
            sys.argv = ["ucis"] + list(argv)
            import runpy
            if setup is not None:
                setup()
            for m in [m for m in sys.modules if m == "ucis.__main__"]:
                del sys.modules[m]
            try:
                runpy.run_module("ucis", run_name="__main__", alter_sys=False)
                code = 0
            except SystemExit as e:
                code = _exit_code(e)
            except BaseException:
                traceback.print_exc()
                code = 1
            try:
                sys.stdout.flush()
            except BaseException:
                code = 120
            sys.stderr.flush()
        finally:
            os._exit(code)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    rc = os.waitstatus_to_exitcode(st)
    with open(of, "rb") as f:
        out = f.read()
    with open(ef, "rb") as f:
        err = f.read()
    return Result(rc, out, err)


def real(argv, cwd, env=None):
    """A real process, importing the package from the tree under test."""
    e = dict(os.environ)
    e.pop("VERIF_REEXEC", None)
    e["PYTHONPATH"] = os.environ["PYTHONPATH"].split(os.pathsep)[0]
    e.update(env or {})
    p = subprocess.run([sys.executable, "-m", "ucis"] + list(argv), cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, preexec_fn=limit_cpu)
    return Result(p.returncode, p.stdout, p.stderr)
