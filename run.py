#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the generated check of one property against /repo's current working tree."""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")

def reexec():
    env = dict(os.environ)
    env["PYTHONPATH"] = REPO_SRC + os.pathsep + VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent/pycache"
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = "/nonexistent/hypothesis"
    env["VERIF_REEXEC"] = "1"
    env.pop("PYTHONHOME", None)
    os.execve(PY, [PY, os.path.join(VERIF, "run.py")] + sys.argv[1:], env)

if __name__ == "__main__":
    if os.environ.get("VERIF_REEXEC") != "1":
        reexec()
    # Hypothesis is only in the tooling venv; appended last so that everything else resolves
    # to the environment the package is installed in.
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    args = sys.argv[1:]
    pid = args.pop(0)
    if pid == "--selftest":
        import importlib, glob, shutil
        for f in sorted(glob.glob(os.path.join(VERIF, "vp", "checks", "c[0-9]*.py"))):
            m = importlib.import_module("vp.checks." + os.path.basename(f)[:-3])
            for fc in m.FACETS:
                fc.strategy()
        assert shutil.which("gcc"), "gcc is needed to compile the recording UCIS library of C16"
        print("selftest ok")
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = args.pop(0)
        else:
            sys.exit("unknown argument " + a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import warnings
    warnings.simplefilter("ignore")
    from vp import core
    import ucis
    if not os.path.realpath(ucis.__file__).startswith(os.path.realpath(REPO_SRC) + os.sep):
        print("check error: ucis imported from %s, not %s" % (ucis.__file__, REPO_SRC), file=sys.stderr)
        sys.exit(2)
    import logging
    logging.disable(logging.CRITICAL)
    if replay:
        r = core.replay_file(pid, replay)
        if r is None:
            print("replay: property %s holds on this case" % pid)
            sys.exit(0)
        print("replay: %s\nVIOLATION property=%s replay=%s" % (r[1], pid, replay))
        sys.exit(1)
    sys.exit(core.main(pid, tier, seed))
