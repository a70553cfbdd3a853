"""Harness core: facets, Hypothesis driving, shrinking, replay, evidence.

A *facet* is one generated check of a property:
    strategy()  -> Hypothesis strategy of JSON-serialisable cases
    check(case) -> None, or raises Violation (or any exception, which on a valid input counts)
    nontrivial(case) -> bool ; labels(case) -> iterable of str
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = 60             # CPU seconds a case may use, here and in each process it starts
WALL_S = 240            # and seconds it may take in all
SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "40"))


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class HarnessError(Exception):
    """A fault of the check itself, never reported as a violation."""


class _StopShrink(BaseException):
    pass


class Facet:
    def __init__(self, name, strategy, check, nontrivial=None, labels=None,
                 quick=400, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.nontrivial = nontrivial or (lambda c: True)
        self.labels = labels or (lambda c: ())
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.rule = rule


def jdump(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True)


def _alarm(signum, frame):
    raise Hang("no result within " + ("%d s of CPU time" % HANG_S if signum == signal.SIGPROF else "%d s" % WALL_S))


def limit_cpu():
    """For the processes a case starts."""
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (HANG_S, HANG_S + 1))


def run_check(facet, case):
    """Runs facet.check on one case; returns None or (kind, message)."""
    old, old2 = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, WALL_S)
    signal.setitimer(signal.ITIMER_PROF, HANG_S)
    t0 = time.time()
    try:
        # the check gets its own copy: cases are plain data, never mutated
        facet.check(json.loads(jdump(case)))
        return None
    except Violation as e:
        return ("violation", str(e))
    except HarnessError:
        raise
    except Hang as e:
        return ("hang", str(e))
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        return ("exception", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-8)))
    except SystemExit as e:
        return ("exception", "SystemExit(%r) escaped from the code under test" % (e.code,))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGPROF, old2)
        if os.environ.get("VERIF_TIMES") and time.time() - t0 > 3:
            with open(os.environ["VERIF_TIMES"], "a") as f:
                f.write("%6.1f s %s case of %d bytes\n" % (time.time() - t0, facet.name, len(jdump(case))))


def _quiet():
    dn = open(os.devnull, "w")
    sys.stdout = dn


def run_shard(modname, fname, seed, n, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    facet = get_facet(modname, fname)
    st = dict(evals=0, skipped=0, labels={}, hashes=set(), samples=[], fail=None, err=None)
    best = [None]
    first_fail = [None]
    recent = []
    prefix = [None]
    saved_out = sys.stdout
    _quiet()

    def body(case):
        now = time.time()
        if first_fail[0] is None:
            if now > deadline:
                st["skipped"] += 1
                return
        elif now > first_fail[0] + SHRINK_S:
            raise _StopShrink()
        st["evals"] += 1
        r = run_check(facet, case)
        js = jdump(case)
        if first_fail[0] is None:
            for l in facet.labels(case):
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if facet.nontrivial(case):
                h = hashlib.blake2b(js.encode(), digest_size=8).digest()
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    if len(st["samples"]) < 2 and 40 < len(js) < 1500:
                        st["samples"].append(case)
        if r is not None:
            if first_fail[0] is None:
                first_fail[0] = now
                prefix[0] = list(recent)
            if best[0] is None or len(js) <= len(best[0][0]):
                best[0] = (js, r)
            if now > first_fail[0] + SHRINK_S or r[0] == "hang":
                raise _StopShrink()
            raise AssertionError(r[1])
        if first_fail[0] is None:
            recent.append(case)
            if len(recent) > 6:
                recent.pop(0)

    t = given(facet.strategy())(body)
    t = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                 report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                 phases=(Phase.generate, Phase.shrink))(t)
    t = hypothesis.seed(seed)(t)
    try:
        try:
            t()
        except _StopShrink:
            pass
        except HarnessError:
            raise
        except BaseException:
            if best[0] is None:
                raise
        if best[0] is not None:
            case = json.loads(best[0][0])
            again = None
            for _ in range(2):
                again = run_check(facet, case)
                if again is not None:
                    break
            st["fail"] = dict(facet=fname, case=case, kind=best[0][1][0], message=best[0][1][1],
                              reproduced=again is not None, prefix=prefix[0], seed=seed)
    except BaseException:
        st["err"] = "facet %s seed %s\n%s" % (fname, seed, traceback.format_exc())
    finally:
        sys.stdout = saved_out
    st["facet"] = fname
    return st


def get_facet(modname, fname):
    m = importlib.import_module(modname)
    for f in m.FACETS:
        if f.name == fname:
            return f
    raise HarnessError("no facet %s in %s" % (fname, modname))


def _child(conn, job):
    try:
        r = run_shard(*job)
    except BaseException:
        r = dict(evals=0, skipped=0, labels={}, hashes=set(), samples=[], fail=None,
                 err=traceback.format_exc(), facet=job[1])
    conn.send(r)
    conn.close()


def run_jobs(jobs, nproc):
    """Runs shards in forked processes; stops everything at the first reproduced failure."""
    ctx = mp.get_context("fork")
    results = []
    pending = list(jobs)
    live = []
    stop = False
    while (pending and not stop) or live:
        while pending and not stop and len(live) < nproc:
            j = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, j))
            p.start()
            b.close()
            live.append((p, a, j))
        ready = mp.connection.wait([a for (_, a, _) in live], timeout=5)
        for ent in list(live):
            p, a, j = ent
            if a not in ready:
                continue
            try:
                st = a.recv()
            except EOFError:
                p.join()
                st = dict(evals=0, skipped=0, labels={}, hashes=set(), samples=[], fail=None,
                          err="worker for %s died with status %s" % (j[1], p.exitcode), facet=j[1])
            p.join()
            a.close()
            live.remove(ent)
            results.append(st)
            if st["fail"] and st["fail"]["reproduced"]:
                stop = True
        if stop:
            for p, a, j in live:
                p.kill()
                p.join()
            live = []
    return results


def replay_file(pid, path):
    with open(path) as f:
        r = json.load(f)
    modname = "vp.checks." + pid.lower()
    facet = get_facet(modname, r["facet"])
    out = sys.stdout
    _quiet()
    try:
        res = run_check(facet, r["case"])
        if res is None and r.get("prefix"):
            for c in r["prefix"]:
                run_check(facet, c)
            res = run_check(facet, r["case"])
    finally:
        sys.stdout = out
    return res


def load_known(pid):
    """The JSON lines of KNOWN_FINDINGS.txt for this property: recorded cases that still fail are
    announced, and do not count as violations. ("fixed:" lines suppress nothing.)"""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == pid:
                    res.append(k)
    return res


def main(pid, tier, seed):
    t0 = time.time()
    modname = "vp.checks." + pid.lower()
    mod = importlib.import_module(modname)
    cap = getattr(mod, "CAP_S", {}).get(tier) or (150 if tier == "quick" else 3000)
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    deadline = t0 + cap
    jobs = []
    only = os.environ.get("VERIF_FACET")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for fi, f in enumerate(mod.FACETS):
        if only and f.name != only:
            continue
        n = int((f.quick if tier == "quick" else f.thorough) * scale)
        if n <= 0:
            continue
        shards = max(1, min(8, n // 5)) if tier == "quick" else nproc
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            jobs.append((modname, f.name, (seed * 1000003 + fi * 1009 + s) & 0x7fffffff, max(1, k), deadline, s))
    # the first shard of every facet before the second of any: on a slow machine no facet is left out
    jobs.sort(key=lambda j: j[5])
    jobs = [j[:5] for j in jobs]
    if hasattr(mod, "prepare"):
        mod.prepare()
    results = run_jobs(jobs, nproc)
    if hasattr(mod, "cleanup"):
        mod.cleanup()
    errs = [r["err"] for r in results if r["err"]]
    fails = [r["fail"] for r in results if r["fail"]]
    evals = sum(r["evals"] for r in results)
    hashes = set()
    labels = {}
    per = {}
    samples = []
    for r in results:
        hs = set((r["facet"], h) for h in r["hashes"])
        hashes |= hs
        d = per.setdefault(r["facet"], dict(evaluations=0, distinct_nontrivial=0, skipped_over_time_cap=0))
        d["evaluations"] += r["evals"]
        d["skipped_over_time_cap"] += r["skipped"]
        for k, v in r["labels"].items():
            kk = r["facet"] + "/" + k
            labels[kk] = labels.get(kk, 0) + v
        if r["samples"] and sum(1 for s in samples if s["facet"] == r["facet"]) < 2:
            samples.append(dict(facet=r["facet"], case=r["samples"][0]))
    for fct, h in hashes:
        per[fct]["distinct_nontrivial"] += 1
    known = load_known(pid)
    kn_lines = []
    for k in known:
        f = get_facet(modname, k["facet"])
        out = sys.stdout
        _quiet()
        try:
            res = run_check(f, k["case"])
        finally:
            sys.stdout = out
        if res is not None:
            kn_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=evals, distinct_nontrivial=len(hashes),
                  rule="; ".join("[%s] %s" % (f.name, f.rule) for f in mod.FACETS),
                  samples=samples, per_facet=per, distribution=dict(sorted(labels.items())),
                  known_findings_announced=len(kn_lines)),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2),
              violations=1 if fails else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for l in kn_lines:
        print(l)
    print("%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        pid, tier, seed, evals, len(hashes), time.time() - t0))
    if fails:
        fails.sort(key=lambda f: (not f["reproduced"], len(jdump(f["case"]))))
        good = [f for f in fails if f["reproduced"]]
        pick = good[0] if good else None
        if pick is None:
            # try in a fresh process before believing (or dismissing) it
            for f in fails:
                p = write_replay(pid, f)
                rc = os.spawnv(os.P_WAIT, sys.executable, [sys.executable, os.path.join(VERIF, "run.py"), pid, "--replay", p])
                if rc == 1:
                    pick = f
                    break
            if pick is None and len(fails) >= 2:
                pick = fails[0]
        if pick is None:
            print("check error: a failure did not reproduce:\n" + fails[0]["message"][:2000], file=sys.stderr)
            return 2
        path = write_replay(pid, pick)
        print("facet %s: %s" % (pick["facet"], pick["message"][:3000]))
        print("case: %s" % jdump(pick["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        print("check error:\n" + errs[0], file=sys.stderr)
        return 2
    return 0


def write_replay(pid, fail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(jdump(fail["case"]).encode(), digest_size=5).hexdigest()
    p = os.path.join(d, "%s-%s-%s.json" % (pid, fail["facet"], h))
    with open(p, "w") as f:
        json.dump(dict(property=pid, **fail), f, indent=1, sort_keys=True)
        f.write("\n")
    return p
