"""C20 The format registry resolves every registered format and nothing else."""
import contextlib
import io
import sys
from hypothesis import strategies as st
from ..core import Facet, Violation
from .. import gen, spec as S, forkrun, scratch

NAMES = ["xml", "yaml", "libucis", "json", "txt", "foo", "Foo", "a", "aa", "z", "a-b", "b c", "", "XML", "\u00e9", "html", "verylongformatname", "0",
         "xml ", " foo", "foo ", "Xml", ".xml", "xm", "xmlx", "fo", "text", "yml", "e\u0301"]
names = st.sampled_from(NAMES)
descs = st.sampled_from(["", "d", "A format", "x - y", "%s", "desc \u00e9", "  padded", "A format"])


@st.composite
def op(draw):
    k = draw(st.sampled_from(["adddb", "adddb", "addrpt", "addrpt", "lookup", "lookup", "lists", "cmd_db", "cmd_rpt", "inst", "unknown_cmd"]))
    if k.startswith("add"):
        return [k, draw(names), draw(descs), draw(st.integers(0, 7))]
    if k in ("lookup", "unknown_cmd"):
        return [k, draw(names)]
    if k == "lists":
        return [k, draw(st.integers(0, 15))]
    return [k]


def cases():
    return st.lists(op(), min_size=1, max_size=14)


BUILTIN_DB = {"xml", "yaml", "libucis"}
BUILTIN_RPT = {"json", "txt"}


def run_cmd(argv):
    from ucis.__main__ import main
    o = io.StringIO()
    save = sys.argv
    sys.argv = ["ucis"] + argv
    try:
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(io.StringIO()):
            try:
                main()
                code = 0
            except SystemExit as e:
                code = e.code
    finally:
        sys.argv = save
    return code, o.getvalue()


def play(ops):
    from ucis.rgy import FormatRgy
    from ucis.rgy.format_if_db import FormatDescDb, FormatDbFlags, FormatIfDb
    from ucis.rgy.format_if_rpt import FormatDescRpt, FormatRptOutFlags, FormatIfRpt
    rgy = FormatRgy.inst()
    db, rpt = {}, {}
    S.require(list(rgy.getDatabaseFormats()) == sorted(BUILTIN_DB), "built-in database formats %r" % (rgy.getDatabaseFormats(),))
    S.require(list(rgy.getReportFormats()) == sorted(BUILTIN_RPT), "built-in report formats %r" % (rgy.getReportFormats(),))
    for n in BUILTIN_DB:
        db[n] = rgy.getDatabaseDesc(n)
        S.require(db[n].name == n, "descriptor of %s is named %r" % (n, db[n].name))
        S.require(issubclass(db[n].fmt_if, FormatIfDb), "interface of %s" % n)
        S.require(bool(db[n].description.strip()), "%s has no description" % n)
    for n in BUILTIN_RPT:
        rpt[n] = rgy.getReportDesc(n)
        S.require(rpt[n].name == n, "descriptor of %s is named %r" % (n, rpt[n].name))
        S.require(issubclass(rpt[n].fmt_if, FormatIfRpt), "interface of %s" % n)
        S.require(bool(rpt[n].description.strip()), "%s has no description" % n)
        S.require(rpt[n].out_flags & FormatRptOutFlags.Stream, "%s is a stream format" % n)
    S.require(len({id(x.fmt_if) for x in db.values()}) == 3 and len({id(x.fmt_if) for x in rpt.values()}) == 2, "two formats share an implementation")
    S.require(rgy.getDefaultDatabase() == "xml" and rgy.getDefaultReport() == "txt", "defaults")

    def absent(fn, n):
        try:
            r = fn(n)
        except Exception:
            return
        if r is not None:
            raise Violation("lookup of the unregistered format %r gave %r" % (n, r))

    def verify(n):
        r = FormatRgy.inst()
        S.require(bool(r.hasDatabaseFormat(n)) == (n in db), "hasDatabaseFormat(%r) = %r" % (n, r.hasDatabaseFormat(n)))
        S.require(bool(r.hasReportFormat(n)) == (n in rpt), "hasReportFormat(%r) = %r" % (n, r.hasReportFormat(n)))
        if n in db:
            S.require(r.getDatabaseDesc(n) is db[n], "database format %r is not the one last registered" % n)
        else:
            absent(r.getDatabaseDesc, n)
        if n in rpt:
            S.require(r.getReportDesc(n) is rpt[n], "report format %r is not the one last registered" % n)
        else:
            absent(r.getReportDesc, n)

    def listing(m, argv):
        code, out = run_cmd(argv)
        S.require(code in (0, None), "%s exits with %r" % (argv, code))
        w = max(len(n) for n in m)
        exp = "".join("%s - %s\n" % (n.ljust(w), m[n].description) for n in sorted(m))
        S.require(out == exp, "%s prints %r, expected %r" % (argv, out, exp))

    for o in ops:
        k = o[0]
        if k == "adddb":
            cls = type("D", (FormatIfDb,), {})
            fl = FormatDbFlags(o[3])
            d = FormatDescDb(cls, name=o[1], flags=fl, description=o[2])
            S.require(d.fmt_if is cls and d.name == o[1] and d.flags == fl and d.description == o[2], "descriptor does not hold what it was given")
            rgy.addDatabaseFormat(d)
            db[o[1]] = d
            verify(o[1])
        elif k == "addrpt":
            cls = type("R", (FormatIfRpt,), {})
            fl = FormatRptOutFlags(o[3] & 3)
            d = FormatDescRpt(cls, name=o[1], out_flags=fl, description=o[2])
            S.require(d.fmt_if is cls and d.name == o[1] and d.out_flags == fl and d.description == o[2], "descriptor does not hold what it was given")
            rgy.addReportFormat(d)
            rpt[o[1]] = d
            verify(o[1])
        elif k == "lookup":
            verify(o[1])
        elif k == "lists":
            l = rgy.getDatabaseFormats()
            S.require(list(l) == sorted(db), "database formats %r, expected %r" % (l, sorted(db)))
            l2 = rgy.getReportFormats()
            S.require(list(l2) == sorted(rpt), "report formats %r, expected %r" % (l2, sorted(rpt)))
            # the lists are the caller's
            for x, how in ((l, o[1]), (l2, o[1] >> 2)):
                if isinstance(x, list):
                    how %= 4
                    if how == 0:
                        x.append("intruder")
                    elif how == 1:
                        x.clear()
                    elif how == 2:
                        x[0] = "intruder"
                    else:
                        x.reverse()
            S.require(list(rgy.getDatabaseFormats()) == sorted(db) and list(rgy.getReportFormats()) == sorted(rpt), "changing a returned list changed the registry")
        elif k == "cmd_db":
            listing(db, ["list-db-formats"])
        elif k == "cmd_rpt":
            listing(rpt, ["list-rpt-formats"])
        elif k == "inst":
            S.require(FormatRgy.inst() is rgy, "inst() gave another registry")
            S.require(rgy.hasDatabaseFormat(rgy.getDefaultDatabase()) and rgy.hasReportFormat(rgy.getDefaultReport()), "defaults are not registered")
            try:
                FormatRgy()
            except Exception:
                pass
            else:
                raise Violation("a second registry could be made")
        elif k == "unknown_cmd":
            n = o[1]
            if n and n not in db:
                code, _ = run_cmd(["report", "-if", n, "/nonexistent/in"])
                S.require(code not in (0, None), "report -if %s succeeded" % n)
    for n in NAMES:
        verify(n)
    listing(db, ["list-db-formats"])
    listing(rpt, ["list-rpt-formats"])
    S.require(list(rgy.getDatabaseFormats()) == sorted(db) and list(rgy.getReportFormats()) == sorted(rpt), "format lists at the end")


def check(ops):
    forkrun.in_child(play, ops)


# ---------------------------------------------------------------- commands follow the registry
@st.composite
def use_cases(draw):
    n = draw(st.sampled_from(["foo", "xml", "yaml", "libucis", "mem"]))
    r = draw(st.sampled_from(["bar", "txt", "json"]))
    return dict(spec=draw(gen.db_spec(gen.Opt(empty=False, big=False))), db=n, rpt=r, cmd=draw(st.sampled_from(["report", "convert", "merge"])),
                again=draw(st.booleans()), dflt=draw(st.booleans()), tok=draw(gen.line_names))


def play_use(c):
    from ucis.rgy import FormatRgy
    from ucis.rgy.format_if_db import FormatDescDb, FormatDbFlags, FormatIfDb
    from ucis.rgy.format_if_rpt import FormatDescRpt, FormatRptOutFlags, FormatIfRpt
    from ucis.mem.mem_factory import MemFactory
    log = []

    def mk(tag):
        class D(FormatIfDb):
            def create(self, filename=None):
                log.append(("create", tag))
                db = MemFactory.create()
                db.write = lambda file, *a, **k: log.append(("write", tag, file, S.extract(db)))
                return db

            def read(self, file_or_filename):
                log.append(("read", tag, file_or_filename))
                return S.build(c["spec"])

        class R(FormatIfRpt):
            def report(self, db, out, args):
                log.append(("report", tag, S.extract(db)))
                out.write("report %s by %s\n" % (c["tok"], tag))
        return D, R
    rgy = FormatRgy.inst()
    tags = ["one", "two"] if c["again"] else ["one"]
    for t in tags:
        D, R = mk(t)
        rgy.addDatabaseFormat(FormatDescDb(D, name=c["db"], flags=FormatDbFlags.Read, description="t"))
        rgy.addReportFormat(FormatDescRpt(R, name=c["rpt"], out_flags=FormatRptOutFlags.Stream, description="t"))
    tag = tags[-1]
    argv = [c["cmd"], "/nonexistent/" + c["tok"].replace("/", "_")]
    if not (c["dflt"] and c["db"] == "xml"):
        argv += ["-if", c["db"]]
    tree = S.tree_of(c["spec"])
    if c["cmd"] == "report":
        if not (c["dflt"] and c["rpt"] == "txt"):
            argv += ["-of", c["rpt"]]
        code, out = run_cmd(argv)
        S.require(code in (0, None), "%r exits with %r: %s" % (argv, code, out))
        S.require([x[:2] for x in log] == [("read", tag), ("report", tag)], "%r used %r, expected the formats last registered" % (argv, log))
        S.require(log[0][2] == argv[1], "read was given %r" % (log[0][2],))
        S.require_equal(tree, log[1][2], "database given to the report")
        S.require(out == "report %s by %s\n" % (c["tok"], tag), "printed %r" % out)
    else:
        if not (c["dflt"] and c["db"] == "xml"):
            argv += ["-of", c["db"]]
        argv += ["-o", "/nonexistent/out"]
        code, out = run_cmd(argv)
        S.require(code in (0, None), "%r exits with %r: %s" % (argv, code, out))
        S.require([x[:2] for x in log if x[0] == "read"] == [("read", tag)] and [x[:2] for x in log if x[0] == "create"] == [("create", tag)]
                  and log[-1][0] == "write" and len(log) == 3, "%r used %r" % (argv, [x[:2] for x in log]))
        S.require(log[-1][2] == "/nonexistent/out", "write was given %r" % (log[-1][2],))
        S.require_equal(S.unordered(S.merge_trees([tree])), S.unordered(log[-1][3]), "database written")


def check_use(c):
    forkrun.in_child(play_use, c)


# ---------------------------------------------------------------- where a report goes
@st.composite
def out_cases(draw):
    return dict(spec=draw(gen.db_spec(gen.Opt(empty=False, big=False, max_insts=1, max_cgs=1))), flags=draw(st.integers(0, 3)),
                there=draw(st.sampled_from(["none", "none", "file", "dir", "fulldir", "hidden", "same"])), deep=draw(st.booleans()), given=draw(st.integers(0, 5)) > 0,
                abs=draw(st.booleans()), files=draw(st.lists(st.sampled_from(["index.html", "a", "b.css", "x y"]), max_size=3, unique=True)), text=draw(gen.line_names))


def play_out(c, d):
    import os
    import shutil
    from ucis.rgy import FormatRgy
    from ucis.rgy.format_if_db import FormatDescDb, FormatDbFlags, FormatIfDb
    from ucis.rgy.format_if_rpt import FormatDescRpt, FormatRptOutFlags, FormatIfRpt
    log = []

    class D(FormatIfDb):
        def read(self, file_or_filename):
            return S.build(c["spec"])

    class R(FormatIfRpt):
        def report(self, db, out, args):
            log.append(S.extract(db))
            if hasattr(out, "write"):
                log.append("stream")
                out.write(c["text"] + "\n")
            else:
                log.append("dir")
                S.require(os.path.isdir(out) and os.path.realpath(out) == os.path.realpath(os.path.join(d, "w", "out")), "the report was given %r to write to" % (out,))
                S.require(os.listdir(out) == [], "the report directory holds %r" % os.listdir(out))
                for f in c["files"]:
                    with open(os.path.join(out, f), "w") as fp:
                        fp.write(c["text"])
    # nothing outside the scratch directory is ever removed
    rmtree = shutil.rmtree

    def guarded(p, *a, **k):
        if not os.path.realpath(p).startswith(os.path.realpath(d) + os.sep):
            raise Violation("the command tried to remove %r" % (p,))
        return rmtree(p, *a, **k)
    shutil.rmtree = guarded
    rgy = FormatRgy.inst()
    rgy.addDatabaseFormat(FormatDescDb(D, name="d", flags=FormatDbFlags.Read, description="t"))
    rgy.addReportFormat(FormatDescRpt(R, name="r", out_flags=FormatRptOutFlags(c["flags"]), description="t"))
    w = os.path.join(d, "w")
    out = os.path.join(w, "out")
    os.makedirs(w)
    os.chdir(w)
    put = {"keep": "keep"}
    if c["there"] == "file":
        put["out"] = "old"
    elif c["there"] == "fulldir":
        put.update({"out/old": "old", "out/sub/older": "older"})
    elif c["there"] == "hidden":
        put["out/.old"] = "old"
    elif c["there"] == "same":
        # an earlier report
        put.update({"out/" + f: "earlier" for f in c["files"] + ["gone.html"]})
    elif c["there"] == "dir":
        os.mkdir(out)
    for k, v in put.items():
        p = os.path.join(w, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(v)

    def state():
        return {os.path.relpath(os.path.join(a, f), w): open(os.path.join(a, f), encoding="utf-8").read() for a, _, fs in os.walk(w) for f in fs}
    before = state()
    argv = ["report", "in", "-if", "d", "-of", "r"] + (["-o", out if c["abs"] else "out"] if c["given"] else [])
    code, text = run_cmd(argv)
    what = "%r with flags %d, output there: %s" % (argv, c["flags"], c["there"])
    after = state()
    stream, dirs = bool(c["flags"] & FormatRptOutFlags.Stream), bool(c["flags"] & FormatRptOutFlags.Dir)
    if stream and dirs and c["given"]:
        return              # either is what the format asked for
    possible = stream and (not c["given"] or c["there"] in ("none", "file")) or dirs and c["given"] and c["there"] != "file"
    if not possible:
        S.require(code not in (0, None), "%s: exits with %r" % (what, code))
        S.require_equal(before, after, "files after the failing " + what)
        return
    S.require(code in (0, None), "%s: exits with %r" % (what, code))
    S.require(len(log) == 2 and log[1] == ("stream" if stream else "dir"), "%s: report calls %r" % (what, log[1:]))
    S.require_equal(S.tree_of(c["spec"]), log[0], "database given to the report")
    exp = {k: v for k, v in before.items() if not (c["given"] and (k == "out" or k.startswith("out/")))}
    if stream and not c["given"]:
        S.require(text == c["text"] + "\n", "%s printed %r" % (what, text))
    elif stream:
        exp["out"] = c["text"] + "\n"
    else:
        for f in c["files"]:
            exp["out/" + f] = c["text"]
        S.require(os.path.isdir(out), "%s left no directory" % what)
    S.require_equal(exp, after, "files after " + what)


def check_out(c):
    with scratch.Dir() as d:
        forkrun.in_child(play_out, c, d)


FACETS = [Facet("output", out_cases, check_out, lambda c: c["given"], lambda c: {"flags=%d" % c["flags"], "there=" + c["there"]}, quick=1000,
                rule="report formats of every kind of output, with the output place absent, a file, or a directory; non-trivial: with an output name"),
          Facet("history", cases, check, lambda c: any(o[0].startswith("add") for o in c),
                lambda c: {o[0] for o in c}, quick=4000, rule="sequences of registrations, lookups and list commands, in a fresh process each; non-trivial: with a registration"),
          Facet("dispatch", use_cases, check_use, lambda c: gen.spec_nontrivial(c["spec"]), lambda c: {"cmd=" + c["cmd"], "db=" + c["db"], "rpt=" + c["rpt"]},
                quick=1200, rule="commands run with user-registered recording formats; non-trivial: at least two bins")]
ASSUMPTIONS = ["an absent format is one for which has* is false and the descriptor lookup raises (or returns nothing)"]
