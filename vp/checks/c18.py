"""C18 Reusing a reader, writer, merger or formatter leaks nothing between uses."""
import io
import json
import re
from hypothesis import strategies as st
from ..core import Facet, Violation
from .. import gen, spec as S, yamlutil as Y, xmlutil as X, inputs as I, scratch, refreport as RR
from .c19 import report_state

# files and histories make leaks between documents visible
OPT = gen.Opt(names=gen.line_names, empty=False, big=False, src=True, max_insts=2, max_cgs=2, max_ci=2, twins=True, iw=True)
SOPT = gen.Opt(names=gen.simple_names, empty=False, big=False, src=True, max_insts=2, max_cgs=2, max_ci=2, twins=True, cross_kinds=False, iw=True)


@st.composite
def cases(draw):
    shared = draw(st.integers(0, 2)) > 0
    if shared:
        specs = [s for s in draw(gen.source_list(SOPT, 2, 3, dups=False)) if s["insts"]]
    else:
        specs = [draw(gen.db_spec(OPT)) for _ in range(draw(st.integers(1, 3)))]
    if not specs:
        specs = [dict(insts=[dict(n="i", du="d", cgs=[])])]
    if draw(st.integers(0, 7)) == 0:        # a database of many source files
        k = draw(st.integers(0, len(specs) - 1))
        cps = [dict(n="p", w=1, al=1, bins=[["b", "b", 1]])]
        specs[k] = dict(specs[k], insts=specs[k]["insts"] + [dict(n="many", du="many_du", src=None, cgs=[
            dict(n="g%d" % j, w=1, src=["many%d.sv" % j, j, 0], insts=[dict(n="i", w=1, cps=cps, crs=[])], cps=cps, crs=[]) for j in range(draw(st.sampled_from([9, 12, 101])))])])
    for s in specs:
        s["tweaks"] = draw(gen.tweaks)
        s["hist"] = gen.same_as_parent(draw(st.lists(gen.history(), max_size=2)))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(["xread", "xloads", "build", "yaml", "xread"]), st.integers(0, 9)),
        st.tuples(st.sampled_from(["write", "text", "json", "textf", "uwrite", "report", "report", "text2"]), st.integers(0, 9), st.integers(0, 3)),
        st.tuples(st.just("merge"), st.lists(st.integers(0, 9), min_size=1, max_size=3)),
        st.tuples(st.sampled_from(["inc"]), st.integers(0, 9), st.integers(0, 99), st.integers(1, 5)),
        st.tuples(st.sampled_from(["bad_xml", "bad_yaml", "bad_text", "bad_json", "bad_merge"]), st.integers(0, 9), st.integers(0, 30)),
    ), min_size=2, max_size=14))
    return dict(specs=specs, shared=shared, ops=[list(o) for o in ops])


class Full(io.StringIO):
    """A stream that fails after n writes."""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            raise OSError(28, "No space left on device")
        return super().write(s)


class Broken:
    """A source that fails part way through a merge."""

    def __init__(self, db):
        self.db = db

    def scopes(self, mask):
        for s in self.db.scopes(mask):
            yield s
        raise OSError("source failed")


def check(c):
    from ucis.xml.xml_reader import XmlReader
    from ucis.xml.xml_writer import XmlWriter
    from ucis.merge.db_merger import DbMerger
    from ucis.report.format_rpt_text import FormatRptText
    from ucis.report.format_rpt_json import FormatRptJson
    from ucis.yaml.yaml_reader import YamlReader
    from ucis.mem.mem_factory import MemFactory
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    specs = c["specs"]
    first = [S.build(s) for s in specs]
    texts = [X.write_text(s) for s in first]
    yamls = [json.dumps(I.yaml_doc(s)) if c["shared"] else None for s in specs]
    R, W, M, T, J, YR = XmlReader(), XmlWriter(), DbMerger(), FormatRptText(), FormatRptJson(), YamlReader()
    pool = []   # [db, snapshot]
    lists = {}   # lists of databases given to the reused merger, by what they name
    reports = []   # [report object, state]

    def add(db):
        pool.append([db, S.snapshot(db)])
        S.check_own_dus(db, "database %d" % (len(pool) - 1))
        S.check_membership(S.extract(db), "database %d" % (len(pool) - 1))

    def pick(k):
        if not pool:
            add(S.build(specs[0]))
        return pool[k % len(pool)]

    def unchanged(what):
        for i, (db, sn) in enumerate(pool):
            S.require_equal(sn, S.snapshot(db), "database %d after %s" % (i, what))
        for i, (r, sn) in enumerate(reports):
            S.require_equal(sn, report_state(r), "report %d after %s" % (i, what))

    def fails(fn, what):
        try:
            fn()
        except Exception:
            return
        raise Violation("%s did not fail" % what)

    for n, o in enumerate(c["ops"]):
        k = o[0]
        what = "step %d (%s)" % (n, k)
        if k in ("xread", "xloads"):
            i = o[1] % len(specs)
            db = R.read(io.StringIO(texts[i])) if k == "xread" else R.loads(texts[i])
            fresh = XmlReader().read(io.StringIO(texts[i]))
            S.require_equal(S.snapshot(fresh), S.snapshot(db), what + ": database read by a reused reader")
            S.require_equal(S.by_kind(S.xml_view(S.tree_of(specs[i]))), S.by_kind(S.extract(db)), what + ": coverage read by a reused reader")
            S.require(all(db is not p[0] for p in pool), what + " returned an earlier database")
            # what is written from it shows the files it knows of
            S.require(X.undated(X.write_text(fresh)) == X.undated(X.write_text(db)), what + ": document written from it differs")
            add(db)
        elif k == "build":
            db = S.build(specs[o[1] % len(specs)])
            S.tweak(db, specs[o[1] % len(specs)].get("tweaks"))
            add(db)
        elif k == "yaml":
            y = yamls[o[1] % len(specs)]
            if y is not None:
                db = YR.loads(y)
                S.require_equal(Y.plain(S.snapshot(YamlReader().loads(y))), Y.plain(S.snapshot(db)), what + ": database read by a reused YAML reader")
                S.require(all(db is not p[0] for p in pool), what + " returned an earlier database")
                add(db)
        elif k in ("write", "uwrite"):
            db = pick(o[1])[0]
            b, f = io.StringIO(), io.StringIO()
            XmlWriter().write(f, db)
            W.write(b, db)
            S.require_equal(X.undated(f.getvalue()), X.undated(b.getvalue()), what + ": document written by a reused writer")
        elif k in ("text", "textf", "json"):
            db = pick(o[1])[0]
            obj, fresh = (J, FormatRptJson()) if k == "json" else (T, FormatRptText())
            for x in (obj, fresh):
                x.details = bool(o[2] & 1)
                x.order_bins_by_hit = bool(o[2] & 2)
            b, f = io.StringIO(), io.StringIO()
            obj.report(db, b, [])
            fresh.report(db, f, [])
            S.require_equal(f.getvalue(), b.getvalue(), what + ": report of a reused formatter")
        elif k == "report":
            db = pick(o[1])[0]
            r = CoverageReportBuilder.build(db)
            S.require(all(r is not p[0] for p in reports), what + " returned an earlier report")
            RR.check_report(RR.ref_report(Y.plain(S.extract(db))), r)
            reports.append([r, report_state(r)])
        elif k == "text2" and reports:
            r = reports[o[1] % len(reports)][0]
            b, f = io.StringIO(), io.StringIO()
            x, y = TextCoverageReportFormatter(r, b), TextCoverageReportFormatter(r, f)
            for z in (x, y):
                z.details, z.order_bins_by_hit = bool(o[2] & 1), bool(o[2] & 2)
            x.report()
            x.report()
            y.report()
            S.require_equal(f.getvalue() * 2, b.getvalue(), what + ": two reports of one formatter")
        elif k == "merge":
            dbs = [pick(i)[0] for i in o[1]]
            if not c["shared"]:
                dbs = dbs[:1]
            # the same list object again for the same databases
            dbs = lists.setdefault(tuple(id(x) for x in dbs), dbs)
            given = list(dbs)
            a, b = MemFactory.create(), MemFactory.create()
            DbMerger().merge(a, dbs)
            M.merge(b, dbs)
            S.require(len(dbs) == len(given) and all(x is y for x, y in zip(dbs, given)), what + " changed the list of sources")
            S.require_equal(Y.plain(S.snapshot(a)), Y.plain(S.snapshot(b)), what + ": merge by a reused merger")
            S.require_equal(S.unordered(S.merge_trees([Y.plain(S.extract(d)) for d in dbs])), S.unordered(Y.plain(S.extract(b))), what + ": merged coverage")
            add(b)
        elif k == "inc":
            p = pick(o[1])
            items = S.all_items(p[0])
            if items:
                items[o[2] % len(items)].incrementCover(o[3])
                p[1] = S.snapshot(p[0])
        elif k == "bad_xml":
            t = texts[o[1] % len(texts)]
            m = [x.start() for x in re.finditer(r"<coverpointBin|<coverpoint|<cgId|<contents", t)] or [len(t) - 8]
            fails(lambda: R.read(io.StringIO(t[:m[o[2] % len(m)]])), what)
        elif k == "bad_yaml":
            fails(lambda: YR.loads('{"coverage": {"covergroups": [{"name": "zz", "instances": [{"name": "z", "coverpoints": [{"name": "p", "bins": [{"name": "b", "count": 1}]}],'
                                   ' "crosses": [{"name": "x", "coverpoints": ["nope"], "bins": [{"name": "b", "count": 1}]}]}]}]}}'), what)
        elif k in ("bad_text", "bad_json"):
            db = pick(o[1])[0]
            obj = T if k == "bad_text" else J
            try:
                obj.report(db, Full(o[2]), [])
            except OSError:
                pass
        elif k == "bad_merge":
            try:
                M.merge(MemFactory.create(), [Broken(pick(o[1])[0])])
            except OSError:
                pass
        unchanged(what)
    for s, t in zip(first, texts):
        S.require_equal(X.undated(t), X.undated(X.write_text(s)), "document of a database, written before and after the uses")


# ------------------------------------------------------------------ files that change between uses
@st.composite
def file_cases(draw):
    specs = draw(gen.source_list(SOPT, 2, 3, dups=False))
    specs = [s if s["insts"] else dict(insts=[dict(n="i", du="d", cgs=[])]) for s in specs]
    steps = draw(st.lists(st.one_of(st.tuples(st.just("put"), st.integers(0, 1), st.integers(0, 9), st.integers(0, 3)),
                                    st.tuples(st.sampled_from(["read", "rgy", "rel", "read"]), st.integers(0, 1), st.just(0), st.just(0)),
                                    st.tuples(st.sampled_from(["inc", "cd"]), st.integers(0, 9), st.integers(0, 99), st.just(0))), min_size=3, max_size=10))
    return dict(specs=specs, steps=[list(x) for x in steps], fmt=draw(st.sampled_from(["xml", "xml", "yaml"])), mtime=draw(st.booleans()))


def check_files(c):
    """Whatever was read before, under whatever name: a file is read as it is now."""
    import os
    from ucis.xml.xml_factory import XmlFactory
    from ucis.rgy.format_rgy import FormatRgy
    if c["fmt"] == "xml":
        docs = [[I.xml_bytes(s), I.xml_bytes(s, "gz9"), I.xml_bytes(s, "foreign"), I.xml_bytes(s, "lib16")] for s in c["specs"]]
    else:
        docs = [[I.yaml_bytes(s)] for s in c["specs"]]
    if c["mtime"]:
        # pad to one size with white space the formats ignore
        size = max(len(d[0]) for d in docs)
        docs = [[d[0] + b"\n" * (size - len(d[0]))] for d in docs]
    exp = {}
    rgy = FormatRgy.inst().getDatabaseDesc(c["fmt"])

    def put(path, k, v):
        d = docs[k % len(docs)]
        I.put(path, d[v % len(d)])
        if c["mtime"]:
            os.utime(path, (1600000000, 1600000000))

    def expected(k):
        k %= len(docs)
        if k not in exp:
            if c["fmt"] == "xml":
                exp[k] = S.by_kind(S.xml_view(S.tree_of(c["specs"][k])))
            else:
                exp[k] = Y.plain(S.by_kind(S.extract(load(docs[k][0]))))
        return exp[k]

    def load(data):
        from ucis.yaml.yaml_reader import YamlReader
        return YamlReader().loads(data.decode("utf-8"))
    pool = []
    cwd = os.getcwd()
    with scratch.Dir() as top:
        try:
            holds = {}
            for d in (0, 1):
                os.mkdir(os.path.join(top, "d%d" % d))
                for s in (0, 1):
                    put(os.path.join(top, "d%d" % d, "f%d" % s), d + s, 0)
                    holds[d, s] = d + s
            here = 0
            os.chdir(os.path.join(top, "d0"))
            for n, (k, a, b, v) in enumerate(c["steps"]):
                what = "step %d (%s)" % (n, k)
                path = os.path.join(top, "d%d" % here, "f%d" % (a & 1))
                if k == "cd":
                    here = 1 - here
                    os.chdir(os.path.join(top, "d%d" % here))
                elif k == "put":
                    put(path, b, v)
                    holds[here, a & 1] = b
                elif k == "inc":
                    items = S.all_items(pool[a % len(pool)][0]) if pool else []
                    if items:
                        items[b % len(items)].incrementCover(3)
                        pool[a % len(pool)][1] = S.snapshot(pool[a % len(pool)][0])
                else:
                    name = "f%d" % (a & 1) if k == "rel" else path
                    db = XmlFactory.read(name) if k == "read" and c["fmt"] == "xml" else rgy.fmt_if().read(name)
                    S.require_equal(expected(holds[here, a & 1]), Y.plain(S.by_kind(S.extract(db))), what + ": coverage of a file that held another document before")
                    pool.append([db, S.snapshot(db)])
                for i, (db, sn) in enumerate(pool):
                    S.require_equal(sn, S.snapshot(db), "database %d after %s" % (i, what))
        finally:
            os.chdir(cwd)


# ------------------------------------------------------------------ one use inside another
NEST = ["write", "text", "json", "merge", "build", "xread", "yread"]


@st.composite
def nest_cases(draw):
    specs = draw(gen.source_list(SOPT, 2, 2, dups=False))
    specs = [s if s["insts"] else dict(insts=[dict(n="i", du="d", cgs=[])]) for s in specs]
    for s in specs:
        s["hist"] = gen.same_as_parent(draw(st.lists(gen.history(), max_size=2)))
    outer = draw(st.sampled_from(NEST))
    inner = draw(st.lists(st.tuples(st.sampled_from([outer] * 4 + NEST), st.integers(1, 40), st.integers(0, 1)), min_size=1, max_size=3))
    return dict(specs=specs, outer=outer, inner=[list(x) for x in inner], details=draw(st.booleans()))


class Hook:
    """Counts events of an outer operation and runs inner ones at chosen counts."""

    def __init__(self, at):
        self.n, self.at, self.results, self.busy = 0, at, [], False

    def tick(self):
        if self.busy:
            return
        self.n += 1
        for when, fn in self.at:
            if when == self.n:
                self.busy = True
                try:
                    self.results.append(fn())
                finally:
                    self.busy = False


class Seen:
    """A scope or database that reports to the hook whenever it is iterated."""

    def __init__(self, real, hook):
        self.__dict__["real"], self.__dict__["hook"] = real, hook

    def __getattr__(self, n):
        return getattr(self.real, n)

    def scopes(self, mask):
        for s in self.real.scopes(mask):
            self.hook.tick()
            yield Seen(s, self.hook)

    def coverItems(self, mask):
        for s in self.real.coverItems(mask):
            self.hook.tick()
            yield s


class Out(io.StringIO):
    def __init__(self, hook):
        super().__init__()
        self.hook = hook

    def write(self, s):
        if self.hook is not None:
            self.hook.tick()
        return super().write(s)


class In(io.BytesIO):
    def __init__(self, data, hook):
        super().__init__(data)
        self.hook = hook

    def read(self, n=-1):
        self.hook.tick()
        return super().read(min(n, 512) if n and n > 0 else n)


def perform(k, db, text, yml, details, hook=None):
    from ucis.xml.xml_reader import XmlReader
    from ucis.xml.xml_writer import XmlWriter
    from ucis.merge.db_merger import DbMerger
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    from ucis.report.format_rpt_text import FormatRptText
    from ucis.report.format_rpt_json import FormatRptJson
    from ucis.yaml.yaml_reader import YamlReader
    from ucis.mem.mem_factory import MemFactory
    src = db if hook is None else Seen(db, hook)
    if k == "xread":
        return S.snapshot(XmlReader().read(io.BytesIO(text.encode("utf-8")) if hook is None else In(text.encode("utf-8"), hook)))
    if k == "yread":
        return Y.plain(S.snapshot(YamlReader().load(io.BytesIO(yml) if hook is None else In(yml, hook))))
    if k == "merge":
        m = MemFactory.create()
        DbMerger().merge(m, [src, src])
        return Y.plain(S.snapshot(m))
    if k == "build":
        return report_state(CoverageReportBuilder.build(src))
    o = Out(hook)
    if k == "write":
        XmlWriter().write(o, src)
        return X.undated(o.getvalue())
    f = FormatRptText() if k == "text" else FormatRptJson()
    f.details = details
    f.report(src, o, [])
    return o.getvalue()


def check_nested(c):
    dbs = [S.build(s) for s in c["specs"]]
    texts = [X.write_text(d) for d in dbs]
    ymls = [I.yaml_bytes(s) for s in c["specs"]]
    snaps = [S.snapshot(d) for d in dbs]

    def run(k, i, hook=None):
        return perform(k, dbs[i], texts[i], ymls[i], c["details"], hook)
    alone = run(c["outer"], 0)
    # events are spread over the whole of the outer operation
    probe = Hook([])
    run(c["outer"], 0, probe)
    exp = []
    at = []
    for k, when, i in c["inner"]:
        exp.append(run(k, i))
        at.append((1 + when * max(1, probe.n) // 41, lambda k=k, i=i: (k, i, run(k, i))))
    hook = Hook(at)
    got = run(c["outer"], 0, hook)
    S.require_equal(alone, got, "%s with %s running in between" % (c["outer"], [k for k, _, _ in c["inner"]]))
    for k, i, r in hook.results:
        S.require_equal(run(k, i), r, "%s run in the middle of %s" % (k, c["outer"]))
    for e, (k, _, i) in zip(exp, c["inner"]):
        S.require_equal(e, run(k, i), "%s after %s" % (k, c["outer"]))
    S.require_equal(snaps, [S.snapshot(d) for d in dbs], "databases")


FACETS = [Facet("files", file_cases, check_files, lambda c: {"put", "cd"} & {s[0] for s in c["steps"]} and {"read", "rgy", "rel"} & {s[0] for s in c["steps"]},
                lambda c: {s[0] for s in c["steps"]} | {"fmt=" + c["fmt"]} | ({"same_size_and_time"} if c["mtime"] else set()), quick=500,
                rule="files rewritten between reads, in two directories; non-trivial: a rewrite or change of directory and a read"),
          Facet("nested", nest_cases, check_nested, lambda c: c["outer"] in [x[0] for x in c["inner"]],
                lambda c: {"outer=" + c["outer"]} | {"inner=" + x[0] for x in c["inner"]}, quick=700,
                rule="an operation during which others run (from the iteration or stream it uses); non-trivial: one of the same kind among them"),
          Facet("reuse", cases, check, lambda c: len({o[0] for o in c["ops"]}) < len(c["ops"]), lambda c: {o[0] for o in c["ops"]} | {"shared" if c["shared"] else "independent"},
                quick=1200, rule="sequences of operations with shared reader, writer, merger and formatter objects, failing uses included; non-trivial: some kind of operation occurs twice")]
ASSUMPTIONS = ["merged databases agree where they overlap (C06)"]
