"""C19 Read-only operations change nothing and are deterministic."""
import io
import json
import os
import subprocess
import sys
from hypothesis import strategies as st
from ..core import limit_cpu, Facet, Violation, VERIF
from .. import gen, spec as S, yamlutil as Y, xmlutil as X, inputs as I, outputs

OPT = gen.Opt(names=gen.line_names, empty=False, src=True)
EOPT = gen.Opt(names=gen.line_names, empty=True, src=True, min_cgs=1, mixed_al=True, twins=True, dup_cg=True, dup_inst=True, dup_pt=True)

OPS = ["text", "json", "xml", "merge", "iter", "build", "fmt2", "uwrite", "merge2", "hist", "text_fail"]


@st.composite
def cases(draw):
    origin = draw(st.sampled_from(["mem", "mem", "xml", "yaml", "merged"]))
    spec = draw(gen.db_spec(OPT if origin in ("xml", "yaml") else EOPT))
    spec["hist"] = draw(gen.histories)
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2**32)), min_size=1, max_size=8))
    return dict(spec=spec, origin=origin, ops=[list(o) for o in ops], twice=draw(st.booleans()), tweaks=draw(gen.tweaks),
                by=draw(st.sampled_from([None, "somebody", "", "\u00e9 x"])), when=draw(st.sampled_from([0, 1, 20200101000000, "2020"])))


def make(c):
    db = make0(c)
    S.tweak(db, c.get("tweaks"))
    return db


def make0(c, memo={}):
    if c["origin"] == "xml":
        if memo.get("c") is not c:      # the document holds its time of writing: twins share it
            memo.update(c=c, t=X.write_text(S.build(c["spec"])))
        return X.read_text(memo["t"])
    if c["origin"] == "yaml":
        from ucis.yaml.yaml_reader import YamlReader
        return YamlReader().loads(json.dumps(I.yaml_doc(c["spec"])))
    if c["origin"] == "merged":
        from ucis.merge.db_merger import DbMerger
        from ucis.mem.mem_factory import MemFactory
        m = MemFactory.create()
        DbMerger().merge(m, [S.build(c["spec"])])
        return m
    return S.build(c["spec"])


_PROPS = ("SCOPE_WEIGHT", "SCOPE_GOAL", "CVG_ATLEAST", "CVG_AUTOBINMAX", "CVG_DETECTOVERLAP", "CVG_NUMPRINTMISSING", "CVG_STROBE",
          "CVG_PERINSTANCE", "CVG_GETINSTCOV", "CVG_MERGEINSTANCES")


def props(db):
    """Integer properties that can be read, of every scope."""
    from ucis.int_property import IntProperty
    out = []

    def walk(s, d):
        row = []
        for n in _PROPS:
            p = getattr(IntProperty, n, None)
            if p is None:
                continue
            try:
                row.append([n, s.getIntProperty(-1, p)])
            except Exception:
                row.append([n, "error"])
        out.append(row)
        for k in s.scopes(S.ALL64):
            walk(k, d + 1)
    for s in db.scopes(S.ALL64):
        walk(s, 0)
    return out


def report_state(r):
    """All a report object holds, by its documented members."""
    def bins(l):
        return [[x.name, int(x.count), int(x.goal), bool(x.hit)] for x in l]

    def cg(g):
        return [g.name, g.instname, g.weight, g.coverage, list(g.coverpoint_m), list(g.cross_m), list(g.covergroup_m),
                [[p.name, p.weight, p.coverage, bins(p.bins), bins(p.ignore_bins), bins(p.illegal_bins)] for p in g.coverpoints],
                [[p.name, p.weight, p.coverage, bins(p.bins)] for p in g.crosses], [cg(i) for i in g.covergroups]]
    return [r.coverage, list(r.covergroup_m), [cg(g) for g in r.covergroups]]


def perform(db, k, arg, writable):
    """One read-only operation -> its output."""
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    from ucis.report.format_rpt_text import FormatRptText
    from ucis.report.format_rpt_json import FormatRptJson
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    from ucis.merge.db_merger import DbMerger
    from ucis.mem.mem_factory import MemFactory
    from ucis.history_node_kind import HistoryNodeKind
    b = io.StringIO()
    if k in ("text", "text_fail"):
        f = FormatRptText()
        f.details, f.order_bins_by_hit = bool(arg & 1), bool(arg & 2)
        f.report(db, b, [])
        return b.getvalue()
    if k == "json":
        FormatRptJson().report(db, b, [])
        return b.getvalue()
    if k == "fmt2":
        r = CoverageReportBuilder.build(db)
        before = report_state(r)
        t = TextCoverageReportFormatter(r, b)
        t.details, t.order_bins_by_hit, t.round = bool(arg & 1), bool(arg & 2), arg % 5
        t.report()
        S.require_equal(before, report_state(r), "report object after formatting it")
        return b.getvalue()
    if k == "build":
        r = CoverageReportBuilder.build(db)
        # the report is the caller's: changing it does not reach the database
        out = [r.coverage, [[g.name, g.weight, g.coverage, [[p.name, p.coverage, [[x.name, int(x.count), int(x.goal)] for x in p.bins]] for p in g.coverpoints]]
                            for g in r.covergroups]]
        for g in r.covergroups:
            g.weight = 77
            for p in g.coverpoints + g.crosses:
                for x in p.bins:
                    x.count = 12345
                p.bins.clear()
        return out
    if k == "iter":
        out = []

        def walk(s):
            for x in s.coverItems(arg):
                out.append([x.getName(), int(x.getCoverData().data)])
            for x in s.scopes(arg):
                out.append(x.getScopeName())
            for x in s.scopes(S.ALL64):
                walk(x)
        for x in db.scopes(arg):
            out.append(x.getScopeName())
        for x in db.scopes(S.ALL64):
            walk(x)
        return out
    if k == "hist":
        return [[getattr(h, g)() for g in S._HIST] for h in db.historyNodes([HistoryNodeKind.ALL, HistoryNodeKind.TEST, HistoryNodeKind.MERGE][arg % 3])]
    if k in ("merge", "merge2"):
        m = MemFactory.create()
        DbMerger().merge(m, [db] if k == "merge" else [db, db])
        out = Y.plain(S.snapshot(m))
        for it in S.all_items(m):
            it.incrementCover(3)
        return out
    if k in ("xml", "uwrite"):
        return X.undated(X.write_text(db)) if writable else None
    raise AssertionError(k)


def written(db):
    """Who the database says wrote it, and when."""
    return [getattr(db, g)() for g in ("getWrittenBy", "getWrittenTime") if hasattr(db, g)]


def check(c):
    db = make(c)
    if c.get("by") is not None and c["origin"] != "yaml":
        db.setWrittenBy(c["by"])
        db.setWrittenTime(c["when"])
    writable = c["origin"] in ("xml", "yaml")

    def state():
        return [Y.plain(S.snapshot(db)), Y.plain(props(db)), written(db)]
    before = state()
    outs = {}
    for n, (k, arg) in enumerate(c["ops"]):
        key = "%s/%d" % (k, arg)
        o = perform(db, k, arg, writable)
        S.require_equal(before, state(), "database after %s" % k)
        if c["twice"]:
            o2 = perform(db, k, arg, writable)
            S.require_equal(o, o2, "repeated %s" % k)
        if key in outs:
            S.require_equal(outs[key], o, "%s repeated later" % k)
        outs[key] = o
    for key, o in outs.items():
        k, arg = key.split("/")
        S.require_equal(o, perform(db, k, int(arg), writable), "%s repeated at the end" % k)
    # an untouched twin gives the same outputs: earlier operations left no trace
    if not c["spec"]["hist"] and c["origin"] != "yaml":
        twin = make(c)
        for key, o in outs.items():
            k, arg = key.split("/")
            S.require_equal(o, perform(twin, k, int(arg), writable), "%s of an identically built database" % k)


@st.composite
def proc_cases(draw):
    specs = [s for s in draw(gen.source_list(gen.Opt(names=gen.line_names, empty=False, cross_kinds=False, big=False), 2, 4, dups=False)) if s["insts"]]
    if not specs:
        specs = [dict(insts=[dict(n="i", du="d", cgs=[])])]
    for s in specs:
        s["hist"] = [h for h in draw(gen.histories) if "date" in h and h["kind"] is not None]
        for i in s["insts"]:
            i["src"] = draw(gen.srcinfo())
            for g in i["cgs"]:
                g["src"] = draw(gen.srcinfo())
    return dict(specs=specs, seeds=draw(st.lists(st.integers(0, 4294967295), min_size=1, max_size=2)), tz=draw(st.sampled_from(["UTC", "Asia/Tokyo", "America/New_York"])))


def check_proc(c):
    here = outputs.all_outputs(c["specs"])
    for s in c["seeds"]:
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = str(s)
        e["TZ"] = c["tz"]
        e["VERIF_REEXEC"] = "1"
        e["PYTHONPATH"] = os.pathsep.join([os.environ["PYTHONPATH"], VERIF] + [p for p in sys.path if "veriftools" in p])
        p = subprocess.run([sys.executable, "-m", "vp.outputs"], cwd=VERIF, env=e, input=json.dumps(c["specs"]).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, preexec_fn=limit_cpu)
        if p.returncode != 0:
            raise Violation("the operations fail in a process with PYTHONHASHSEED=%d: %s" % (s, p.stderr.decode("utf-8", "replace")[-1500:]))
        S.require_equal(here, json.loads(p.stdout), "outputs in a process with PYTHONHASHSEED=%d TZ=%s" % (s, c["tz"]))


FACETS = [Facet("pure", cases, check, lambda c: len(c["ops"]) > 1 and gen.spec_nontrivial(c["spec"]), lambda c: {o[0] for o in c["ops"]} | {"origin=" + c["origin"]},
                quick=1200, rule="sequences of read-only operations on databases of every origin; non-trivial: at least two operations and two bins"),
          Facet("process", proc_cases, check_proc, lambda c: any(gen.spec_nontrivial(s) for s in c["specs"]), lambda c: {"tz=" + c["tz"]}, quick=64, thorough=1500,
                rule="all outputs of several databases here and in processes with other hash seeds and time zones; non-trivial: at least two bins")]
ASSUMPTIONS = ["the time of writing, also in the placeholder history node, is not part of the output compared"]
