"""C12 The JSON report is a faithful transcription of the coverage report."""
import io
import json
from hypothesis import strategies as st
from ..core import Facet, Violation
from .. import gen, spec as S, refreport as R

OPT = gen.Opt(empty=True, mixed_al=True, min_insts=0, twins=True, dup_cg=True, dup_inst=True, dup_pt=True, names=st.one_of(gen.xml_names, gen.xml_names, st.sampled_from(
    ["a\rb", "\x01", "", " ", "\\", "\\u0041", "\u2028", "'", "\"\\\"", "\x7f", "name", "coverage", "bins"])))


def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Violation("duplicate member %r" % k)
        d[k] = v
    return d


def bins(e, got, what):
    got = got if got is not None else []
    S.require(isinstance(got, list), what + " is not a list")
    for b in got:
        S.require(set(b) == {"name", "goal", "count"}, "%s: bin members %r" % (what, sorted(b)))
        for k in ("goal", "count"):
            S.require(type(b[k]) is int, "%s: %s of bin %r is %r" % (what, k, b["name"], b[k]))
    S.require_equal([dict(name=b["n"], goal=b["goal"], count=b["count"]) for b in e], got, what)


def check_cg(e, g, rep, path):
    path = "%s/%s" % (path, e["n"])
    S.require(g["name"] == e["n"], "covergroup name %r, expected %r" % (g["name"], e["n"]))
    R.close(e["pct"], g["coverage"], path + " coverage")
    S.require(g["coverage"] == rep.coverage, "%s: coverage %r, report object has %r" % (path, g["coverage"], rep.coverage))
    extra = set(g) - {"name", "coverage", "coverpoints", "crosses", "covergroups", "weight", "instname"}
    S.require(not extra, "%s: unexpected members %r" % (path, extra))
    if "weight" in g:
        S.require(g["weight"] == e["w"], "%s: weight %r" % (path, g["weight"]))
    for key, es, rs in (("coverpoints", e["cps"], rep.coverpoints), ("crosses", e["crs"], rep.crosses)):
        gs = g.get(key) or []
        S.require([x["n"] for x in es] == [x.get("name") for x in gs], "%s: %s %r, expected %r" % (
            path, key, [x.get("name") for x in gs], [x["n"] for x in es]))
        for x, y, r in zip(es, gs, rs):
            p = "%s/%s" % (path, x["n"])
            R.close(x["pct"], y["coverage"], p + " coverage")
            S.require(y["coverage"] == r.coverage, "%s: coverage %r, report object has %r" % (p, y["coverage"], r.coverage))
            bins(x["bins"], y.get("bins"), p + " bins")
            if "weight" in y:
                S.require(y["weight"] == x["w"], "%s: weight %r, expected %r" % (p, y["weight"], x["w"]))
            allowed = {"name", "coverage", "bins", "weight"}
            if key == "coverpoints":
                bins(x["ign"], y.get("ignorebins"), p + " ignore bins")
                bins(x["ill"], y.get("illegalbins"), p + " illegal bins")
                allowed |= {"ignorebins", "illegalbins"}
            S.require(set(y) <= allowed, "%s: unexpected members %r" % (p, set(y) - allowed))
    gs = g.get("covergroups") or []
    S.require(len(gs) == len(e["insts"]), "%s: %d instances, expected %d" % (path, len(gs), len(e["insts"])))
    for x, y, r in zip(e["insts"], gs, rep.covergroups):
        check_cg(x, y, r, path)


def check(spec):
    from ucis.report.format_rpt_json import FormatRptJson
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    db = S.build(spec)
    ref = R.ref_report(S.tree_of(spec))
    rep = CoverageReportBuilder.build(db)
    out = io.StringIO()
    FormatRptJson().report(db, out, None)

    def const(x):
        raise Violation("JSON report contains %s" % x)
    try:
        j = json.loads(out.getvalue(), object_pairs_hook=nodup, parse_constant=const)
    except ValueError as e:
        raise Violation("JSON report is not well-formed: %s" % e)
    check_json(ref, rep, j)


def check_json(ref, rep, j):
    S.require(isinstance(j, dict) and set(j) <= {"coverage", "covergroups"}, "top-level members %r" % (sorted(j),))
    R.close(ref["pct"], j["coverage"], "overall coverage")
    S.require(j["coverage"] == rep.coverage, "overall coverage %r, report object has %r" % (j["coverage"], rep.coverage))
    gs = j.get("covergroups") or []
    S.require(len(gs) == len(ref["cgs"]), "%d covergroups, expected %d" % (len(gs), len(ref["cgs"])))
    for x, y, r in zip(ref["cgs"], gs, rep.covergroups):
        check_cg(x, y, r, "")


FACETS = [Facet("json", lambda: gen.db_spec(OPT), check, gen.spec_nontrivial, gen.spec_labels, quick=4800,
                rule="databases; non-trivial: at least two bins")]
ASSUMPTIONS = ["an absent member and an empty list are the same"]
