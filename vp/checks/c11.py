"""C11 Text reports state exactly what the report object holds."""
import io
from hypothesis import strategies as st
from ..core import Facet, Violation
from .. import gen, spec as S, refreport as R

OPT = gen.Opt(empty=True, mixed_al=True, min_insts=0, twins=True, dup_cg=True, dup_inst=True, dup_pt=True)


def cases():
    return st.fixed_dictionaries(dict(spec=gen.db_spec(OPT), details=st.booleans(), order=st.booleans(),
                                      round=st.integers(0, 6), defaults=st.integers(0, 5)))


def expected(ref, rep, details, order, cg_fmt, pt_fmt):
    """Lines of the report; percentages are those of the report object, structure and names those of the model."""
    out = []

    def bins(bs, ind):
        if order:
            bs = sorted(bs, key=lambda b: not b["hit"])
        for b in bs:
            out.append("    " * ind + "%s : %d" % (b["n"], b["count"]))

    def cg(e, g, inst, ind):
        out.append("    " * ind + "%s %s : %s" % ("INST" if inst else "TYPE", e["n"], cg_fmt(g.coverage)))
        for x, y in zip(e["cps"], g.coverpoints):
            out.append("    " * (ind + 1) + "CVP %s : %s" % (x["n"], pt_fmt(y.coverage)))
            if details:
                for h, k in (("Bins:", "bins"), ("IgnoreBins:", "ign"), ("IllegalBins:", "ill")):
                    if k == "bins" or x[k]:
                        out.append("    " * (ind + 1) + h)
                        bins(x[k], ind + 2)
        for x, y in zip(e["crs"], g.crosses):
            out.append("    " * (ind + 1) + "CROSS %s : %s" % (x["n"], pt_fmt(y.coverage)))
            if details:
                out.append("    " * (ind + 1) + "Bins:")
                bins(x["bins"], ind + 2)
        for x, y in zip(e["insts"], g.covergroups):
            cg(x, y, True, ind + 1)
    for e, g in zip(ref["cgs"], rep.covergroups):
        cg(e, g, False, 0)
    return out


def compare(exp, text, what):
    if text and not text.endswith("\n"):
        raise Violation("%s does not end with a newline" % what)
    got = text.split("\n")[:-1]
    for k in range(max(len(exp), len(got))):
        a = exp[k] if k < len(exp) else None
        b = got[k] if k < len(got) else None
        if a != b:
            raise Violation("%s line %d is %r, expected %r" % (what, k + 1, b, a))


def check(c):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    from ucis.report.format_rpt_text import FormatRptText
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    db = S.build(c["spec"])
    ref = R.ref_report(S.tree_of(c["spec"]))
    rep = CoverageReportBuilder.build(db)
    R.check_report(ref, rep)

    out = io.StringIO()
    f = FormatRptText()
    if c["defaults"]:
        f.details = c["details"]
        f.order_bins_by_hit = c["order"]
    det, order = (c["details"], c["order"]) if c["defaults"] else (False, False)
    f.report(db, out, None)
    compare(expected(ref, rep, det, order, lambda v: "%f%%" % round(v, 2), lambda v: "%f%%" % round(v)), out.getvalue(), "FormatRptText")

    out = io.StringIO()
    t = TextCoverageReportFormatter(rep, out)
    n = c["round"]
    if c["defaults"]:
        t.details = c["details"]
        t.order_bins_by_hit = c["order"]
        t.round = n
    else:
        n = 2
    t.report()
    fmt = lambda v: "%.*f%%" % (n, round(v, n))
    compare(expected(ref, rep, det, order, fmt, fmt), out.getvalue(), "TextCoverageReportFormatter")
    R.check_report(ref, rep)   # formatting does not change the report


def labels(c):
    ls = set(gen.spec_labels(c["spec"]))
    ls.add("details" if c["details"] and c["defaults"] else "no_details")
    ls.add("ordered" if c["order"] else "unordered")
    ls.add("round=%d" % c["round"])
    return ls


def nontrivial(c):
    return c["details"] and gen.spec_nontrivial(c["spec"])


FACETS = [Facet("text", cases, check, nontrivial, labels, quick=10000,
                rule="databases with formatter options; non-trivial: details on and at least two bins")]
ASSUMPTIONS = ["names without line breaks"]
