"""C08 Report percentages are exactly the weighted at-least coverage."""
from hypothesis import strategies as st
from ..core import Facet
from .. import gen, spec as S, refreport as R

OPT = gen.Opt(empty=True, mixed_al=True, min_insts=0, twins=True, dup_cg=True, dup_inst=True, dup_pt=True)
W = st.sampled_from([0, 0, 1, 1, 2, 3, 7, 100])


def small():
    """Weight-heavy databases: many covergroups, few bins each."""
    @st.composite
    def g(draw):
        insts = []
        for n in draw(gen.uniq(gen.simple_names, 1, 4)):
            cgs = []
            for gname in draw(gen.uniq(gen.simple_names, 0, 4)):
                def pts():
                    cps = [dict(n=c, w=draw(W), al=1, bins=[["b%d" % k, draw(gen.kinds), draw(st.integers(0, 4)), draw(st.integers(0, 4))]
                                                            for k in range(draw(st.integers(0, 4)))])
                           for c in draw(gen.uniq(gen.simple_names, 0, 3))]
                    crs = [dict(n=c, w=draw(W), al=1, cps=[p["n"] for p in cps][:2],
                                bins=[["b%d" % k, draw(gen.kinds), draw(st.integers(0, 4)), draw(st.integers(0, 4))]
                                      for k in range(draw(st.integers(0, 4)))])
                           for c in (draw(gen.uniq(gen.simple_names, 0, 2)) if cps else [])]
                    return dict(cps=cps, crs=crs)
                cgs.append(dict(n=gname, w=draw(W), insts=[dict(n=c, w=draw(W), **pts()) for c in draw(gen.uniq(gen.simple_names, 0, 3))], **pts()))
            insts.append(dict(n=n, du="du", cgs=cgs))
        return dict(insts=insts)
    return g()


def check(spec):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    db = S.build(spec)
    ref = R.ref_report(S.tree_of(spec))
    R.check_report(ref, CoverageReportBuilder.build(db))


def check_grow(c):
    """Hitting one more bin, or lowering nothing: the report follows every increment."""
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    spec = c["spec"]
    db = S.build(spec)
    items = S.all_items(db)
    for n, (pos, amt) in enumerate(c["incs"]):
        if c["between"] & (1 << n):
            # what was reported before is not what is reported now
            R.check_report(R.ref_report(S.extract(db)), CoverageReportBuilder.build(db))
        if items:
            items[pos % len(items)].incrementCover(amt)
    # same order of bins as all_items: type points, then instances, as built
    tree = S.extract(db)
    total0 = sum(b[2] for i in S.tree_of(spec)["insts"] for g in i["cgs"] for s in [g] + g["insts"] for p in s["cps"] + s["crs"] for b in p["bins"])
    total1 = sum(b[2] for i in tree["insts"] for g in i["cgs"] for s in [g] + g["insts"] for p in s["cps"] + s["crs"] for b in p["bins"])
    S.require(total1 == total0 + (sum(a for _, a in c["incs"]) if items else 0), "increments lost")
    R.check_report(R.ref_report(tree), CoverageReportBuilder.build(db))


def labels(spec):
    ls = set(gen.spec_labels(spec))
    r = R.ref_report(S.tree_of(spec))
    for g in r["cgs"]:
        if g["pct"] not in (0, 100):
            ls.add("fractional")
        if g["w"] == 0:
            ls.add("zero_weight_cg")
        if g["cps"] and all(c["w"] == 0 for c in g["cps"] + g["crs"]):
            ls.add("all_points_zero_weight")
    return ls


def nontrivial(spec):
    r = R.ref_report(S.tree_of(spec))
    return any(0 < p["pct"] < 100 for g in r["cgs"] for p in g["cps"] + g["crs"])


grow = lambda: st.fixed_dictionaries(dict(spec=gen.db_spec(OPT), incs=st.lists(st.tuples(st.integers(0, 500), st.integers(1, 5)), min_size=1, max_size=6), between=st.integers(0, 63)))
FACETS = [
    Facet("report", lambda: gen.db_spec(OPT), check, nontrivial, labels, quick=5600,
          rule="databases; non-trivial: some coverpoint or cross is partly covered"),
    Facet("weights", small, check, nontrivial, labels, quick=5600,
          rule="databases with weights 0..100 at every level; non-trivial as above"),
    Facet("increment", grow, check_grow, lambda c: nontrivial(c["spec"]), lambda c: labels(c["spec"]), quick=1600,
          rule="databases followed by increments, with reports taken in between; non-trivial as above"),
]
ASSUMPTIONS = ["percentages compared with tolerance 1e-7 to exact rationals", "ignore/illegal bins of crosses are not part of the report object"]
