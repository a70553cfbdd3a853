"""Reference coverage report: exact rational percentages computed from a tree (spec.tree_of)."""
from fractions import Fraction as F
from .core import Violation
from . import spec as S


def _pct(bins):
    o = [b for b in bins if b[1] == "b"]
    if not o:
        return F(0)
    return F(100 * sum(1 for b in o if b[2] >= b[3]), len(o))


def _mean(pairs):
    tot = sum(w for _, w in pairs)
    return sum((c * w for c, w in pairs), F(0)) / tot if tot > 0 else F(0)


def _bins(bins, k):
    return [dict(n=b[0], goal=b[3], count=b[2], hit=b[2] >= b[3]) for b in bins if b[1] == k]


def ref_cg(g, inst=False):
    cps = [dict(n=c["n"], w=c["w"], pct=_pct(c["bins"]), bins=_bins(c["bins"], "b"), ign=_bins(c["bins"], "g"),
                ill=_bins(c["bins"], "l")) for c in g["cps"]]
    crs = [dict(n=c["n"], w=c["w"], pct=_pct(c["bins"]), bins=_bins(c["bins"], "b")) for c in g["crs"]]
    d = dict(n=g["n"], w=g["w"], cps=cps, crs=crs, pct=_mean([(c["pct"], c["w"]) for c in cps + crs]))
    d["insts"] = [] if inst else [ref_cg(i, True) for i in g["insts"]]
    return d


def ref_report(tree):
    cgs = [ref_cg(g) for i in tree["insts"] for g in i["cgs"]]
    return dict(cgs=cgs, pct=_mean([(g["pct"], g["w"]) for g in cgs]))


def close(exp, got, what):
    if isinstance(got, bool) or not isinstance(got, (int, float)) or not abs(F(got) - exp) <= F(1, 10**7):
        raise Violation("%s is %r, expected %s (%.9f)" % (what, got, exp, float(exp)))


def plain(v):
    return int(v)


def _obj_bins(bs):
    return [dict(n=b.name, goal=plain(b.goal), count=plain(b.count), hit=b.hit) for b in bs]


def _map_ok(m, lst, key, what):
    if set(m.keys()) != set(key(x) for x in lst):
        raise Violation("%s: by-name map has keys %r, list has %r" % (what, sorted(m.keys()), sorted(key(x) for x in lst)))
    for k, v in m.items():
        if not any(x is v and key(x) == k for x in lst):
            raise Violation("%s: by-name map entry %r is not that element of the list" % (what, k))


def check_cg(e, g, path):
    path += "/" + e["n"]
    S.require(g.name == e["n"], "covergroup name %r, expected %r" % (g.name, e["n"]))
    S.require(g.instname == e["n"], "covergroup instance name %r, expected %r" % (g.instname, e["n"]))
    S.require(g.weight == e["w"], "%s: weight %r, expected %r" % (path, g.weight, e["w"]))
    for what, es, gs in (("coverpoints", e["cps"], g.coverpoints), ("crosses", e["crs"], g.crosses)):
        S.require([x["n"] for x in es] == [x.name for x in gs], "%s: %s %r, expected %r" % (
            path, what, [x.name for x in gs], [x["n"] for x in es]))
        for x, y in zip(es, gs):
            p = "%s/%s" % (path, x["n"])
            S.require(x["w"] == y.weight, "%s: weight %r, expected %r" % (p, y.weight, x["w"]))
            S.require_equal(x["bins"], _obj_bins(y.bins), p + " bins")
            if what == "coverpoints":
                S.require_equal(x["ign"], _obj_bins(y.ignore_bins), p + " ignore bins")
                S.require_equal(x["ill"], _obj_bins(y.illegal_bins), p + " illegal bins")
            close(x["pct"], y.coverage, p + " percentage")
    S.require(len(e["insts"]) == len(g.covergroups), "%s: %d instances, expected %d" % (path, len(g.covergroups), len(e["insts"])))
    for x, y in zip(e["insts"], g.covergroups):
        check_cg(x, y, path)
    _map_ok(g.coverpoint_m, g.coverpoints, lambda x: x.name, path + " coverpoints")
    _map_ok(g.cross_m, g.crosses, lambda x: x.name, path + " crosses")
    _map_ok(g.covergroup_m, g.covergroups, lambda x: x.instname, path + " instances")
    close(e["pct"], g.coverage, path + " percentage")


def check_report(ref, rep):
    S.require(len(ref["cgs"]) == len(rep.covergroups), "report has covergroups %r, expected %r" % (
        [g.name for g in rep.covergroups], [g["n"] for g in ref["cgs"]]))
    for e, g in zip(ref["cgs"], rep.covergroups):
        check_cg(e, g, "")
    _map_ok(rep.covergroup_m, rep.covergroups, lambda x: x.instname, "report covergroups")
    close(ref["pct"], rep.coverage, "overall percentage")
