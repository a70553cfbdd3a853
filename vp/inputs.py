"""Input files for commands, made from specs without using the writers under test where possible."""
import gzip
import json
import os
from . import gen, spec as S, yamlutil as Y, foreign

OPT = gen.Opt(names=gen.line_names, empty=False, cross_kinds=False, big=False, twins=True)
XOPT = gen.Opt(names=gen.line_names, empty=False, big=False, twins=True, bare_crs=True)
CARRIERS = ["lib", "foreign", "gz1", "gz9", "lib16"]


def yaml_doc(spec):
    """YAML document of a spec: all covergroups of all instances, named instance-dot-covergroup."""
    cgs = []
    for i in spec["insts"]:
        for g in i["cgs"]:
            insts = []
            for c in g["insts"] or [dict(n=g["n"], cps=g["cps"], crs=g["crs"])]:
                cps = []
                for p in c["cps"]:
                    d = dict(name=p["n"], atleast=p["al"], bins=[])
                    for k in "bgl":
                        bl = [dict(name=b[0], count=b[2]) for b in p["bins"] if b[1] == k]
                        if bl or k == "b":
                            d[Y.KEY[k]] = bl
                    cps.append(d)
                crs = [dict(name=x["n"], atleast=x["al"], coverpoints=list(x["cps"]), bins=[dict(name=b[0], count=b[2]) for b in x["bins"]])
                       for x in c["crs"]]
                d = dict(name=c["n"], coverpoints=cps)
                if crs:
                    d["crosses"] = crs
                insts.append(d)
            cgs.append(dict(name="%s\u00b7%s" % (i["n"], g["n"]), weight=g["w"], instances=insts))
    return dict(coverage=dict(covergroups=cgs))


def yaml_bytes(spec, sty=None):
    return Y.render(yaml_doc(spec), sty or dict(kind="json", rev=False, indent=1, docstart=False, comments=False)).encode("utf-8")


def xml_text(spec):
    """Written by the library's writer (C01 decides that this is faithful)."""
    from . import xmlutil as X
    return X.write_text(S.build(spec))


def foreign_text(spec, lex):
    """Rendered without the library. Type-only covergroups become one instance of the type's name."""
    sp = dict(insts=[dict(i, cgs=[dict(g, insts=g["insts"] or [dict(n=g["n"], w=g["w"], cps=g["cps"], crs=g["crs"])]) for g in i["cgs"]])
                     for i in spec["insts"]])
    for i in sp["insts"]:
        for g in i["cgs"]:
            g.update(gen.sum_specs(g["insts"]))
    return foreign.render(dict(db=sp, ns="none", lex=lex, group=False, noise=0, hist=[["h", True, 0]]))


def xml_input(spec, carrier, lex):
    """-> (bytes, tree a reader must produce)"""
    if carrier == "foreign":
        t = foreign_text(spec, lex)
        return t[0].encode("utf-8"), t[1]
    return xml_bytes(spec, carrier), S.xml_view(S.tree_of(spec))


def xml_bytes(spec, carrier="lib", lex=0):
    if carrier == "foreign":
        return foreign_text(spec, lex)[0].encode("utf-8")
    t = xml_text(spec)
    if carrier == "lib16":
        from lxml import etree
        return etree.tostring(etree.fromstring(t.encode("utf-8")), encoding="UTF-16", xml_declaration=True)
    b = t.encode("utf-8")
    if carrier.startswith("gz"):
        return gzip.compress(b, int(carrier[2:]), mtime=0)
    return b


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def slurp(path):
    with open(path, "rb") as f:
        return f.read()
