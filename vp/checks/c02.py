"""C02 XML output is schema-valid, self-consistent and stable."""
import copy
from hypothesis import strategies as st
from ..core import Facet, Violation
from .. import gen, spec as S, xmlutil as X

OPT = gen.Opt(names=gen.xml_names, src=True, twins=True, iw=True, dup_cg=True, bare_crs=True)
NULLF = "__null__file__"
NUM = ("simtime", "cpuTime", "cost", "sameTests")


@st.composite
def cases(draw):
    d = draw(gen.db_spec(OPT))
    d["hist"] = draw(gen.histories)
    return dict(db=d)


def files_of(spec):
    out = set()

    def add(x, key="src"):
        s = x.get(key)
        if s and s[0] is not None:
            out.add(s[0])
    dus = set()
    for i in spec["insts"]:
        add(i)
        if i["du"] not in dus:      # a design unit carries the source info of the first instance naming it
            dus.add(i["du"])
            add(i, "dusrc" if "dusrc" in i else "src")
        for g in i["cgs"]:
            add(g)
            for p in [g] + g["insts"]:
                add(p)
                for c in p["cps"] + p["crs"]:
                    add(c)
    return out


def parts(doc, has_hist):
    root = doc.getroot()
    h = [X.plain(e) for e in root if e.tag == "historyNodes"]
    if not has_hist:
        for x in h:
            x[1].pop("date", None)      # placeholder node: stamped with the time of writing
    for x in h:
        for k in NUM:
            if k in x[1]:
                x[1][k] = float(x[1][k])
    return dict(src=[X.plain(e) for e in root if e.tag == "sourceFiles"], hist=h,
                inst=[X.plain(e) for e in root if e.tag == "instanceCoverages"],
                attrs={k: v for k, v in root.attrib.items() if k not in ("writtenTime",)})


def check_files(doc, spec, what):
    ids, names = [], []
    for e in doc.getroot():
        if e.tag == "sourceFiles":
            ids.append(e.get("id"))
            names.append(e.get("fileName"))
    S.require(len(set(int(i) for i in ids)) == len(ids), "%s: file ids not unique: %r" % (what, ids))
    S.require(len(set(names)) == len(names), "%s: a source file is listed twice: %r" % (what, names))
    if spec is not None:
        ref = files_of(spec)
        S.require(ref <= set(names), "%s: source files %r are not listed" % (what, sorted(ref - set(names))))
        S.require(set(names) <= ref | {NULLF}, "%s: lists files the database does not reference: %r" % (
            what, sorted(set(names) - ref)))
    known = set(int(i) for i in ids)
    for e in doc.getroot().iter():
        if isinstance(e.tag, str) and e.tag in ("id", "cginstSourceId", "cgSourceId") and e.get("file") is not None:
            S.require(int(e.get("file")) in known, "%s: file id %s used but not listed" % (what, e.get("file")))


def check(c):
    spec = c["db"]
    has = bool(spec["hist"])
    db = S.build(spec)
    t1 = X.write_text(db)
    d1 = X.require_valid(t1, "written document")
    check_files(d1, spec, "written document")
    t1b = X.write_text(db)
    S.require_equal(parts(d1, has), parts(X.require_valid(t1b, "second document"), has), "second writing of the same database")
    db2 = X.read_text(t1)
    t2 = X.write_text(db2)
    d2 = X.require_valid(t2, "re-written document")
    check_files(d2, None, "re-written document")
    p1, p2 = parts(d1, has), parts(d2, has)
    for k in ("inst", "hist"):
        S.require_equal(p1[k], p2[k], "document re-written after reading (%s)" % k)
    t3 = X.write_text(X.read_text(t2))
    p3 = parts(X.require_valid(t3, "third document"), True)
    S.require_equal(parts(d2, True), p3, "third generation document")


FACETS = [
    Facet("write", cases, check, nontrivial=lambda c: gen.spec_nontrivial(c["db"]),
          labels=lambda c: gen.spec_labels(c["db"]) | {"hist=%d" % min(3, len(c["db"]["hist"])),
                                                       "files=%d" % min(3, len(files_of(c["db"])))},
          quick=2700, rule="database specs with source info and history; non-trivial: at least two bins"),
]
ASSUMPTIONS = ["schema pinned at vp/data/ucis.xsd (copy of the repository's)",
               "documents compared as parsed data; the write timestamp and the date of the placeholder history node are ignored"]
