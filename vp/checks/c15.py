"""C15 Command-line results equal the composition of the library operations."""
import gzip
import io
import json
import os
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Facet, Violation
from .. import gen, spec as S, yamlutil as Y, refreport as R, inputs as I, cli, scratch
from .c11 import expected, compare
from .c12 import check_json, nodup

NAMES = ["in.xml", "a b.xml", "\u00e9.dat", "x", "sub/in.xml", "in.yml.gz", "in.tar", "100%.xml", "a+b.xml", "run1+.xml", ".hid", "a=b", "in#1.xml", "a,b.xml", "IN.XML",
         "cov.yml", "cov.yaml", "x.json", "c.ucis", "m.txt", "db.xml.gz",
         "r[1].xml", "r1.xml", "r*.xml", "~in.xml", "$HOME.xml", "@in.xml", "{0}.xml", "in.xml:2", "-"]
OUTS = ["out.xml", "o ut", "sub/out.dat", "\u00fc%s.xml", "o+1.xml", "out.gz", "a=b.o", "r.json", "o.txt", "o.yml", "o.yaml", "o.xml.gz", "r.html", "noext", "~o.xml", "$o.xml", "%d.xml", "{}.xml", "o*.xml", "-"]


@st.composite
def cases(draw, hi=3):
    cmd = draw(st.sampled_from(["convert", "merge", "merge", "report", "report"]))
    fmt = draw(st.sampled_from(["xml", "xml", "yaml"]))
    n = (draw(st.integers(10, 13)) if hi > 2 and draw(st.integers(0, 19)) == 19 else draw(st.integers(1, hi))) if cmd == "merge" else 1
    if fmt == "yaml":
        srcs = draw(gen.source_list(I.OPT, n, n, dups=False))
    elif cmd == "merge":
        srcs = draw(gen.source_list(I.XOPT, n, n, dups=False))
    else:
        srcs = [draw(gen.db_spec(I.XOPT))]
    srcs = [s for s in srcs if s["insts"]]
    if not srcs:
        srcs = [dict(insts=[dict(n="i", du="d", cgs=[])])]
    files = []
    for s in srcs:
        if fmt == "yaml":
            files.append(dict(spec=s, sty=draw(Y.styles)))
        else:
            files.append(dict(spec=s, car=draw(st.sampled_from(I.CARRIERS)), lex=draw(st.integers(0, 1000))))
    return dict(cmd=cmd, fmt=fmt, files=files, names=draw(st.lists(st.sampled_from(NAMES), min_size=len(files), max_size=len(files), unique=True)),
                explicit=draw(st.booleans()) or fmt == "yaml", ofmt=draw(st.booleans()), long=draw(st.integers(0, 7)), order=draw(st.integers(0, 5)),
                rfmt=draw(st.sampled_from([None, "txt", "json"])), out=draw(st.sampled_from(OUTS)), pre=draw(st.integers(0, 3)),
                repeat=draw(st.integers(0, 5)) == 0, alias=draw(st.integers(0, 5)), abs=draw(st.booleans()))


def arg(flag_short, flag_long, val, how):
    how %= 4
    if how == 0:
        return [flag_short, val]
    if how == 1:
        return [flag_long, val]
    if how == 2:
        return ["%s=%s" % (flag_long, val)]
    return [flag_short, val]


MARK = "<!-- verif-marker -->\n"


def mark(data):
    """The same document with a comment at its end, by which a file not rewritten is known."""
    if data[:2] == b"\x1f\x8b":
        return gzip.compress(mark(gzip.decompress(data)), 6, mtime=0)
    return data + MARK.encode("utf-16-le" if data[:2] == b"\xff\xfe" else "utf-8")


def read_lib(fmt, path):
    if fmt == "yaml":
        from ucis.yaml.db_format_if_yaml import DbFormatIfYaml
        return DbFormatIfYaml().read(path)
    from ucis.xml.xml_factory import XmlFactory
    return XmlFactory.read(path)


def lib_report(db, rfmt):
    from ucis.report.format_rpt_text import FormatRptText
    from ucis.report.format_rpt_json import FormatRptJson
    o = io.StringIO()
    (FormatRptJson if rfmt == "json" else FormatRptText)().report(db, o, [])
    return o.getvalue()


def norm_report(tree):
    """Order-insensitive exact report of a tree."""
    def pts(l):
        return sorted(([c["n"], c["w"], str(c["pct"]), sorted([b["n"], b["goal"], b["count"], b["hit"]] for b in c["bins"])] for c in l))

    def cg(g):
        return [g["n"], g["w"], str(g["pct"]), pts(g["cps"]), pts(g["crs"]), sorted(cg(i) for i in g["insts"])]
    r = R.ref_report(tree)
    return [str(r["pct"]), sorted(cg(g) for g in r["cgs"])]


def json_norm(text):
    """Order-insensitive view of a JSON report."""
    j = json.loads(text)

    def pct(v):
        return round(v, 6)

    def bins(l):
        return sorted([b["name"], b["goal"], b["count"]] for b in l or [])

    def pts(l):
        return sorted([c["name"], pct(c["coverage"]), bins(c.get("bins")), bins(c.get("ignorebins")), bins(c.get("illegalbins"))] for c in l or [])

    def cg(g):
        return [g["name"], pct(g["coverage"]), pts(g.get("coverpoints")), pts(g.get("crosses")), sorted(cg(i) for i in g.get("covergroups") or [])]
    return [pct(j["coverage"]), sorted(cg(g) for g in j.get("covergroups") or [])]


def alias(d, path, name, how):
    """Another name of a file: a longer path, a symbolic or a hard link in a directory of its own."""
    if how == 1:
        return "./" + name
    if how == 2:
        return os.path.join(d, "sub", "..", name)
    if how in (3, 4):
        a = os.path.join(os.path.dirname(d), "alias")
        (os.symlink if how == 3 else os.link)(path, a)
        return a
    return None


def run_case(c, runner):
    with scratch.Dir() as top:
        d, log = os.path.join(top, "w"), os.path.join(top, "log")
        os.makedirs(os.path.join(d, "sub"))
        os.makedirs(log)
        paths, trees = [], []
        for f, n in zip(c["files"], c["names"]):
            p = os.path.join(d, n)
            if c["fmt"] == "yaml":
                I.put(p, I.yaml_bytes(f["spec"], f["sty"]))
                trees.append(Y.plain(S.extract(read_lib("yaml", p))))
            else:
                data, tree = I.xml_input(f["spec"], f["car"], 0 if c["cmd"] == "merge" else f["lex"])
                I.put(p, mark(data))
                trees.append(tree)
            paths.append(p)
        given = [p if c["abs"] else n for p, n in zip(paths, c["names"])]
        use, tr = list(given), list(trees)
        if c["cmd"] == "merge" and c["repeat"]:
            # the same file once more, maybe by another name
            use.append(alias(d, paths[0], c["names"][0], c.get("alias", 0)) or given[0])
            tr.append(trees[0])
        contents = [I.slurp(p) for p in paths]
        dbs = [read_lib(c["fmt"], p) for p in paths]
        opts = []
        lg = c["long"]
        if c["explicit"]:
            opts.append(arg("-if", "--input-format", c["fmt"], lg))
        to_file = c["cmd"] != "report" or c["pre"] > 0
        outn = c["out"]
        if c["pre"] == 3 and c["cmd"] != "report":
            outn = c["names"][0]              # in place: the output replaces the first input
        outp = os.path.join(d, outn)
        if to_file:
            opts.append(arg("-o", "--out", outp if c["abs"] else outn, lg >> 1))
            if c["pre"] == 2:
                I.put(outp, b"old content, longer than anything\n" * 3000)
        rfmt = "xml"
        if c["cmd"] == "report":
            rfmt = c["rfmt"] or "txt"
            if c["rfmt"]:
                opts.append(arg("-of", "--output-format", c["rfmt"], lg >> 2))
        elif c["ofmt"]:
            opts.append(arg("-of", "--output-format", "xml", lg >> 2))
        if c["order"] & 1:
            opts.reverse()
        o = [x for g in opts for x in g]
        argv = [c["cmd"]] + ((o + use) if c["order"] & 2 else (use + o))
        r = runner(argv, d, log)
        what = "ucis %s" % " ".join(argv)
        S.require(r.code == 0, "%s: %r" % (what, r))
        for p, b in zip(paths, contents):
            if p != outp or not to_file:
                S.require(I.slurp(p) == b, "%s changed its input %s" % (what, p))
        have = sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)
        want = sorted(set(c["names"]) | ({outn} if to_file else set()))
        S.require(have == want, "%s left files %r, expected %r" % (what, have, want))
        if c["cmd"] == "report":
            got = I.slurp(outp) if to_file else r.out
            if to_file:
                S.require(r.out == b"", "%s with an output file printed %r" % (what, r.out[:200]))
            got = got.decode("utf-8")
            S.require_equal(lib_report(dbs[0], rfmt), got, what + " output against the library's report")
            ref = R.ref_report(trees[0])
            from ucis.report.coverage_report_builder import CoverageReportBuilder
            rep = CoverageReportBuilder.build(dbs[0])
            if rfmt == "json":
                check_json(ref, rep, json.loads(got, object_pairs_hook=nodup))
            else:
                compare(expected(ref, rep, False, False, lambda v: "%f%%" % round(v, 2), lambda v: "%f%%" % round(v)), got, what)
            return
        S.require(I.slurp(outp).lstrip()[:1] == b"<", "%s: the output is not an XML document" % what)
        S.require(b"verif-marker" not in I.slurp(outp), "%s: the output is still what was there before" % what)
        out_db = read_lib("xml", outp)
        got = S.extract(out_db)
        S.require_equal(S.unordered(S.xml_view(S.merge_trees(tr))), S.unordered(got), what + ": coverage of the output")
        # composition of library operations
        from ucis.merge.db_merger import DbMerger
        from ucis.mem.mem_factory import MemFactory
        mem = MemFactory.create()
        DbMerger().merge(mem, dbs if len(use) == len(dbs) else dbs + [dbs[0]])
        S.require_equal(json_norm(lib_report(mem, "json")), json_norm(lib_report(out_db, "json")), what + ": report of the output file")
        S.require_equal(S.by_kind(S.xml_view(S.extract(mem))), S.by_kind(got), what + ": output against the merge of the inputs as they were given")
        if c["cmd"] == "convert":
            S.require_equal(json_norm(lib_report(dbs[0], "json")), json_norm(lib_report(out_db, "json")), what + ": report of the converted file")
            S.require_equal(S.by_kind(S.xml_view(trees[0])), S.by_kind(got), what + ": order of the converted coverage")
        S.require(norm_report(S.merge_trees(tr)) == norm_report(got), what + ": report model of the output")


def check(c):
    run_case(c, cli.forked)


def check_real(c):
    def real(argv, cwd, log):
        return cli.real(argv, cwd, dict(PYTHONIOENCODING="utf-8", PYTHONUTF8="1"))
    run_case(c, real)


def labels(c):
    ls = {"cmd=" + c["cmd"], "fmt=" + c["fmt"], "report=%s" % c["rfmt"] if c["cmd"] == "report" else "inputs=%d" % len(c["files"])}
    for f in c["files"]:
        ls.add("carrier=%s" % f.get("car", "yaml"))
    if c["cmd"] != "report":
        ls.add(["fresh_out", "fresh_out", "overwrite", "in_place"][c["pre"]])
    return ls


def nontrivial(c):
    return sum(gen.spec_nontrivial(f["spec"]) for f in c["files"]) > 0


FACETS = [Facet("commands", cases, check, nontrivial, labels, quick=900, thorough=25000,
                rule="command lines over generated input files, run in forked children; non-trivial: an input with at least two bins"),
          Facet("processes", cases, check_real, nontrivial, labels, quick=64, thorough=1600,
                rule="the same as real `python -m ucis` processes")]
ASSUMPTIONS = ["inputs agree where they overlap (C06)", "report output under a UTF-8 locale", "file names do not begin with - or +",
               "the order of merged children is that of the library's merge of the inputs in the order given"]
