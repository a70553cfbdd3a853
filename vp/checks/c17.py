"""C17 The carrier of an XML document does not affect what is read."""
import gzip
import io
import json
import os
import subprocess
import sys
import zlib
from hypothesis import strategies as st
from ..core import limit_cpu, Facet, Violation, HarnessError, VERIF
from .. import gen, spec as S, yamlutil as Y, xmlutil as X, inputs as I, foreign, scratch, carriers as C

UNI = st.one_of(gen.line_names, st.sampled_from(["\u00e9\u00fc", "\u65e5\u672c", "\u20ac", "na\u00efve", "\u0416", "\U0001d49c", "\u00ff", "x\u2028y", "a\u0301"]))
OPT = gen.Opt(names=UNI, type_only=False, type_sum=True, big=False, max_insts=2, max_cgs=2, twins=True)
YOPT = gen.Opt(names=UNI, empty=False, cross_kinds=False, big=False, max_insts=2, max_cgs=2)


@st.composite
def cases(draw):
    return dict(doc=draw(foreign.case(OPT)), enc=draw(st.sampled_from(C.ENCODINGS)), level=draw(st.integers(0, 9)), members=draw(st.integers(1, 3)),
                pad=draw(st.sampled_from([0, 0, 0, 5000, 70000])), sel=draw(st.integers(0, 99)),
                flags=draw(st.one_of(st.sampled_from([0, 8]), st.integers(0, 1023))))


def gz_bytes(data, level, members, flags=0):
    """gzip, possibly of several members (as made by concatenating gzip files)."""
    k = max(1, len(data) // members)
    parts = [data[i:i + k] for i in range(0, len(data), k)]
    return b"".join(header(gzip.compress(p, level, mtime=0), flags if i == 0 else flags >> 5) for i, p in enumerate(parts))


def header(member, flags):
    """The same member with optional fields in its header (RFC 1952): text flag, header CRC, extra field, name, comment."""
    flags &= 31
    h = bytearray(member[:10])
    h[3] = flags
    h[4:8] = (1600000000 if flags else 0).to_bytes(4, "little")
    h[9] = 3 if flags & 1 else 255
    if flags & 4:
        h += (6).to_bytes(2, "little") + b"VP\x02\x00\x1f\x8b"
    if flags & 8:
        h += b"d\xe9 oc.xml\0"
    if flags & 16:
        h += b"a comment\0"
    if flags & 2:
        h += (zlib.crc32(bytes(h)) & 0xffff).to_bytes(2, "little")
    return bytes(h) + member[10:]


def norm(t):
    return S.by_kind(t)


def check(c):
    text, exp, hist = foreign.render(c["doc"])
    if c["pad"]:
        text += "<!-- %s -->" % ("\u00e9x" * (c["pad"] // 2))
    data = C.encode(text, c["enc"])
    with scratch.Dir() as d:
        path, gz = os.path.join(d, "d\u00e9 oc.xml"), os.path.join(d, "doc.bin")
        I.put(path, data)
        I.put(gz, gz_bytes(data, c["level"], c["members"], c.get("flags", 0)))
        res = C.read_all(path, gz, data, data.decode(C.CODEC[c["enc"]]), S.snapshot, sel=c["sel"], codec=C.CODEC[c["enc"]])
        tree = None
        from ucis.xml.xml_factory import XmlFactory
        S.require_equal(norm(exp), norm(S.extract(XmlFactory.read(path))), "coverage read from a file encoded %s" % c["enc"])
        for what, t in res:
            if tree is None:
                tree = t
            S.require_equal(tree, t, what + " (encoding %s)" % c["enc"])
        if c["enc"] == "utf-8" and c["sel"] % 2:
            # the same document declared otherwise
            p2 = os.path.join(d, "again.xml")
            for enc in C.ENCODINGS:
                I.put(p2, C.encode(text, enc))
                S.require_equal(tree, S.snapshot(C.watch(lambda: XmlFactory.read(p2), "read")), "document encoded " + enc)


# ------------------------------------------------------------------ failing reads release what they opened
@st.composite
def bad_cases(draw):
    return dict(doc=draw(foreign.case(gen.Opt(names=gen.simple_names, type_only=False, type_sum=True, big=False, max_insts=1, max_cgs=1))),
                how=draw(st.sampled_from(["trunc", "empty", "schema", "garbage", "missing", "gz_trunc", "dangling", "dangling"])), pos=draw(st.integers(0, 1000)))


DANGLING = """<UCIS ucisVersion="1.0" writtenBy="w" writtenTime="2020-01-01T00:00:00"><sourceFiles fileName="f" id="1"/>
<historyNodes historyNodeId="0" logicalName="t" testStatus="true" date="2020-01-01T00:00:00" toolCategory="c" ucisVersion="1.0" vendorId="v" vendorTool="t" vendorToolVersion="1"/>
<instanceCoverages name="i" key="0" moduleName="m"><id file="1" line="1" inlineCount="1"/><covergroupCoverage><cgInstance name="ci" key="0"><options/>
<cgId cgName="g" moduleName="m"><cginstSourceId file="1" line="1" inlineCount="1"/><cgSourceId file="1" line="1" inlineCount="1"/></cgId>
<coverpoint name="p" key="0"><options/><coverpointBin name="b" type="bins" key="0"><range from="0" to="1"><contents coverageCount="1"/></range></coverpointBin></coverpoint>
<cross name="x" key="0"><options/><crossExpr>nowhere</crossExpr><crossBin name="b" key="0"><index>0</index><contents coverageCount="1"/></crossBin></cross>
</cgInstance></covergroupCoverage></instanceCoverages></UCIS>"""


def check_bad(c):
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml.db_format_if_xml import DbFormatIfXml
    from ucis.xml import validate_ucis_xml
    data = foreign.render(c["doc"])[0].encode("utf-8")
    if c["how"] == "trunc":
        data = data[:c["pos"] * (len(data.rstrip()) - 1) // 1001]
    elif c["how"] == "empty":
        data = b""
    elif c["how"] == "schema":
        data = b"<UCIS/>"
    elif c["how"] == "dangling":
        data = DANGLING.encode("utf-8")
        if not X.is_valid(data):
            raise HarnessError("document with a dangling cross is not schema-valid")
    elif c["how"] == "garbage":
        data = bytes(range(256))
    with scratch.Dir() as d:
        path, gz = os.path.join(d, "x.xml"), os.path.join(d, "x.gz")
        if c["how"] != "missing":
            I.put(path, data)
            z = gzip.compress(data, mtime=0)
            I.put(gz, z[:12 + c["pos"] * (len(z) - 14) // 1001] if c["how"] == "gz_trunc" else z)
        todo = [(n, f, mk) for n, mk in C.carriers(path, gz, data, None) for f in (XmlFactory.read, DbFormatIfXml().read, validate_ucis_xml)
                if not (c["how"] in ("missing",) and n not in ("file name", "gzip file name"))]
        for n, fn, mk in todo:
            if n == "gzip file name" and fn is validate_ucis_xml:
                continue
            if c["how"] == "gz_trunc" and "gzip" not in n:
                continue
            if c["how"] == "dangling" and fn is validate_ucis_xml:
                continue
            what = "%s of an invalid document (%s) given as %s" % (getattr(fn, "__qualname__", fn), c["how"], n)

            kept = []

            def go():
                arg = mk()
                try:
                    fn(arg)
                except Exception as e:
                    ok = True
                    kept.append(e)      # with its traceback, and the frames of the failed call
                else:
                    ok = False
                if not isinstance(arg, str):
                    S.require(not arg.closed, what + " closed the caller's file")
                    arg.close()
                return ok
            S.require(C.watch(go, what), what + " did not raise")


# ------------------------------------------------------------------ other locales
@st.composite
def loc_cases(draw):
    n = draw(st.integers(1, 3))
    return dict(docs=[dict(doc=draw(foreign.case(OPT)), enc=draw(st.sampled_from(C.ENCODINGS)), yspec=draw(gen.db_spec(YOPT))) for _ in range(n)],
                loc=draw(st.sampled_from(["C", "C", "POSIX", "C.UTF-8", "none"])), utf8=draw(st.sampled_from(["0", "0", "1"])))


def check_loc(c):
    with scratch.Dir() as top:
        req, exps, yexps = [], [], []
        from ucis.yaml.yaml_reader import YamlReader
        for k, x in enumerate(c["docs"]):
            d = os.path.join(top, "d%d" % k)
            os.mkdir(d)
            text, exp, _ = foreign.render(x["doc"])
            data = C.encode(text, x["enc"])
            I.put(os.path.join(d, "doc.xml"), data)
            I.put(os.path.join(d, "doc.gz"), gzip.compress(data, mtime=0))
            doc = I.yaml_doc(x["yspec"])
            I.put(os.path.join(d, "doc.yml"), Y.js(doc).encode("utf-8"))
            req.append([d, x["enc"] != "utf-8"])
            exps.append(exp)
            yexps.append(Y.reference(doc))
        e = {k: v for k, v in os.environ.items() if not k.startswith("LC_") and k not in ("LANG", "LANGUAGE", "PYTHONUTF8", "PYTHONIOENCODING")}
        if c["loc"] != "none":
            e["LC_ALL"] = c["loc"]
        e.update(PYTHONUTF8=c["utf8"], PYTHONCOERCECLOCALE="0", VERIF_REEXEC="1",
                 PYTHONPATH=os.pathsep.join([os.environ["PYTHONPATH"], VERIF] + [p for p in sys.path if "veriftools" in p]))
        p = subprocess.run([sys.executable, "-m", "vp.carriers"], cwd=VERIF, env=e, input=json.dumps(req).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, preexec_fn=limit_cpu)
        if p.returncode != 0:
            raise Violation("reading fails under LC_ALL=%s: %s" % (c["loc"], p.stderr.decode("utf-8", "replace")[-1500:]))
        for r, exp, yexp in zip(json.loads(p.stdout), exps, yexps):
            what = "under LC_ALL=%s PYTHONUTF8=%s: " % (c["loc"], c["utf8"])
            if "bad" in r:
                raise Violation(what + r["bad"])
            for n, t in r["ok"]:
                if n.startswith("UNORDERED"):
                    S.require_equal(S.unordered(exp), S.unordered(t), what + n)
                else:
                    S.require_equal(norm(exp), norm(t), what + n)
            cgs = [g for i in r["yaml"]["insts"] for g in i["cgs"]]
            for g in cgs:
                for i in g["insts"]:
                    i.pop("w")
            S.require_equal(yexp, Y.by_kind(cgs), what + "YAML file")


# ------------------------------------------------------------------ LZ4 files
@st.composite
def lz4_cases(draw):
    return dict(docs=[dict(doc=draw(foreign.case(OPT)), enc=draw(st.sampled_from(C.ENCODINGS)), fault=draw(st.sampled_from([None, None, None, "trunc", "plain"])),
                           pos=draw(st.integers(0, 1000))) for _ in range(draw(st.integers(2, 8)))],
                lz4=draw(st.sampled_from(["ok", "ok", "ok", "absent"])))


def check_lz4(c):
    """With the lz4 package (a stand-in: the format's magic number, another compression) LZ4 files are read
    like the document they hold; without it, or damaged, reading them raises."""
    stubs = os.path.join(VERIF, "vp", "stubs")
    sys.path.insert(0, os.path.join(stubs, "ok"))
    try:
        from lz4 import frame
    finally:
        sys.path.remove(os.path.join(stubs, "ok"))
        for m in [m for m in sys.modules if m.split(".")[0] == "lz4"]:
            del sys.modules[m]
    with scratch.Dir() as d:
        names, exps = [], []
        for k, x in enumerate(c["docs"]):
            text, exp, _ = foreign.render(x["doc"])
            data = frame.compress(C.encode(text, x["enc"]))
            if x["fault"] == "trunc":
                data = data[:4 + x["pos"] * (len(data) - 9) // 1001]
            elif x["fault"] == "plain":
                data = data[:4] + text.encode("utf-8")
            names.append(os.path.join(d, "doc%d%s" % (k, [".xml", ".lz4", ".gz", ""][x["pos"] % 4])))
            I.put(names[-1], data)
            exps.append(exp if x["fault"] is None and c["lz4"] == "ok" else None)
        e = dict(os.environ, VERIF_REEXEC="1", PYTHONPATH=os.pathsep.join([os.path.join(stubs, c["lz4"]), os.environ["PYTHONPATH"], VERIF] + [p for p in sys.path if "veriftools" in p]))
        p = subprocess.run([sys.executable, "-m", "vp.lz4run"], cwd=VERIF, env=e, input=json.dumps(names).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, preexec_fn=limit_cpu)
        if p.returncode != 0:
            raise Violation("reading LZ4 files fails: " + p.stderr.decode("utf-8", "replace")[-1500:])
        for x, exp, rs in zip(c["docs"], exps, json.loads(p.stdout)):
            what = "LZ4 file (package %s, %s)" % (c["lz4"], x["fault"] or "undamaged")
            if isinstance(rs, dict):
                raise Violation(what + ": " + rs["bad"])
            for r in rs:
                if exp is None:
                    S.require("err" in r, what + " was read without an error")
                else:
                    S.require("ok" in r, what + ": " + str(r.get("err")))
                    S.require_equal(norm(exp), norm(r["ok"]), what)


def nonascii(c):
    return not json.dumps(c, ensure_ascii=False).isascii()


FACETS = [Facet("carriers", cases, check, nonascii, lambda c: foreign.labels(c["doc"]) | {"enc=" + c["enc"], "gzlevel=%d" % c["level"], "members=%d" % c["members"]},
                quick=240, rule="documents read through every carrier and entry point; non-trivial: with non-ASCII characters"),
          Facet("failing", bad_cases, check_bad, None, lambda c: {"how=" + c["how"]}, quick=160, rule="invalid documents through every carrier: what was opened is closed; all count"),
          Facet("locales", loc_cases, check_loc, nonascii, lambda c: {"loc=" + c["loc"], "utf8=" + c["utf8"]}, quick=64, thorough=1500,
                rule="documents read and written by processes under other locales; non-trivial: with non-ASCII characters"),
          Facet("lz4", lz4_cases, check_lz4, nonascii, lambda c: {"package=" + c["lz4"]} | {"fault=%s" % x["fault"] for x in c["docs"]}, quick=40, thorough=1000,
                rule="documents in LZ4 files read by processes with and without an (emulated) lz4 package; non-trivial: with non-ASCII characters")]
ASSUMPTIONS = ["LZ4 compression is emulated (the package is not installed here): the real magic number, zlib behind it",
               "file objects are seekable and positioned at the start"]
