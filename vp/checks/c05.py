"""C05 Invalid XML is rejected, never turned into a database."""
import gzip
import io
import os
import random
import tempfile
from lxml import etree
from hypothesis import strategies as st
from ..core import Facet, HarnessError
from .. import gen, spec as S, foreign as F, xmlutil as X

OPT = gen.Opt(names=gen.simple_names, type_only=False, type_sum=True, big=False, max_cgs=2, max_ci=2, max_insts=2)
ELEM_OPS = ["del", "dup", "rename", "swap", "dropattr", "setattr", "addattr", "addchild", "text", "move", "unwrap"]
BYTE_OPS = ["trunc", "flip", "ins", "delb", "append"]
TAGS = ["UCIS", "sourceFiles", "historyNodes", "instanceCoverages", "id", "covergroupCoverage", "cgInstance", "cgId", "options",
        "coverpoint", "coverpointBin", "range", "sequence", "contents", "cross", "crossExpr", "crossBin", "index", "userAttr",
        "bogus", "Coverpoint", "cginstSourceId", "cgSourceId", "seqValue"]
VALUES = ["", "-1", "abc", "1.5", "0", "1e3", "true", "maybe", "99999999999999999999", " ", "2021-13-01T00:00:00", "today",
          "bins", "weird", "0x10", "١"]
ATTRS = ["name", "key", "coverageCount", "file", "line", "type", "weight", "bogus", "date", "at_least", "from", "cgName"]
SIZES = st.integers(0, 59).flatmap(lambda i: st.tuples(st.sampled_from(["comment", "copies"]), st.sampled_from([9000, 70000, 300000, 1200000]), st.integers(0, 9)) if i == 59 else st.none())
CARRIERS = ["file", "gzip", "bytes", "text", "rgy"]


@st.composite
def cases(draw):
    c = draw(F.case(OPT))
    c["noise"] = min(c["noise"], 1)
    ops = draw(st.lists(st.tuples(st.sampled_from(ELEM_OPS), st.integers(0, 10**6), st.integers(0, 10**6)), min_size=1, max_size=2))
    return dict(doc=c, ops=ops, via=draw(st.sampled_from(CARRIERS)), size=draw(SIZES))


@st.composite
def byte_cases(draw):
    c = draw(F.case(OPT))
    ops = draw(st.lists(st.tuples(st.sampled_from(BYTE_OPS), st.integers(0, 10**6), st.integers(0, 255)), min_size=1, max_size=2))
    return dict(doc=c, ops=ops, via=draw(st.sampled_from(["file", "gzip", "gzip_raw", "bytes", "rgy"])), size=draw(SIZES))


@st.composite
def dangling(draw):
    c = draw(F.case(OPT))
    return dict(doc=c, pick=draw(st.integers(0, 1000)), name=draw(st.sampled_from(["nope", "", "cg", "a b", "CP1", " "])),
                via=draw(st.sampled_from(CARRIERS)), size=draw(SIZES))


def enlarge(root, size):
    """A bigger document of the same validity: a long comment, or many copies of an instance."""
    if not size:
        return
    how, n, k = size
    els = [e for e in root.iter() if isinstance(e.tag, str) and e.getparent() is not None]
    if how == "comment":
        root.insert([0, len(root)][k % 2], etree.Comment("x" * n))
    else:
        inst = [e for e in els if e.tag == "instanceCoverages"]
        if inst:
            e = inst[k % len(inst)]
            m = max(1, min(400, n // max(1, len(etree.tostring(e)))))
            for _ in range(m):
                e.addnext(etree.fromstring(etree.tostring(e, with_tail=False)))


def mutate(root, op, a, b):
    els = [e for e in root.iter() if isinstance(e.tag, str)]
    e = els[a % len(els)]
    p = e.getparent()
    if op == "del":
        if p is not None:
            p.remove(e)
    elif op == "dup":
        if p is not None:
            p.insert(p.index(e), etree.fromstring(etree.tostring(e, with_tail=False)))
    elif op == "rename":
        e.tag = TAGS[b % len(TAGS)]
    elif op == "swap":
        if p is not None and len(p) > 1:
            o = p[b % len(p)]
            i, j = p.index(e), p.index(o)
            if i != j:
                k = list(p)
                k[i], k[j] = k[j], k[i]
                p[:] = k
    elif op == "dropattr":
        ks = sorted(e.attrib)
        if ks:
            del e.attrib[ks[b % len(ks)]]
    elif op == "setattr":
        ks = sorted(e.attrib)
        if ks:
            e.set(ks[b % len(ks)], VALUES[(b // 7) % len(VALUES)])
    elif op == "addattr":
        e.set(ATTRS[b % len(ATTRS)], VALUES[(b // 17) % len(VALUES)])
    elif op == "addchild":
        e.append(etree.Element(TAGS[b % len(TAGS)]))
    elif op == "text":
        e.text = (e.text or "") + ["x", "1", "<", " "][b % 4]
    elif op == "move":
        t = els[b % len(els)]
        if p is not None and t is not e and e not in list(t.iterancestors()):
            t.append(e)
    elif op == "unwrap":
        if p is not None:
            i = p.index(e)
            for k in reversed(list(e)):
                p.insert(i, k)
            p.remove(e)


def content(data):
    """Independent view of what a file's bytes hold; None if not decompressible."""
    if data[:2] == b"\x1f\x8b":
        try:
            return gzip.decompress(data)
        except Exception:
            return None
    return data


def attempt(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", e)


_LAST = [None]      # verdict on the document of the last case: what makes it non-trivial is known only after it was built


def judge(data, via, named=True):
    """Feeds the bytes to the real entry points and compares with the independent verdict."""
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml import validate_ucis_xml
    from ucis.xml.xml_reader import XmlReader
    with tempfile.TemporaryDirectory(prefix="vp05") as td:
        fn = os.path.join(td, "d.xml")
        raw = gzip.compress(data, 1) if via == "gzip" else data
        with open(fn, "wb") as f:
            f.write(raw)
        body = content(raw) if via in ("file", "gzip", "gzip_raw", "rgy") else data
        ok = _LAST[0] = body is not None and X.is_valid(body)
        if via == "text":
            try:
                txt = data.decode("utf-8")
            except UnicodeDecodeError:
                raise HarnessError("text carrier for undecodable bytes")
            # what the text says about an encoding makes it neither valid nor invalid
            if not txt.startswith("<?xml"):
                txt = ["", "", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-16' ?>"][len(txt) % 4] + txt
            r = attempt(lambda: XmlFactory.read(io.StringIO(txt)))
            v = attempt(lambda: validate_ucis_xml(io.StringIO(txt)))
        elif via == "bytes":
            r = attempt(lambda: XmlFactory.read(io.BytesIO(data)))
            v = attempt(lambda: XmlReader.validate(io.BytesIO(data)))
        elif via == "rgy":
            from ucis.rgy.format_rgy import FormatRgy
            r = attempt(lambda: FormatRgy.inst().getDatabaseDesc("xml").fmt_if().read(fn))
            v = attempt(lambda: validate_ucis_xml(fn)) if raw[:2] != b"\x1f\x8b" else None
        else:
            r = attempt(lambda: XmlFactory.read(fn))
            v = attempt(lambda: validate_ucis_xml(fn)) if raw[:2] != b"\x1f\x8b" else None
    if not ok:
        S.require(r[0] == "raised", "an invalid document (%s) was read as a database %r" % (via, r[1]))
    if v is not None:
        if ok:
            S.require(v[0] == "ok", "validation rejects a schema-valid document: %r" % (v[1],))
            S.require(v[1] in (True, None), "validation of a schema-valid document returned %r" % (v[1],))
        else:
            S.require(v[0] == "raised", "validation accepts an invalid document")
    return ok


def check(c):
    _LAST[0] = None
    text, _, _ = F.render(c["doc"])
    root = X.parse(text).getroot()
    enlarge(root, c["size"])
    for op, a, b in c["ops"]:
        mutate(root, op, a, b)
    judge(etree.tostring(root, encoding="utf-8"), c["via"])


def check_bytes(c):
    _LAST[0] = None
    text, _, _ = F.render(c["doc"])
    if c["size"]:
        root = X.parse(text).getroot()
        enlarge(root, c["size"])
        text = etree.tostring(root, encoding="unicode")
    data = bytearray(text.encode("utf-8"))
    via = c["via"]
    if via == "gzip_raw":
        data = bytearray(gzip.compress(bytes(data), 6, mtime=0))
    for op, pos, val in c["ops"]:
        n = len(data)
        if not n:
            break
        p = pos % n
        if op == "trunc":
            # half the time close to the end
            p = n - 1 - (pos // 2) % min(n, 40) if pos % 2 else p
            del data[p:]
        elif op == "flip":
            data[p] = val
        elif op == "ins":
            data.insert(p, val)
        elif op == "delb":
            del data[p]
        elif op == "append":
            data += bytes([val]) * (1 + pos % 3)
    data = bytes(data)
    if data[:4] == b"\x04\x22\x4d\x18":
        return
    judge(data, via)


def check_dangling(c):
    from ucis.xml.xml_factory import XmlFactory
    text, _, _ = F.render(c["doc"])
    root = X.parse(text).getroot()
    es = [e for e in root.iter("crossExpr")]
    if not es:
        return
    e = es[c["pick"] % len(es)]
    have = set(cp.get("name") for cp in e.getparent().getparent().findall("coverpoint"))
    if c["name"] in have or c["name"].strip() in have:
        return
    for k in list(e):
        e.remove(k)
    e.text = c["name"]
    enlarge(root, c["size"])
    data = etree.tostring(root, encoding="utf-8")
    with tempfile.TemporaryDirectory(prefix="vp05") as td:
        fn = os.path.join(td, "d.xml")
        with open(fn, "wb") as f:
            f.write(gzip.compress(data) if c["via"] == "gzip" else data)
        if c["via"] == "text":
            r = attempt(lambda: XmlFactory.read(io.StringIO(data.decode("utf-8"))))
        elif c["via"] == "bytes":
            r = attempt(lambda: XmlFactory.read(io.BytesIO(data)))
        else:
            r = attempt(lambda: XmlFactory.read(fn))
    S.require(r[0] == "raised", "cross over the undefined coverpoint %r was accepted" % c["name"])


@st.composite
def rewrites(draw):
    c = draw(F.case(OPT))
    c["noise"] = min(c["noise"], 1)
    steps = draw(st.lists(st.tuples(st.sampled_from(["good", "same_size", "same_size", "edit"]), st.sampled_from(ELEM_OPS), st.integers(0, 10**6), st.integers(0, 10**6)), min_size=2, max_size=4))
    return dict(doc=c, steps=[list(x) for x in steps], via=draw(st.sampled_from(["file", "gzip", "rgy", "object"])), mtime=draw(st.booleans()))


def check_rewrites(c):
    """One file (or file object) holding valid and invalid documents in turn: each is judged by what it holds now."""
    from ucis.xml.xml_factory import XmlFactory
    from ucis.rgy.format_rgy import FormatRgy
    from ucis.xml import validate_ucis_xml
    import re
    text, _, _ = F.render(c["doc"])
    good = text.encode("utf-8")
    _LAST[0] = None
    bad = 0
    with tempfile.TemporaryDirectory(prefix="vp05") as td:
        fn = os.path.join(td, "d.xml")
        obj = io.BytesIO()
        for n, (k, op, a, b) in enumerate([["good", "del", 0, 0]] + c["steps"]):
            data = good
            if k == "same_size":
                # one letter of a tag or attribute name, a digit of a count or of a date
                m = [x for x in re.finditer(rb"[A-Za-z]+(?==[\"'])|(?<=<)[A-Za-z]+(?=[ />])|(?<==\")[0-9]+(?=\")", good)]
                x = m[a % len(m)]
                p = x.start() + b % (x.end() - x.start())
                data = good[:p] + b"q" + good[p + 1:]
            elif k == "edit":
                root = X.parse(good).getroot()
                mutate(root, op, a, b)
                data = etree.tostring(root, encoding="utf-8")
            ok = X.is_valid(data)
            bad += not ok
            if c["via"] == "object":
                obj.seek(0)
                obj.truncate()
                obj.write(data)
                obj.seek(0)
                r = attempt(lambda: XmlFactory.read(obj))
                obj.seek(0)
                v = attempt(lambda: validate_ucis_xml(obj))
            else:
                with open(fn, "wb") as f:
                    f.write(gzip.compress(data, 1, mtime=0) if c["via"] == "gzip" else data)
                if c["mtime"]:
                    os.utime(fn, (1600000000, 1600000000))
                r = attempt(lambda: FormatRgy.inst().getDatabaseDesc("xml").fmt_if().read(fn) if c["via"] == "rgy" else XmlFactory.read(fn))
                v = attempt(lambda: validate_ucis_xml(fn)) if c["via"] != "gzip" else None
            what = "step %d (%s) of one %s" % (n, k, c["via"])
            if not ok:
                S.require(r[0] == "raised", "an invalid document was read as a database %r, %s" % (r[1], what))
            elif data is good:
                S.require(r[0] == "ok", "the valid document was not read: %r, %s" % (r[1], what))
            if v is not None:
                S.require((v[0] == "ok") == ok, "validation gave %r for a document that is %s, %s" % (v, "valid" if ok else "invalid", what))
    _LAST[0] = bad == 0


def has_cross(c):
    return any(ci["crs"] for g in S.cg_list(c["doc"]["db"]) for ci in g["insts"])


FACETS = [
    Facet("structure", cases, check, nontrivial=lambda c: _LAST[0] is False, labels=lambda c: {"op=" + o[0] for o in c["ops"]} | {"via=" + c["via"]}, quick=5000,
          rule="valid documents with element/attribute edits; non-trivial: the edited document is invalid by the independent verdict"),
    Facet("bytes", byte_cases, check_bytes, nontrivial=lambda c: _LAST[0] is False, labels=lambda c: {"op=" + o[0] for o in c["ops"]} | {"via=" + c["via"]}, quick=3000,
          rule="valid documents (or their gzip stream) with byte damage; non-trivial: the damaged document is invalid by the independent verdict"),
    Facet("rewrites", rewrites, check_rewrites, nontrivial=lambda c: _LAST[0] is False, labels=lambda c: {s[0] for s in c["steps"]} | {"via=" + c["via"]} | ({"same_mtime"} if c["mtime"] else set()), quick=1200,
          rule="one file or file object holding a valid document, then others in turn, of the same size and time stamp too; non-trivial: at least one of them is invalid by the independent verdict"),
    Facet("dangling", dangling, check_dangling, nontrivial=has_cross, labels=lambda c: {"cross"} if has_cross(c) else {"no_cross"},
          quick=1600, rule="cross expression renamed to an undefined coverpoint; non-trivial: the document has a cross"),
]
ASSUMPTIONS = ["the verdict valid/invalid comes from lxml with the pinned schema, and gzip.decompress for gzip files"]
