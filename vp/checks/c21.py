"""C21 A failing command says so and leaves existing output alone."""
import os
from hypothesis import strategies as st
from ..core import Facet, Violation, HarnessError
from .. import gen, spec as S, yamlutil as Y, xmlutil as X, inputs as I, cli, scratch

OPT = gen.Opt(names=gen.simple_names, empty=False, cross_kinds=False, big=False, max_insts=2, max_cgs=2)

#: faults of one input file, by input format
XML_FAULTS = ["missing", "dir", "empty", "trunc", "dropattr", "badroot", "yaml_as_xml", "garbage", "gz_trunc", "gz_crc", "badcount", "emptyname"]
YAML_FAULTS = ["missing", "dir", "empty", "y_trunc", "y_type", "y_dangling", "y_noname", "y_badyaml", "y_unrep", "y_surr"]
BAD_IF = ["foo", "XML", "xml ", "", "txt", "json", "libucis", "lib"]
BAD_OF_DB = ["foo", "YAML", "", "txt", "json", "libucis", "lib"]
BAD_OF_RPT = ["foo", "TXT", "", "xml", "yaml", "html"]
BAD_OUT = ["nodir/out", "isdir", "file/out", "full"]      # full: a link to /dev/full


@st.composite
def cases(draw):
    cmd = draw(st.sampled_from(["convert", "merge", "merge", "report"]))
    fmt = draw(st.sampled_from(["xml", "xml", "yaml"]))
    n = draw(st.integers(1, 3)) if cmd == "merge" else 1
    srcs = draw(gen.source_list(OPT, n, n, dups=False))
    srcs = [s if s["insts"] else dict(insts=[dict(n="i", du="d", cgs=[])]) for s in srcs]
    where = draw(st.sampled_from(["input", "input", "input", "fmt", "fmt", "out"]))
    bare = draw(st.integers(0, 5)) == 5       # nothing to report
    if bare:
        srcs = [dict(insts=[dict(n="i", du="d", cgs=[])]) for s in srcs]
    files = [dict(spec=s, fault=None, pos=0) for s in srcs]
    c = dict(cmd=cmd, fmt=fmt, files=files, ifmt=None, ofmt=None, out="out.dat", pre=draw(st.integers(0, 2)), fault=where)
    if where == "input":
        k = draw(st.integers(1, (1 << len(files)) - 1))
        for i, f in enumerate(files):
            if k >> i & 1:
                f["fault"] = draw(st.sampled_from(YAML_FAULTS if fmt == "yaml" else XML_FAULTS))
                f["pos"] = draw(st.integers(0, 1000))
    elif where == "fmt":
        if draw(st.booleans()):
            c["ifmt"] = draw(st.sampled_from(BAD_IF))
        else:
            c["ofmt"] = draw(st.sampled_from(BAD_OF_RPT if cmd == "report" else BAD_OF_DB))
    else:
        c["out"] = draw(st.sampled_from(BAD_OUT))
    if cmd == "report" and draw(st.integers(0, 3)) == 0 and c["out"] == "out.dat":
        c["out"] = None
    c["rjson"] = draw(st.booleans())
    if bare and cmd == "report" and not c["rjson"] and c["out"] == "full":
        c["out"] = "isdir"      # a full disk has room for an empty report
    return c


def cut(data, pos, lo=0):
    """Truncation that really loses content."""
    n = len(data.rstrip())
    return data[:lo + pos * max(1, n - lo - 1) // 1001]


def faulty(f, fmt, path):
    """Writes a faulty version of the input; harness-verified to be faulty where that is not plain."""
    k, pos = f["fault"], f["pos"]
    if k == "missing":
        return
    if k == "dir":
        os.mkdir(path)
        return
    if k == "empty":
        data = b"" if fmt == "xml" else b"\n"
    elif fmt == "yaml":
        doc = I.yaml_doc(f["spec"])
        cgs = doc["coverage"]["covergroups"]
        if k == "y_type":
            doc["coverage"] = 5
        elif k == "y_noname":
            cgs.append(dict(instances=[]))
        elif k == "y_dangling":
            cgs.append(dict(name="zz", instances=[dict(name="z", coverpoints=[dict(name="p", bins=[dict(name="b", count=1)])],
                                                       crosses=[dict(name="x", coverpoints=["nope"], bins=[dict(name="b", count=1)])])]))
        elif k == "y_unrep":
            # a valid document whose coverage the XML output cannot represent
            cgs.append(dict(name="zz", instances=[dict(name="z", coverpoints=[dict(name="p", bins=[dict(name="b\u0001", count=1)])])]))
        elif k == "y_surr":
            cgs.insert(pos % (len(cgs) + 1), dict(name="z\ud800z", instances=[dict(name="z", coverpoints=[dict(name="p", bins=[dict(name="b", count=1)])])]))
        import json
        data = json.dumps(doc).encode("utf-8")
        if k == "y_trunc":
            data = cut(data, pos, 1)
        elif k == "y_badyaml":
            data = b"coverage: {\n" + data + b"\n]"
    else:
        base = I.xml_bytes(f["spec"], "lib")
        data = base
        if k == "trunc":
            data = cut(base, pos)
        elif k == "dropattr":
            doc = X.parse(base)
            e = next(doc.getroot().iter("instanceCoverages"))
            del e.attrib["name"]
            from lxml import etree
            data = etree.tostring(doc)
        elif k == "badcount":
            doc = X.parse(base)
            e = next(iter(doc.getroot().iter("contents")), None)
            if e is None:
                e = next(doc.getroot().iter("instanceCoverages"))
                e.set("key", "")
                e.attrib.pop("name")
            else:
                e.set("coverageCount", "many")
            from lxml import etree
            data = etree.tostring(doc)
        elif k == "emptyname":
            doc = X.parse(base)
            for e in list(doc.getroot().iter("instanceCoverages")):
                e.getparent().remove(e)
            from lxml import etree
            data = etree.tostring(doc)
        elif k == "badroot":
            data = b"<coverage/>"
        elif k == "yaml_as_xml":
            data = I.yaml_bytes(f["spec"])
        elif k == "garbage":
            data = bytes((pos * 7 + i * 31) % 256 for i in range(64))
        elif k == "gz_trunc":
            import gzip
            z = gzip.compress(base, mtime=0)
            data = z[:10 + pos * (len(z) - 11) // 1001]
        elif k == "gz_crc":
            import gzip
            z = bytearray(gzip.compress(base, mtime=0))
            z[-6] ^= 0x55
            data = bytes(z)
        if k not in ("gz_trunc", "gz_crc") and X.is_valid(data):
            raise HarnessError("fault %s left a valid document" % k)
    I.put(path, data)


def check(c):
    if c["fmt"] == "yaml" and c["cmd"] == "report" and all(f["fault"] in ("y_unrep", None) or f["fault"] == "y_surr" and c["rjson"] for f in c["files"]):
        return      # a report can represent any name
    if c["ifmt"] == "" or c["ofmt"] == "":
        pass
    with scratch.Dir() as top:
        d, log = os.path.join(top, "w"), os.path.join(top, "log")
        os.makedirs(os.path.join(d, "isdir"))
        os.makedirs(log)
        I.put(os.path.join(d, "file"), b"plain file")
        I.put(os.path.join(d, "isdir", "keep"), b"keep")
        os.symlink("/dev/full", os.path.join(d, "full"))
        use = []
        for i, f in enumerate(c["files"]):
            n = "in%d" % i
            use.append(n)
            p = os.path.join(d, n)
            if f["fault"]:
                faulty(f, c["fmt"], p)
            else:
                I.put(p, I.yaml_bytes(f["spec"]) if c["fmt"] == "yaml" else I.xml_bytes(f["spec"]))
        argv = [c["cmd"]] + use
        ifmt = c["ifmt"] if c["ifmt"] is not None else c["fmt"]
        if ifmt != "xml":
            argv += ["--input-format", ifmt]
        of = c["ofmt"]
        if of is None and c["cmd"] == "report" and c["rjson"]:
            of = "json"
        if of is not None:
            argv += ["-of", of]
        old = b"precious\n" * (1 if c["pre"] == 1 else 5000)
        if c["out"] is not None:
            argv += ["-o", c["out"]]
            if c["pre"] and c["out"] == "out.dat":
                I.put(os.path.join(d, "out.dat"), old)

        before = state(d)
        r = cli.forked(argv, d, log)
        if c["out"] == "full" and r.code == 0 and not os.path.islink(os.path.join(d, "full")):
            # the link was replaced by a file of its own: then nothing failed, and the file must be complete
            S.require(len(I.slurp(os.path.join(d, "full"))) > 0, "ucis %s reports success with an empty output" % " ".join(argv))
            return
        if c["out"] == "full" and r.code == 0 and c["cmd"] == "report":
            # a report without any text fits a full device
            q = cli.forked(argv[:-1] + ["plain"], d, log)
            if q.code == 0 and I.slurp(os.path.join(d, "plain")) == b"":
                return
        judge(r, before, state(d), "ucis %s (%s)" % (" ".join(repr(a) if not a or " " in a else a for a in argv), describe(c)))


def state(d):
    """{path: bytes, None for a directory} of everything below d"""
    out = {}
    for a, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(a, x), d) + "/"] = None
        for x in fs:
            p = os.path.join(a, x)
            out[os.path.relpath(p, d)] = os.readlink(p).encode() if os.path.islink(p) else I.slurp(p)
    return out


def judge(r, before, after, what, may_create=()):
    S.require(r.code != 0, "%s claims success: %r" % (what, r))
    S.require(r.code > 0, "%s was killed: %r" % (what, r))
    S.require(r.out.strip() or r.err.strip(), "%s failed without a message" % what)
    for k in sorted(set(before) | set(after)):
        if k not in before:
            if k not in may_create:
                raise Violation("%s failed but created %s (%d bytes)" % (what, k, len(after[k] or b"")))
        elif k not in after:
            raise Violation("%s failed but removed %s" % (what, k))
        elif before[k] != after[k]:
            raise Violation("%s failed but changed %s" % (what, k))


def describe(c):
    if c["fault"] == "input":
        return "inputs: " + ", ".join(f["fault"] or "good" for f in c["files"])
    return {"fmt": "bad format name", "out": "bad output location"}[c["fault"]]


def labels(c):
    ls = {"cmd=" + c["cmd"], "fmt=" + c["fmt"], "fault=" + c["fault"], "preexisting" if c["pre"] and c["out"] == "out.dat" else "no_output_file"}
    for f in c["files"]:
        if f["fault"]:
            ls.add("fault:" + f["fault"])
    if c["ifmt"] is not None:
        ls.add("if=%r" % c["ifmt"])
    if c["ofmt"] is not None:
        ls.add("of=%r" % c["ofmt"])
    if c["fault"] == "out":
        ls.add("out=" + c["out"])
    if c["fault"] == "input" and any(not f["fault"] for f in c["files"]):
        ls.add("good_and_faulty")
    return ls


# ---------------------------------------------------------------- formats that fail while they are used
EXC = ["ValueError", "OSError", "KeyError", "TypeError", "AttributeError", "NotImplementedError", "AssertionError", "IndexError", "ucis"]
PHASES = ["read", "scopes", "items", "scopes", "items", "create", "write", "report", "report"]


@st.composite
def fmt_cases(draw):
    cmd = draw(st.sampled_from(["convert", "merge", "merge", "report", "report"]))
    ok = [p for p in PHASES if p not in (("report",) if cmd != "report" else ("create", "write"))]
    srcs = [s if s["insts"] else dict(insts=[dict(n="i", du="d", cgs=[])]) for s in draw(gen.source_list(OPT, 1, 3 if cmd == "merge" else 1, dups=False))]
    return dict(cmd=cmd, srcs=srcs, phase=draw(st.sampled_from(ok)), n=draw(st.integers(0, 12)), file=draw(st.integers(0, len(srcs) - 1)),
                exc=draw(st.sampled_from(EXC)), msg=draw(st.sampled_from(["failed", "", "a\nb", "%s", "\u00e9"])),
                pre=draw(st.integers(0, 2)), out=draw(st.integers(0, 5)) > 0, builtin=draw(st.booleans()))


class Fails:
    """A database or scope that fails at the n-th object reached."""

    def __init__(self, real, tick):
        self.__dict__["real"], self.__dict__["tick"] = real, tick

    def __getattr__(self, n):
        return getattr(self.real, n)

    def scopes(self, mask):
        for s in self.real.scopes(mask):
            self.tick("scopes")
            yield Fails(s, self.tick)

    def coverItems(self, mask):
        for s in self.real.coverItems(mask):
            self.tick("items")
            yield s


def check_fmt(c):
    import builtins
    with scratch.Dir() as top:
        d, log = os.path.join(top, "w"), os.path.join(top, "log")
        os.makedirs(d)
        os.makedirs(log)
        fired = os.path.join(log, "fired")
        for i, s in enumerate(c["srcs"]):
            I.put(os.path.join(d, "in%d" % i), I.xml_bytes(s))

        def fail():
            I.put(fired, b"1")
            raise (Exception if c["exc"] == "ucis" else getattr(builtins, c["exc"]))(c["msg"])

        def setup():
            from ucis.rgy import FormatRgy
            from ucis.rgy.format_if_db import FormatDescDb, FormatDbFlags, FormatIfDb
            from ucis.rgy.format_if_rpt import FormatDescRpt, FormatRptOutFlags, FormatIfRpt
            from ucis.mem.mem_factory import MemFactory
            from ucis.xml.xml_factory import XmlFactory
            count = dict(scopes=0, items=0)

            class D(FormatIfDb):
                def create(self, filename=None):
                    if c["phase"] == "create":
                        fail()
                    db = MemFactory.create()

                    def write(file, *a, **k):
                        if c["phase"] == "write":
                            fail()
                        I.put(file, b"written")
                    db.write = write
                    return db

                def read(self, file_or_filename):
                    f = file_or_filename
                    mine = f == "in%d" % c["file"]
                    if c["phase"] == "read" and mine:
                        fail()
                    db = XmlFactory.read(f)

                    def tick(what):
                        if what == c["phase"]:
                            count[what] += 1
                            if count[what] == c["n"] + 1:
                                fail()
                    return Fails(db, tick) if mine else db

            class R(FormatIfRpt):
                def report(self, db, out, args):
                    for k in range(c["n"]):
                        out.write("line %d\n" % k)
                    if c["phase"] == "report":
                        fail()
                    S.extract(db)
            rgy = FormatRgy.inst()
            rgy.addDatabaseFormat(FormatDescDb(D, name="mine", flags=FormatDbFlags.Read, description="t"))
            rgy.addReportFormat(FormatDescRpt(R, name="mine", out_flags=FormatRptOutFlags.Stream, description="t"))
        argv = [c["cmd"]] + ["in%d" % i for i in range(len(c["srcs"]))] + ["-if", "mine"]
        if not c["builtin"] or c["phase"] in ("create", "write", "report"):
            argv += ["-of", "mine"]
        if c["out"] or c["cmd"] != "report":
            argv += ["-o", "out.dat"]
        if c["pre"]:
            I.put(os.path.join(d, "out.dat"), b"precious\n" * (1 if c["pre"] == 1 else 5000))
        before = state(d)
        r = cli.forked(argv, d, log, setup)
        what = "ucis %s (%s %r while in %s)" % (" ".join(argv), c["exc"], c["msg"], c["phase"])
        if os.path.exists(fired):
            judge(r, before, state(d), what, ("out.dat",) if c["phase"] in ("create", "write", "report") else ())
        else:
            S.require(r.code == 0, "%s: nothing failed, but %r" % (what, r))


FACETS = [Facet("formats", fmt_cases, check_fmt, lambda c: c["out"], lambda c: {"cmd=" + c["cmd"], "phase=" + c["phase"], "exc=" + c["exc"]}, quick=900,
                rule="command lines using a registered format that fails while reading, being iterated, creating, writing or reporting; non-trivial: with an output file"),
          Facet("faults", cases, check, lambda c: c["out"] is not None, labels, quick=2200,
                rule="command lines with a faulty input, format name or output location; non-trivial: with an output file")]
ASSUMPTIONS = ["one kind of fault per command line; several inputs may be faulty"]
