"""C22 Writing XML is all or nothing."""
import io
import os
from hypothesis import strategies as st
from ..core import Facet, Violation
from .. import gen, spec as S, xmlutil as X, scratch, carriers as C

OPT = gen.Opt(names=gen.line_names, empty=False, src=True, max_insts=2, max_cgs=2, bare_crs=True)
BAD = ["a\x00", "\x01", "b\x0bc", "\x1f", "\ud800", "x\udcffy", "\ufffe", "\uffff", "\x08"]
WHERE = ["inst", "du", "cg", "ci", "cp", "cross", "bin", "crossbin", "hist", "file", "date", "none", "number", "crossexpr", "hist_last"]


@st.composite
def cases(draw):
    spec = draw(gen.db_spec(OPT))
    spec["hist"] = draw(gen.histories)
    return dict(spec=spec, where=draw(st.none() | st.sampled_from(WHERE)), pos=draw(st.integers(0, 50)), bad=draw(st.sampled_from(BAD)),
                how=draw(st.sampled_from(["factory", "factory", "ucis", "ucis", "c", "stream", "stream"])), old=draw(st.sampled_from([None, "", "old content", "x" * 9000])),
                target=draw(st.sampled_from(["file"] * 6 + ["dir", "nodir", "full", "stream_full"])), after=draw(st.integers(0, 2)))


def poison(c, spec):
    """Puts a value no XML document can hold at one place of the spec -> whether there was such a place."""
    w, bad = c["where"], c["bad"]
    pts = [(t, p) for t, p in S.all_points(spec)]
    cgs = [g for i in spec["insts"] for g in i["cgs"]]

    def pick(l):
        return l[c["pos"] % len(l)] if l else None
    if w in ("inst", "du", "none", "number"):
        x = pick(spec["insts"])
        if x is None:
            return False
        x["du" if w == "du" else "n"] = dict(none=None, number=7).get(w, bad)
        return True
    if w == "cg":
        x = pick(cgs)
        if x is None:
            return False
        x["n"] = bad
        return True
    if w == "ci":
        x = pick([i for g in cgs for i in g["insts"]])
        if x is None:
            return False
        x["n"] = bad
        return True
    if w in ("cp", "cross", "bin", "crossbin", "crossexpr"):
        # of the scopes that are written: the instances, or the type if it has none
        pts = [(t, p) for g in cgs for s in (g["insts"] or [g]) for t in ("cps", "crs") for p in s[t]]
        if w in ("cp", "crossexpr"):
            x = pick([p for t, p in pts if t == "cps"])
            if x is None:
                return False
            for g in cgs:
                for s in [g] + g["insts"]:
                    if any(p is x for p in s["cps"]):
                        for r in s["crs"]:
                            r["cps"] = [bad if n == x["n"] else n for n in r["cps"]]
            x["n"] = bad
            return True
        x = pick([p for t, p in pts if (t == "crs") == (w != "bin")])
        if x is None:
            return False
        if w == "cross":
            x["n"] = bad
        else:
            b = pick(x["bins"])
            if b is None:
                return False
            b[0] = bad
        return True
    if w == "hist":
        spec["hist"].insert(c["pos"] % (len(spec["hist"]) + 1), dict(ln="t", pn=bad, kind=1, status="OK"))
        return True
    if w == "hist_last":
        spec["hist"].append(dict(ln="t", pn="p", kind=1, status="OK", comment=bad))
        return True
    if w == "date":
        spec["hist"].insert(c["pos"] % (len(spec["hist"]) + 1), dict(ln="t", pn="p", kind=1, status="OK", date=["garbage", "20240230000000", ""][c["pos"] % 3]))
        return True
    if w == "file":
        x = pick(spec["insts"])
        if x is None:
            return False
        x["src"] = [bad, 1, 1]
        return True
    return False


class Sink(io.StringIO):
    def __init__(self, limit):
        super().__init__()
        self.limit = limit

    def write(self, s):
        if self.limit is not None:
            raise OSError(28, "No space left on device")
        return super().write(s)


class Quiet(Sink):
    """A stream that does not say how much it took, as those of the codecs module."""

    def write(self, s):
        super().write(s)


def check(c):
    import ucis
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml.xml_ucis import XmlUCIS
    spec = c["spec"]
    clean = [dict(h) for h in spec["hist"]]
    import copy
    spec = copy.deepcopy(spec)
    bad = poison(c, spec)
    with scratch.Dir() as d:
        mk = XmlUCIS if c["how"] in ("ucis", "c") else (lambda: None)
        db = S.build(spec, mk())
        path = os.path.join(d, "out.xml")
        target = c["target"]
        if c["how"] == "stream":
            target = "stream_full" if target == "stream_full" else "stream"
        elif target == "stream_full":
            target = "file"
        if target == "dir":
            os.mkdir(path)
        elif target == "nodir":
            path = os.path.join(d, "missing", "out.xml")
        elif target == "full":
            os.symlink("/dev/full", path)
        elif c["old"] is not None and target == "file":
            with open(path, "w") as f:
                f.write(c["old"])
        before = S.snapshot(db)
        out = (Quiet if c["after"] == 1 else Sink)(0 if target == "stream_full" else None)
        ok_expected = not bad and target in ("file", "stream")
        kept = []

        def go():
            try:
                if target.startswith("stream"):
                    XmlFactory.write(db, out)
                elif c["how"] == "factory":
                    XmlFactory.write(db, path)
                elif c["how"] == "ucis":
                    db.write(path)
                else:
                    ucis.ucis_Write(db, path, None, 1, -1)
            except Exception as e:
                kept.append(e)      # its traceback keeps the frames of the failed call alive
        what = "writing (%s, target %s, %s)" % (c["how"], target, "unrepresentable " + c["where"] if bad else "representable")
        C.watch(go, what)
        if target == "full" and not kept and not bad and not os.path.islink(path):
            target, ok_expected = "file", True      # the link was replaced by a file of its own: nothing failed
        S.require(not out.closed, what + " closed the caller's stream")
        if ok_expected and kept:
            raise kept[0]
        if not ok_expected:
            S.require(kept, what + " did not raise")
        S.require_equal(before, S.snapshot(db), "database after " + what)
        files = sorted(os.listdir(d))
        if target == "stream":
            text = out.getvalue()
            if bad:
                S.require(text == "", what + " put %d characters on the stream before failing" % len(text))
        elif target == "file":
            if bad:
                S.require(files == ([] if c["old"] is None else ["out.xml"]), what + ": files in the directory are now %r" % files)
                if c["old"] is not None:
                    with open(path) as f:
                        S.require(f.read() == c["old"], what + " damaged the file that was there")
            else:
                S.require(files == ["out.xml"], what + ": files in the directory are now %r" % files)
                with open(path, "rb") as f:
                    text = f.read().decode("utf-8")
        elif target == "full":
            S.require(files == ["out.xml"] and os.path.islink(path), what + ": files in the directory are now %r" % files)
        elif target == "dir":
            S.require(files == ["out.xml"] and os.listdir(path) == [], what + ": files in the directory are now %r" % files)
        else:
            S.require(files == [], what + ": files in the directory are now %r" % files)
        if ok_expected:
            X.require_valid(text, "document written")
            S.require_equal(S.xml_view(S.tree_of(spec)), S.extract(X.read_text(text)), "document written, read back")
        # the failure is over: the same call works for a database that can be written
        if kept and c["after"]:
            good = dict(c["spec"], hist=clean)
            db2 = S.build(good, mk())
            p2 = os.path.join(d, "again.xml")
            if c["how"] in ("ucis", "c"):
                db2.write(p2)
            else:
                XmlFactory.write(db2, p2)
            with open(p2, "rb") as f:
                S.require_equal(S.xml_view(S.tree_of(good)), S.extract(X.read_text(f.read().decode("utf-8"))), "document written after a failed write")


FACETS = [Facet("allornothing", cases, check, lambda c: c["where"] is not None or c["target"] != "file",
                lambda c: {"where=%s" % c["where"], "how=" + c["how"], "target=" + c["target"], "old" if c["old"] is not None else "new"}, quick=2500,
                rule="databases with a value XML cannot hold at a generated place, or outputs that cannot be written; non-trivial: one of the two")]
ASSUMPTIONS = ["an output device that fails part way (/dev/full) is only required to be reported"]
