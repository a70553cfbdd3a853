"""Reading one XML document through every carrier; run as a module it serves a process with another
locale (stdin: JSON list of [directory, encoding, has_decl])."""
import gc
import gzip
import io
import json
import os
import sys
import warnings

from .core import Violation

ENCODINGS = ["utf-8", "utf-8-decl", "utf-8-bom", "utf-16", "iso-8859-1", "us-ascii", "utf-16le-bom"]


def encode(text, enc):
    """text has no XML declaration"""
    if enc == "utf-8":
        return text.encode("utf-8")
    if enc == "utf-8-decl":
        return b'<?xml version="1.0" encoding="UTF-8"?>\n' + text.encode("utf-8")
    if enc == "utf-8-bom":
        return b'\xef\xbb\xbf<?xml version="1.0" encoding="UTF-8"?>\n' + text.encode("utf-8")
    if enc == "utf-16":
        return ('<?xml version="1.0" encoding="UTF-16"?>\n' + text).encode("utf-16")
    if enc == "utf-16le-bom":
        return b"\xff\xfe" + text.encode("utf-16-le")
    if "<![CDATA[" in text and not text.isascii():
        # character references mean nothing inside CDATA: let lxml re-serialise
        from lxml import etree
        return etree.tostring(etree.fromstring(text.encode("utf-8"), etree.XMLParser(strip_cdata=True)).getroottree(), encoding=enc, xml_declaration=True)
    return (('<?xml version="1.0" encoding="%s"?>\n' % enc) + text).encode(enc, "xmlcharrefreplace")


class Short(io.RawIOBase):
    """A binary stream that hands out its bytes in short reads."""

    def __init__(self, data, n):
        self.d, self.p, self.n = data, 0, n

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.p = off if whence == 0 else (self.p if whence == 1 else len(self.d)) + off
        return self.p

    def tell(self):
        return self.p

    def read(self, size=-1):
        if size is None or size < 0:
            r = self.d[self.p:]
        else:
            r = self.d[self.p:self.p + min(size, self.n)]
        self.p += len(r)
        return r


#: the Python name of each encoding
CODEC = {"utf-8": "utf-8", "utf-8-decl": "utf-8", "utf-8-bom": "utf-8-sig", "utf-16": "utf-16", "iso-8859-1": "latin-1", "us-ascii": "ascii", "utf-16le-bom": "utf-16"}


def carriers(path, gz, data, text, codec="utf-8"):
    """name -> (argument factory, caller-owned object or None). text: the decoded document, or None."""
    out = []
    out.append(("file name", lambda: path))
    out.append(("gzip file name", lambda: gz))
    out.append(("binary file", lambda: open(path, "rb")))
    out.append(("unbuffered file", lambda: open(path, "rb", buffering=0)))
    out.append(("BytesIO", lambda: io.BytesIO(data)))
    out.append(("short reads", lambda: Short(data, 7)))
    out.append(("gzip object", lambda: gzip.open(gz, "rb")))
    if text is not None:
        out.append(("text file", lambda: open(path, "r", encoding=codec, newline="")))
        out.append(("gzip text object", lambda: gzip.open(gz, "rt", encoding=codec, newline="")))
        out.append(("StringIO", lambda: io.StringIO(text)))
    return out


def fds():
    return sorted(os.listdir("/proc/self/fd"))


def watch(fn, what):
    """Runs fn, then requires that no file descriptor leaked and none was left to the garbage collector."""
    gc.collect()
    n0 = len(fds())
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always", ResourceWarning)
        r = fn()
        n1 = len(fds())
        gc.collect()
        bad = [x for x in w if issubclass(x.category, ResourceWarning)]
    if n1 != n0:
        raise Violation("%s: %d file descriptors before, %d after" % (what, n0, n1))
    if bad:
        raise Violation("%s: a file was left unclosed: %s" % (what, bad[0].message))
    return r


def read_all(path, gz, data, text, extract, entry_points=None, sel=None, codec="utf-8"):
    """-> [(what, tree)]; checks the handling of files on the way"""
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml.xml_reader import XmlReader
    from ucis.xml.db_format_if_xml import DbFormatIfXml
    from ucis.xml import validate_ucis_xml
    out = []
    sel_n = 0
    for name, mk in carriers(path, gz, data, text, codec):
        for ep, fn in (("XmlFactory.read", XmlFactory.read), ("DbFormatIfXml.read", lambda x: DbFormatIfXml().read(x)),
                       ("XmlReader.read", lambda x: XmlReader().read(x)), ("validate_ucis_xml", validate_ucis_xml), ("XmlReader.validate", XmlReader.validate)):
            if name == "gzip file name" and ep in ("validate_ucis_xml", "XmlReader.validate", "XmlReader.read"):
                continue
            if entry_points and ep not in entry_points:
                continue
            sel_n += 1
            if sel is not None and (sel_n * 7 + sel) % 5 > 1:
                continue
            what = "%s of a document given as %s" % (ep, name)
            arg = mk()
            owned = not isinstance(arg, str)
            try:
                try:
                    db = watch(lambda: fn(arg), what)
                except Violation:
                    raise
                except Exception as e:
                    raise Violation("%s fails: %s: %s" % (what, type(e).__name__, e))
                if owned:
                    if arg.closed:
                        raise Violation("%s closed the caller's file" % what)
                    arg.seek(0)
                    if not arg.read(3):
                        raise Violation("%s left the caller's file unreadable" % what)
            finally:
                if owned:
                    arg.close()
            if "alidate" not in ep:
                out.append((what, extract(db)))
    if text is not None:
        out.append(("XmlReader.loads", extract(watch(lambda: XmlReader().loads(text), "XmlReader.loads"))))
    return out


def main():
    from . import spec as S
    sys_out = sys.stdout
    sys.stdout = sys.stderr
    res = []
    for d, has_decl in json.load(sys.stdin):
        path, gz = os.path.join(d, "doc.xml"), os.path.join(d, "doc.gz")
        with open(path, "rb") as f:
            data = f.read()
        text = None if has_decl else data.decode("utf-8")
        try:
            from ucis.xml.xml_factory import XmlFactory
            r = read_all(path, gz, data, text, S.extract, ("XmlFactory.read", "XmlReader.read", "DbFormatIfXml.read"))
            out = os.path.join(d, "out.xml")
            XmlFactory.write(XmlFactory.read(path), out)
            r.append(("file written by XmlFactory.write and read back", S.extract(XmlFactory.read(out))))
            from ucis.xml.xml_ucis import XmlUCIS
            from ucis.merge.db_merger import DbMerger
            u = XmlUCIS()
            DbMerger().merge(u, [XmlFactory.read(path)])
            u.write(out)
            r.append(("UNORDERED file written by XmlUCIS.write and read back", S.extract(XmlFactory.read(out))))
            from ucis.yaml.db_format_if_yaml import DbFormatIfYaml
            y = DbFormatIfYaml().read(os.path.join(d, "doc.yml"))
            from .yamlutil import plain
            res.append(dict(ok=r, yaml=plain(S.extract(y))))
        except Violation as e:
            res.append(dict(bad=str(e)))
        except Exception as e:
            import traceback
            res.append(dict(bad="%s: %s %s" % (type(e).__name__, e, traceback.format_exc(limit=-6))))
    json.dump(res, sys_out)


if __name__ == "__main__":
    main()
