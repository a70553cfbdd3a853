"""A process of its own that reads XML documents from LZ4 files, with or without the lz4 package
(stdin: JSON list of file names; stdout: JSON list of what was read)."""
import json
import sys

from . import carriers as C, spec as S


def one(path):
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml.db_format_if_xml import DbFormatIfXml
    out = []
    for f in (XmlFactory.read, DbFormatIfXml().read):
        kept = []

        def go():
            try:
                return S.extract(f(path))
            except Exception as e:
                kept.append(e)
        t = C.watch(go, "reading an LZ4 file")
        out.append(dict(err="%s: %s" % (type(kept[0]).__name__, kept[0])) if kept else dict(ok=t))
    return out


if __name__ == "__main__":
    from .core import Violation
    res = []
    for p in json.load(sys.stdin):
        try:
            res.append(one(p))
        except Violation as e:
            res.append(dict(bad=str(e)))
    json.dump(res, sys.stdout)
