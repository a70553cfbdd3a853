"""XML helpers independent of the code under test (pinned schema)."""
import io
import os
import re
from lxml import etree
from .core import Violation, HarnessError

_XSD = None


def xsd():
    global _XSD
    if _XSD is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "ucis.xsd")
        _XSD = etree.XMLSchema(etree.parse(p))
    return _XSD


def strip_ns(root):
    for e in root.iter():
        if isinstance(e.tag, str) and e.tag.startswith("{"):
            e.tag = e.tag[e.tag.index("}") + 1:]


def parse(data):
    """Independent parse of bytes or text; raises etree.XMLSyntaxError."""
    if isinstance(data, str):
        data = data.encode("utf-8")
    doc = etree.parse(io.BytesIO(data))
    strip_ns(doc.getroot())
    return doc


def is_valid(data):
    """Well-formed and schema-valid according to the pinned schema."""
    try:
        doc = parse(data)
    except etree.XMLSyntaxError:
        return False
    return xsd().validate(doc)


def require_valid(text, what):
    try:
        doc = parse(text)
    except etree.XMLSyntaxError as e:
        raise Violation("%s is not well-formed: %s" % (what, e))
    if not xsd().validate(doc):
        raise Violation("%s is not schema-valid: %s" % (what, str(xsd().error_log)[:400]))
    return doc


def plain(e, drop=()):
    """Element as plain data (comments dropped, layout whitespace ignored)."""
    return [e.tag, {k: v for k, v in sorted(e.attrib.items()) if k not in drop},
            (e.text or "").strip(), [plain(c, drop) for c in e if isinstance(c.tag, str)]]


def write_text(db):
    from ucis.xml.xml_factory import XmlFactory
    b = io.StringIO()
    XmlFactory.write(db, b)
    return b.getvalue()


def read_text(t):
    from ucis.xml.xml_factory import XmlFactory
    return XmlFactory.read(io.StringIO(t))


def undated(t):
    """A written document without its time of writing (also that of the placeholder history node)."""
    t = re.sub(r'writtenTime="[^"]*"', "", t)
    return re.sub(r'(<historyNodes (?=[^>]*="dummy)[^>]*?) date="[^"]*"', r"\1", t)
