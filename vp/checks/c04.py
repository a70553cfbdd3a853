"""C04 Any schema-valid UCIS XML document is interpreted correctly."""
import io
from hypothesis import strategies as st
from ..core import Facet
from .. import gen, spec as S, foreign as F


@st.composite
def cases(draw):
    c = draw(F.case())
    c["split"] = draw(st.integers(0, 4)) == 4
    c["via"] = draw(st.sampled_from(["text", "bytes", "reader", "loads"]))
    return c


def joined(insts):
    """Instances of one name (and design unit) as one."""
    out = []
    for i in insts:
        o = next((o for o in out if (o["n"], o["du"]) == (i["n"], i["du"])), None)
        if o is None:
            out.append(i)
        else:
            o["cgs"] += i["cgs"]
    return out


def check(c):
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml.xml_reader import XmlReader
    from ucis.history_node_kind import HistoryNodeKind as K
    from ucis.test_status_t import TestStatusT as T
    text, exp, hist = F.render(c)
    if c["via"] == "text":
        db = XmlFactory.read(io.StringIO(text))
    elif c["via"] == "bytes":
        db = XmlFactory.read(io.BytesIO(text.encode("utf-8")))
    elif c["via"] == "reader":
        db = XmlReader().read(io.BytesIO(text.encode("utf-8")))
    else:
        db = XmlReader().loads(text)
    got = S.extract(db)
    if c.get("split"):
        got["insts"] = joined(got["insts"])
    S.require_equal(exp, got, "coverage read from the document")
    got = [[h.getLogicalName(), h.getTestStatus() == T.OK] for h in db.historyNodes(K.ALL)]
    S.require_equal(hist, got, "history nodes read from the document")


FACETS = [Facet("foreign", cases, check, nontrivial=lambda c: gen.spec_nontrivial(c["db"]), labels=lambda c: F.labels(c) | ({"split"} if c.get("split") else set()), quick=5000,
                rule="schema-valid foreign documents; non-trivial: at least two bins")]
ASSUMPTIONS = ["documents rendered by vp/foreign.py and confirmed schema-valid against the pinned schema before use"]
