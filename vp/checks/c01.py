"""C01 XML round trip preserves functional coverage."""
import io
from hypothesis import strategies as st
from ..core import Facet
from .. import gen, spec as S

OPT = gen.Opt(names=gen.xml_names, twins=True, dup_cg=True, bare_crs=True)


@st.composite
def cases(draw):
    c = dict(db=draw(gen.db_spec(OPT)), via=draw(st.sampled_from(["factory", "reader", "loads"])))
    return c


def roundtrip(db, via):
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml.xml_reader import XmlReader
    buf = io.StringIO()
    XmlFactory.write(db, buf)
    text = buf.getvalue()
    if via == "factory":
        return XmlFactory.read(io.StringIO(text))
    if via == "loads":
        return XmlReader().loads(text)
    return XmlReader().read(io.StringIO(text))


def check(c):
    db = S.build(c["db"])
    back = roundtrip(db, c["via"])
    exp = S.xml_view(S.tree_of(c["db"]))
    S.require_equal(exp, S.extract(back), "coverage after XML round trip")


FACETS = [
    Facet("roundtrip", cases, check, nontrivial=lambda c: gen.spec_nontrivial(c["db"]),
          labels=lambda c: gen.spec_labels(c["db"]), quick=5100,
          rule="database specs; non-trivial: at least two bins in all"),
]
ASSUMPTIONS = ["databases are built through the public object API; names are XML 1.0 characters; instance names are unique within a database (the reader identifies instances by name); XML keeps no weights of design instances and units"]
