"""C06 Merge conserves coverage: union of structure, sum of hits."""
import io
from hypothesis import strategies as st
from ..core import Facet
from .. import gen, spec as S

OPT = gen.Opt(names=gen.xml_names, empty=True, big=True, twins=True, iw=True)


@st.composite
def cases(draw):
    srcs = draw(gen.source_list(OPT, wide=True))
    # database objects that occur more than once in the list
    again = draw(st.lists(st.integers(0, len(srcs) - 1), max_size=3)) if draw(st.integers(0, 3)) == 0 else []
    origin = [draw(st.sampled_from(["mem", "mem", "xml"])) for _ in srcs] if draw(st.integers(0, 3)) == 0 else []
    return dict(srcs=srcs, again=again, origin=origin, dst=draw(st.sampled_from(["mem", "xml", "yaml"])))


def new_db(kind="mem"):
    if kind == "xml":
        from ucis.xml.xml_ucis import XmlUCIS
        return XmlUCIS()
    if kind == "yaml":
        from ucis.yaml.yaml_ucis import YamlUCIS
        return YamlUCIS()
    from ucis.mem.mem_factory import MemFactory
    return MemFactory.create()


def build_all(srcs):
    return [S.build(s) for s in srcs]


def reread(db):
    """The database as read back from its XML document, where it has one."""
    from ucis.xml.xml_factory import XmlFactory
    b = io.StringIO()
    try:
        XmlFactory.write(db, b)
        return XmlFactory.read(io.StringIO(b.getvalue()))
    except Exception:
        return None         # empty coverpoints etc. are not representable


def check(c):
    from ucis.merge.db_merger import DbMerger
    dbs = build_all(c["srcs"])
    trees = [S.tree_of(s) for s in c["srcs"]]
    xml = False
    for k, o in enumerate(c.get("origin", ())):
        x = reread(dbs[k]) if o == "xml" else None
        if x is not None:
            dbs[k], trees[k] = x, S.extract(x)
            xml = True
    dbs += [dbs[k] for k in c.get("again", ())]
    dst = new_db(c["dst"])
    DbMerger().merge(dst, dbs)
    got = S.extract(dst)
    S.check_membership(got, "merged database")
    S.check_own_dus(dst, "merged database")
    exp = S.merge_trees(trees + [trees[k] for k in c.get("again", ())])
    S.require_equal(S.unordered(exp), S.unordered(got), "merged coverage")
    if not xml:     # XML keeps no weights of instances
        S.require_equal(S.spec_inst_weights(c["srcs"]), S.inst_weights(dst), "weights of instances and design units")


FACETS = [Facet("merge", cases, check, nontrivial=lambda c: gen.overlapping(c["srcs"]),
                labels=lambda c: gen.sources_labels(c["srcs"]) | ({"repeated_object"} if c["again"] else set()) | set("from_" + o for o in c["origin"]), quick=5500,
                rule="lists of overlapping sources; non-trivial: at least one covergroup occurs in two sources")]
ASSUMPTIONS = ["sources agree on weights, thresholds, kinds and cross membership where they overlap", "order of merged children is not part of the claim"]
