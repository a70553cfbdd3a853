"""C13 The in-memory database reflects exactly the history of API calls."""
from hypothesis import strategies as st
from ..core import Facet
from .. import memops as M

OBJ = M.ObjApi()


def cases():
    return st.fixed_dictionaries(dict(ops=M.histories(), check_at=st.lists(st.integers(0, 40), max_size=3), xml=st.integers(0, 4)))


def new_db(c):
    if c["xml"] == 0:
        from ucis.xml.xml_ucis import XmlUCIS
        return XmlUCIS()
    from ucis.mem.mem_factory import MemFactory
    return MemFactory.create()


def check(c):
    db = new_db(c)
    r = M.Run(db, OBJ)
    for k, op in enumerate(c["ops"]):
        r.step(op)
        M.check_all(r)          # every call: target changed as asked, nothing else changed
        if k in c["check_at"]:
            M.check_all(r, True)
    M.check_all(r, True)
    r.finish_iters()
    M.check_all(r)


def check_two(c):
    """Two databases alive at once do not influence each other."""
    a, b = M.Run(new_db(c), OBJ), M.Run(new_db(dict(xml=1)), OBJ)
    for k, op in enumerate(c["ops"]):
        (a if (k * 7 + len(c["check_at"])) % 3 else b).step(op)
        M.check_all(a)
        M.check_all(b)


def nontrivial(c):
    kinds = {o[0] for o in c["ops"]}
    return len(c["ops"]) >= 8 and len(kinds) >= 6


FACETS = [
    Facet("history", cases, check, nontrivial, lambda c: M.labels(c["ops"]), quick=21000,
          rule="call histories checked against the model after every call; non-trivial: >= 8 calls of >= 6 kinds"),
    Facet("two_databases", cases, check_two, nontrivial, lambda c: M.labels(c["ops"]), quick=6000,
          rule="one history spread over two databases; non-trivial as above"),
]
ASSUMPTIONS = ["scope goal and the COVER_GOAL property of a scope are one value, as in the code",
               "cover items created directly on an instance are reached by index (getIthCoverItem)"]
