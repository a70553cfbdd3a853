"""C03 Test history survives the XML round trip."""
import os
import time
from hypothesis import strategies as st
from ..core import Facet
from .. import gen, spec as S, xmlutil as X

TZS = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "<-11>11", "<+14>-14"]
GET = dict(ln="getLogicalName", pn="getPhysicalName", sim="getSimTime", unit="getTimeUnit", cwd="getRunCwd",
           cpu="getCpuTime", seed="getSeed", cmd="getCmd", args="getArgs", comp="getCompulsory", date="getDate",
           user="getUserName", cost="getCost", cat="getToolCategory", vid="getVendorId", vtool="getVendorTool",
           vver="getVendorToolVersion", same="getSameTests", comment="getComment")


@st.composite
def cases(draw):
    hs = gen.same_as_parent(draw(st.lists(gen.history(), min_size=1, max_size=5)))
    if draw(st.integers(0, 24)) == 24:
        # more than ten nodes
        hs = [dict(h, ln="%s_%d" % (h["ln"], k)) for k in range(draw(st.sampled_from([3, 4, 13, 40]))) for h in hs]
    return dict(hist=hs, tz=draw(st.sampled_from(TZS)))


def get(n):
    from ucis.test_status_t import TestStatusT
    d = {k: getattr(n, g)() for k, g in GET.items()}
    d["kind"] = n.getKind()
    d["passed"] = n.getTestStatus() == TestStatusT.OK
    return d


def check(c):
    from ucis.history_node_kind import HistoryNodeKind as K
    os.environ["TZ"] = c["tz"]
    time.tzset()
    try:
        spec = dict(insts=[dict(n="i", du="d", cgs=[])], hist=c["hist"])
        db = S.build(spec)
        before = [get(n) for n in db.historyNodes(K.ALL)]
        S.require(len(before) == len(c["hist"]), "database holds %d history nodes, %d created" % (len(before), len(c["hist"])))
        for h, b in zip(c["hist"], before):
            for k in GET:
                if h.get(k) is not None:
                    S.require(b[k] == h[k], "history field %s set to %r reads %r" % (k, h[k], b[k]))
            S.require(b["passed"] == (h["status"] in (None, "OK")), "status %r reads passed=%r" % (h["status"], b["passed"]))
            S.require(b["kind"] == h.get("kind"), "kind %r reads %r" % (h.get("kind"), b["kind"]))
        text = X.write_text(db)
        X.require_valid(text, "written document")
        back = X.read_text(text)
        after = [get(n) for n in back.historyNodes(K.ALL)]
        S.require_equal(before, after, "history after XML round trip")
        for k in (K.TEST, K.MERGE):
            S.require_equal([get(n) for n in db.historyNodes(k)], [get(n) for n in back.historyNodes(k)],
                            "history nodes of kind %s" % k.name)
            S.require([get(n)["ln"] for n in back.historyNodes(k)] == [h["ln"] for h in c["hist"] if h.get("kind") == int(k)],
                      "history nodes selected by kind %s" % k.name)
        # status as the failing kinds see it
        for h, n in zip(c["hist"], back.historyNodes(K.ALL)):
            from ucis.test_status_t import TestStatusT as T
            st_ = n.getTestStatus()
            S.require((st_ == T.OK) == (h["status"] in (None, "OK")), "test status %r became %r" % (h["status"], st_))
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()


def labels(c):
    ls = {"tz=" + c["tz"][:4]}
    for h in c["hist"]:
        ls.add("status=%s" % h["status"])
        ls.add("kind=%s" % h["kind"])
        ls.add("testdata" if h["td"] else "setters")
        if any(h.get(k) is None for k in S.HIST_FIELDS):
            ls.add("some_unset")
    return ls


FACETS = [Facet("history", cases, check, nontrivial=lambda c: sum(1 for h in c["hist"] for k in S.HIST_FIELDS if h.get(k) is not None) >= 3,
                labels=labels, quick=12000, rule="history lists; non-trivial: at least three optional attributes set")]
ASSUMPTIONS = ["statuses OK, ERROR, FATAL or unset"]
