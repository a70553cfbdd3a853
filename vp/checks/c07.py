"""C07 Merge obeys its algebra and leaves its sources untouched."""
from hypothesis import strategies as st
from ..core import Facet
from .. import gen, spec as S
from .c06 import OPT, new_db, build_all


@st.composite
def cases(draw):
    srcs = draw(gen.source_list(OPT, wide=True))
    n = len(srcs)
    return dict(srcs=srcs, perm=list(draw(st.permutations(list(range(n))))), cut=draw(st.integers(0, n)),
                tweaks=[draw(gen.tweaks) for _ in srcs], empties=draw(st.lists(st.integers(0, n), max_size=2)), rep=draw(st.integers(2, 3)),
                incs=draw(st.lists(st.tuples(st.integers(0, 1000), st.integers(1, 9), st.booleans()), min_size=1, max_size=5)))


def merge(dbs):
    from ucis.merge.db_merger import DbMerger
    d = new_db()
    DbMerger().merge(d, dbs)
    return d


def view(db):
    t = S.extract(db)
    S.check_membership(t, "merged database")
    return dict(S.unordered(t), weights=S.inst_weights(db))


def crosses(db):
    from ucis.scope_type_t import ScopeTypeT as T
    out = []

    def walk(s):
        for k in s.scopes(S.ALL64):
            if k.getScopeType() == T.CROSS:
                out.append(k)
            walk(k)
    walk(db)
    return out


def check(c):
    dbs = build_all(c["srcs"])
    for d, t in zip(dbs, c.get("tweaks", ())):
        S.tweak(d, t)
    before = [S.snapshot(d) for d in dbs]
    m = merge(dbs)
    base = view(m)
    S.require_equal(before, [S.snapshot(d) for d in dbs], "sources after merging")
    S.require_equal(base, view(merge([dbs[i] for i in c["perm"]])), "merge of permuted sources %r" % c["perm"])
    # bracketing
    a, b = dbs[:c["cut"]], dbs[c["cut"]:]
    S.require_equal(base, view(merge([merge(a), merge(b)])), "merge of partial merges (cut at %d)" % c["cut"])
    S.require_equal(base, view(merge([merge([m])])), "copy of a copy")
    acc = merge(dbs[:1])
    for d in dbs[1:]:
        acc = merge([acc, d])
    S.require_equal(base, view(acc), "left fold of pairwise merges")
    # empty sources
    l = list(dbs)
    for k in c["empties"]:
        l.insert(k, new_db())
    S.require_equal(base, view(merge(l)), "merge with empty sources inserted")
    # n times
    def times(t, n):
        for i in t["insts"]:
            for g in i["cgs"]:
                for s in [g] + g["insts"]:
                    for p in s["cps"] + s["crs"]:
                        for x in p["bins"]:
                            x[2] *= n
        return t
    S.require_equal(dict(S.unordered(times(S.extract(m), c["rep"])), weights=S.inst_weights(m)), view(merge([m] * c["rep"])), "merge of %d copies" % c["rep"])
    S.require_equal(before, [S.snapshot(d) for d in dbs], "sources after all merges")
    # no aliasing
    items = S.all_items(m)
    sitems = [S.all_items(d) for d in dbs]
    flat = [x for s in sitems for x in s]
    for pos, amt, on_dst in c["incs"]:
        if on_dst and items:
            snap = [S.snapshot(d) for d in dbs]
            it = items[pos % len(items)]
            was = it.getCoverData().data
            it.incrementCover(amt)
            S.require(it.getCoverData().data == was + amt, "increment of a merged bin")
            S.require_equal(snap, [S.snapshot(d) for d in dbs], "sources after incrementing a merged bin")
        elif not on_dst and flat:
            snap = S.snapshot(m)
            flat[pos % len(flat)].incrementCover(amt)
            S.require_equal(snap, S.snapshot(m), "merged database after incrementing a source bin")
    # neither are the coverpoints reached through crosses
    snap = [S.snapshot(d) for d in dbs]
    for x in crosses(m):
        for k in range(x.getNumCrossedCoverpoints()):
            x.getIthCrossedCoverpoint(k).createBin("grown through a cross", None, 1, 1, "")
    S.require_equal(snap, [S.snapshot(d) for d in dbs], "sources after growing the coverpoints crossed in the merged database")
    # structural growth is not shared either
    for i in m.scopes(S.ALL64):
        if hasattr(i, "createCovergroup"):
            snap = [S.snapshot(d) for d in dbs]
            for g in list(i.scopes(S.ALL64)):
                g.setWeight(g.getWeight() + 7)
                for p in list(g.scopes(S.ALL64)):
                    p.setWeight(p.getWeight() + 3)
                    if hasattr(p, "createBin"):
                        p.createBin("grown", None, 1, 1, "")
            i.createCovergroup("grown", None, 1, 0)
            S.require_equal(snap, [S.snapshot(d) for d in dbs], "sources after growing the merged database")


FACETS = [Facet("algebra", cases, check, nontrivial=lambda c: gen.overlapping(c["srcs"]),
                labels=lambda c: gen.sources_labels(c["srcs"]) | {"perm!=id" if c["perm"] != sorted(c["perm"]) else "perm=id"},
                quick=2000, rule="lists of overlapping sources with a permutation, a cut, empty insertions and increments; non-trivial: a covergroup occurs in two sources")]
ASSUMPTIONS = ["as C06"]
