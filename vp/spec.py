"""Reference data model.

spec  = {"insts": [INST], "hist": [HIST]?, "raw": number? (see build)}
INST  = {"n": name, "du": design-unit name, "cgs": [CG], "src": SRC?, "iw": weight of the instance?,
         "duw", "dusrc": weight and source of the design unit (of the first instance naming it)?}
CG    = {"n", "w", "cps": [CP], "crs": [CR], "insts": [CI], "src": SRC?}
CI    = {"n", "w", "cps": [CP], "crs": [CR]}
CP    = {"n", "w", "al", "bins": [[name, kind, count]]}
CR    = {"n", "w", "al", "cps": [coverpoint names], "bins": [[name, kind, count]]}
SRC   = [file name or None, line, token]
kind  = "b" ordinary | "g" ignore | "l" illegal

"tree" is what `extract` reads from a database and what the model functions predict:
same shape, bins = [name, kind, count, at_least], crosses hold ["cps"] = names of the crossed
coverpoints and "ix" = their positions among the sibling coverpoints (by object identity).
"""
import copy
from .core import Violation

KINDS = ("b", "g", "l")


def _k():
    from ucis import UCIS_CVGBIN, UCIS_IGNOREBIN, UCIS_ILLEGALBIN
    return {"b": UCIS_CVGBIN, "g": UCIS_IGNOREBIN, "l": UCIS_ILLEGALBIN}


# ------------------------------------------------------------------ building
def build(spec, db=None):
    """Plays a spec into a pyucis database through the object API."""
    from ucis.mem.mem_factory import MemFactory
    from ucis import (UCIS_OTHER, UCIS_DU_MODULE, UCIS_INSTANCE, UCIS_INST_ONCE,
                      UCIS_ENABLED_STMT, UCIS_SCOPE_UNDER_DU)
    if db is None:
        db = MemFactory.create()
    kinds = _k()
    dus = {}

    def src(x, key="src"):
        from ucis.source_info import SourceInfo
        s = x.get(key)
        if s is None:
            return None
        fh = db.createFileHandle(s[0], "/wd") if s[0] is not None else None
        return SourceInfo(fh, s[1], s[2])

    raw = spec.get("raw", 0)
    pts = [0]

    def bins(scope, p):
        """raw: some points get their bins with createNextCover instead of createBin"""
        pts[0] += 1
        k = pts[0] * raw
        if k % 3 != 1:
            for b in p["bins"]:
                scope.createBin(b[0], None, b[3] if len(b) > 3 else p["al"], b[2], b[0], kinds[b[1]])
            return
        from ucis.cover_data import CoverData
        from ucis.cover_flags_t import CoverFlagsT as F
        for b in p["bins"]:
            cd = CoverData(kinds[b[1]], F.IS_32BIT | F.HAS_GOAL | F.HAS_WEIGHT if k % 2 else 0)
            cd.data = b[2]
            al = b[3] if len(b) > 3 else p["al"]
            if al != 1 or k % 4 == 0:
                # the default of cover data is a threshold of 1
                cd.at_least = al
            cd.goal, cd.weight = (0, al, 7, -1)[k % 4], k % 5
            scope.createNextCover(b[0], cd, None)

    def fill(scope, cg):
        m = {}
        for cp in cg["cps"]:
            c = scope.createCoverpoint(cp["n"], src(cp), cp["w"], UCIS_OTHER)
            m[cp["n"]] = c
            bins(c, cp)
        for cr in cg["crs"]:
            x = scope.createCross(cr["n"], src(cr), cr["w"], UCIS_OTHER, [m[n] for n in cr["cps"]])
            bins(x, cr)

    for inst in spec["insts"]:
        if inst["du"] not in dus:
            dus[inst["du"]] = db.createScope(inst["du"], src(inst, "dusrc" if "dusrc" in inst else "src"), inst.get("duw", 1), UCIS_OTHER, UCIS_DU_MODULE,
                                             UCIS_ENABLED_STMT | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU)
        isc = db.createInstance(inst["n"], src(inst), inst.get("iw", 1), UCIS_OTHER, UCIS_INSTANCE,
                                dus[inst["du"]], UCIS_INST_ONCE)
        for cg in inst["cgs"]:
            g = isc.createCovergroup(cg["n"], src(cg), cg["w"], UCIS_OTHER)
            fill(g, cg)
            for ci in cg["insts"]:
                fill(g.createCoverInstance(ci["n"], src(ci), ci["w"], UCIS_OTHER), ci)
    nodes = []
    for h in spec.get("hist", ()):
        nodes.append(add_history(db, h, nodes))
    return db


HIST_FIELDS = ("sim", "unit", "cwd", "cpu", "seed", "cmd", "args", "comp", "date", "user",
               "cost", "cat", "vid", "vtool", "vver", "same", "comment")
_HSET = dict(sim="setSimTime", unit="setTimeUnit", cwd="setRunCwd", cpu="setCpuTime",
             seed="setSeed", cmd="setCmd", args="setArgs", comp="setCompulsory", date="setDate",
             user="setUserName", cost="setCost", cat="setToolCategory", vid="setVendorId",
             vtool="setVendorTool", vver="setVendorToolVersion", same="setSameTests",
             comment="setComment")


def add_history(db, h, nodes=()):
    """nodes: the history nodes created before; h["up"] counts back from the last of them to the parent
    h: {"ln","pn","kind"(int|text|None),"status"(name|None), field..., "td": use setTestData}"""
    from ucis.history_node_kind import HistoryNodeKind
    from ucis.test_status_t import TestStatusT
    from ucis.test_data import TestData
    kind = HistoryNodeKind(h["kind"]) if isinstance(h.get("kind"), int) else h.get("kind")
    up = h.get("up")
    n = db.createHistoryNode(nodes[-1 - up % len(nodes)] if nodes and up is not None else None, h["ln"], h.get("pn"), kind)
    if h.get("td"):
        n.setTestData(TestData(TestStatusT[h["status"]], h["cat"], h["date"], simtime=h["sim"],
                               timeunit=h["unit"], runcwd=h["cwd"], cputime=h["cpu"], seed=h["seed"],
                               cmd=h["cmd"], args=h["args"], compulsory=h["comp"], user=h["user"],
                               cost=h["cost"]))
        rest = ("vid", "vtool", "vver", "same", "comment")
    else:
        if h.get("status") is not None:
            n.setTestStatus(TestStatusT[h["status"]])
        rest = HIST_FIELDS
    for f in rest:
        if h.get(f) is not None:
            getattr(n, _HSET[f])(h[f])
    return n


# ------------------------------------------------------------------ extraction
def kind_of(t):
    for k, v in _k().items():
        if t == v:
            return k
    return "type:%x" % int(t)


ALL64 = 0xFFFFFFFFFFFFFFFF


def ex_bins(scope):
    return [[ci.getName(), kind_of(ci.getCoverData().type), ci.getCoverData().data,
             ci.getCoverData().at_least] for ci in scope.coverItems(ALL64)]


def ex_points(scope):
    from ucis.scope_type_t import ScopeTypeT
    cps = list(scope.scopes(ScopeTypeT.COVERPOINT))
    crs = list(scope.scopes(ScopeTypeT.CROSS))
    out = dict(cps=[dict(n=c.getScopeName(), w=c.getWeight(), bins=ex_bins(c)) for c in cps], crs=[])
    for x in crs:
        pts = [x.getIthCrossedCoverpoint(i) for i in range(x.getNumCrossedCoverpoints())]
        ix = []
        for p in pts:
            f = [i for i, c in enumerate(cps) if c is p]
            ix.append(f[0] if f else -1)
        out["crs"].append(dict(n=x.getScopeName(), w=x.getWeight(), bins=ex_bins(x),
                               cps=[p.getScopeName() for p in pts], ix=ix))
    return out


def ex_cg(g, top=True):
    from ucis.scope_type_t import ScopeTypeT
    d = dict(n=g.getScopeName(), w=g.getWeight(), **ex_points(g))
    kids = list(g.scopes(ScopeTypeT.COVERINSTANCE))
    total = len(list(g.scopes(ScopeTypeT.ALL)))
    if total != len(d["cps"]) + len(d["crs"]) + len(kids):
        raise Violation("covergroup %r has %d children, of which only %d are coverpoints, crosses or instances"
                        % (d["n"], total, len(d["cps"]) + len(d["crs"]) + len(kids)))
    if top:
        d["insts"] = [ex_cg(k, False) for k in kids]
    elif kids:
        raise Violation("covergroup instance %r contains covergroup instances" % d["n"])
    return d


def extract(db):
    """Functional coverage of a database as a plain tree."""
    from ucis.scope_type_t import ScopeTypeT
    out = []
    for i in db.scopes(ScopeTypeT.INSTANCE):
        du = i.getInstanceDu()
        cgs = [ex_cg(g) for g in i.scopes(ScopeTypeT.COVERGROUP)]
        if len(list(i.scopes(ScopeTypeT.ALL))) != len(cgs):
            raise Violation("instance %r has unexpected children" % i.getScopeName())
        out.append(dict(n=i.getScopeName(), du=None if du is None else du.getScopeName(), cgs=cgs))
    return dict(insts=out)


def inst_weights(db):
    """{instance name: [its weight, the weight of its design unit]}"""
    from ucis.scope_type_t import ScopeTypeT
    out = {}
    for i in db.scopes(ScopeTypeT.INSTANCE):
        out.setdefault(i.getScopeName(), [i.getWeight(), i.getInstanceDu().getWeight()])
    return out


def spec_inst_weights(specs):
    out = {}
    for s in specs:
        dus = {}
        for i in s["insts"]:
            dus.setdefault(i["du"], i.get("duw", 1))
            out.setdefault(i["n"], [i.get("iw", 1), dus[i["du"]]])
    return out


# ------------------------------------------------------------------ model functions
def points_tree(cg):
    names = [c["n"] for c in cg["cps"]]
    return dict(
        cps=[dict(n=c["n"], w=c["w"], bins=[[b[0], b[1], b[2], b[3] if len(b) > 3 else c["al"]] for b in c["bins"]])
             for c in cg["cps"]],
        crs=[dict(n=c["n"], w=c["w"], cps=list(c["cps"]), ix=[names.index(n) for n in c["cps"]],
                  bins=[[b[0], b[1], b[2], b[3] if len(b) > 3 else c["al"]] for b in c["bins"]]) for c in cg["crs"]])


def tree_of(spec):
    """The tree a faithful database built from the spec shows."""
    return dict(insts=[dict(n=i["n"], du=i["du"], cgs=[
        dict(n=g["n"], w=g["w"], insts=[dict(n=c["n"], w=c["w"], **points_tree(c)) for c in g["insts"]],
             **points_tree(g)) for g in i["cgs"]]) for i in spec["insts"]])


def sum_points(insts):
    """Type-level coverpoints/crosses: union over instances in first-appearance order, counts summed."""
    cps, crs = [], []
    for inst in insts:
        for key, acc in (("cps", cps), ("crs", crs)):
            for p in inst[key]:
                t = next((x for x in acc if x["n"] == p["n"]), None)
                if t is None:
                    t = copy.deepcopy(p)
                    t["bins"] = []
                    acc.append(t)
                for b in p["bins"]:
                    tb = next((x for x in t["bins"] if x[0] == b[0] and x[1] == b[1]), None)
                    if tb is None:
                        t["bins"].append(list(b))
                    else:
                        tb[2] += b[2]
    names = [c["n"] for c in cps]
    for c in crs:
        c["ix"] = [names.index(n) for n in c["cps"]]
    return dict(cps=cps, crs=crs)


def xml_view(tree):
    """What a tree looks like after an XML round trip: type-only covergroups gain one instance of
    the same name; type-level data is the sum of the instances."""
    t = copy.deepcopy(tree)
    for i in t["insts"]:
        for g in i["cgs"]:
            if not g["insts"]:
                g["insts"] = [dict(n=g["n"], w=g["w"], cps=copy.deepcopy(g["cps"]), crs=copy.deepcopy(g["crs"]))]
            g.update(sum_points(g["insts"]))
    return t


def by_kind(tree):
    """Normal form insensitive to the relative order of bins of different kinds."""
    t = copy.deepcopy(tree)

    def fix(p):
        for k in ("cps", "crs"):
            for c in p[k]:
                c["bins"] = sorted(c["bins"], key=lambda b: KINDS.index(b[1]) if b[1] in KINDS else 9)
    for i in t["insts"]:
        for g in i["cgs"]:
            fix(g)
            for c in g["insts"]:
                fix(c)
    return t


def unordered(tree):
    """Normal form insensitive to the order of everything (names unique per level assumed)."""
    t = copy.deepcopy(tree)

    def fix(p):
        for k in ("cps", "crs"):
            for c in p[k]:
                c["bins"].sort()
                c.pop("ix", None)
            p[k].sort(key=lambda c: c["n"])
    for i in t["insts"]:
        for g in i["cgs"]:
            fix(g)
            for c in g["insts"]:
                fix(c)
            g["insts"].sort(key=lambda c: c["n"])
        i["cgs"].sort(key=lambda c: c["n"])
    t["insts"].sort(key=lambda c: c["n"])
    return t


def drop_weights(tree):
    t = copy.deepcopy(tree)
    def walk(x):
        if isinstance(x, dict):
            x.pop("w", None)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(t)
    return t


# ------------------------------------------------------------------ comparison
def diff(exp, got, path=""):
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in sorted(set(exp) | set(got)):
            if k not in exp:
                return "%s.%s: unexpected %r" % (path, k, got[k])
            if k not in got:
                return "%s.%s: missing, expected %r" % (path, k, exp[k])
            d = diff(exp[k], got[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(exp, (list, tuple)) and isinstance(got, (list, tuple)):
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        if len(exp) != len(got):
            return "%s: expected %d items %.300r, got %d %.300r" % (path, len(exp), exp, len(got), got)
        return None
    if isinstance(exp, str) and isinstance(got, str) and exp != got and max(len(exp), len(got)) > 200:
        k = next((i for i, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
        return "%s: character %d: expected ...%r, got ...%r" % (path, k, exp[max(0, k - 60):k + 60], got[max(0, k - 60):k + 60])
    if exp != got or (isinstance(exp, bool) != isinstance(got, bool)):
        return "%s: expected %r, got %r" % (path, exp, got)
    return None


def require_equal(exp, got, what):
    d = diff(exp, got)
    if d:
        raise Violation("%s differs at %s" % (what, d))


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def cg_list(spec):
    return [g for i in spec["insts"] for g in i["cgs"]]


def all_points(spec):
    for g in cg_list(spec):
        for p in [g] + g["insts"]:
            for c in p["cps"]:
                yield "cp", c
            for c in p["crs"]:
                yield "cr", c


# ------------------------------------------------------------------ deep snapshot
def _src(s):
    if s is None:
        return None
    return [s.file.getFileName() if s.file is not None else None, s.line, s.token]


_CVG = ("getAtLeast", "getAutoBinMax", "getDetectOverlap", "getStrobe", "getComment", "getPerInstance",
        "getMergeInstances")
_HIST = ("getLogicalName", "getPhysicalName", "getKind", "getTestStatus", "getSimTime", "getTimeUnit", "getRunCwd",
         "getCpuTime", "getSeed", "getCmd", "getArgs", "getCompulsory", "getDate", "getUserName", "getCost",
         "getToolCategory", "getUCISVersion", "getVendorId", "getVendorTool", "getVendorToolVersion",
         "getSameTests", "getComment")


def snap_scope(s):
    d = dict(name=s.getScopeName(), type=int(s.getScopeType()), weight=s.getWeight(), goal=s.getGoal(),
             src=_src(s.getSourceInfo()))
    for g in _CVG:
        if hasattr(s, g):
            try:
                d[g] = getattr(s, g)()
            except NotImplementedError:
                pass
    if hasattr(s, "getNumCrossedCoverpoints"):
        d["cross"] = [s.getIthCrossedCoverpoint(i).getScopeName() for i in range(s.getNumCrossedCoverpoints())]
    if hasattr(s, "getInstanceDu"):
        du = s.getInstanceDu()
        d["du"] = None if du is None else du.getScopeName()
    d["items"] = [[c.getName(), int(c.getCoverData().type), c.getCoverData().data, getattr(c.getCoverData(), "at_least", None),
                   c.getCoverData().goal, c.getCoverData().weight, _src(c.getSourceInfo())] for c in s.coverItems(ALL64)]
    d["kids"] = [snap_scope(k) for k in s.scopes(ALL64)]
    return d


def snapshot(db):
    """Everything observable about a database, as plain data."""
    from ucis.history_node_kind import HistoryNodeKind
    return dict(scopes=[snap_scope(k) for k in db.scopes(ALL64)],
                items=[[c.getName(), c.getCoverData().data] for c in db.coverItems(ALL64)],
                hist=[[getattr(h, g)() for g in _HIST] for h in db.historyNodes(HistoryNodeKind.ALL)])


#: settings of scopes that neither the merge nor the report interprets
SETTINGS = {"setGoal": (0, 1, 50, 90, 100, 101, -1), "setAutoBinMax": (0, 1, 64, 65), "setDetectOverlap": (True, False), "setStrobe": (0, 1, 5),
            "setComment": ("", "c", "x y", "\u00e9"), "setPerInstance": (True, False), "setMergeInstances": (True, False)}


ITEM_SETTINGS = {"goal": (0, 1, -1, 50, 2**40), "weight": (0, 1, 2, -1), "limit": (0, 1, 7), "flags": (0,)}


def tweak(db, changes):
    """changes: [[scope position, setting, value position]]; settings a scope does not have are skipped.
    Settings beyond those of scopes are settings of cover items."""
    if not changes:
        return
    all_s = []

    def walk(s):
        for k in s.scopes(ALL64):
            all_s.append(k)
            walk(k)
    walk(db)
    names = sorted(SETTINGS)
    inames = sorted(ITEM_SETTINGS)
    items = None
    for pos, what, val in changes:
        if what % 12 >= len(names):
            items = all_items(db) if items is None else items
            if items:
                cd, n = items[pos % len(items)].getCoverData(), inames[what % len(inames)]
                if hasattr(cd, n):
                    setattr(cd, n, ITEM_SETTINGS[n][val % len(ITEM_SETTINGS[n])])
        elif all_s:
            what %= 12
            s, n = all_s[pos % len(all_s)], names[what % len(names)]
            if hasattr(s, n):
                s_vals = SETTINGS[n]
                getattr(s, n)(s_vals[val % len(s_vals)])


def all_items(db):
    """Every cover item of a database in traversal order."""
    out = []

    def walk(s):
        out.extend(s.coverItems(ALL64))
        for k in s.scopes(ALL64):
            walk(k)
    for k in db.scopes(ALL64):
        walk(k)
    return out


# ------------------------------------------------------------------ reference merge
def merge_trees(trees):
    """Union of structure, sum of hits per (path, kind, bin name); first appearance order."""
    def group(lists):
        out = {}
        for l in lists:
            for x in l:
                out.setdefault(x["n"], []).append(x)
        return out

    def m_bins(pts):
        out = []
        for k in KINDS:
            acc = {}
            for p in pts:
                for b in p["bins"]:
                    if b[1] == k:
                        acc.setdefault(b[0], [b[0], k, 0, b[3]])[2] += b[2]
            out += list(acc.values())
        return out

    def m_points(scopes):
        cps = [dict(n=n, w=xs[0]["w"], bins=m_bins(xs)) for n, xs in group([s["cps"] for s in scopes]).items()]
        names = [c["n"] for c in cps]
        crs = [dict(n=n, w=xs[0]["w"], cps=list(xs[0]["cps"]), ix=[names.index(p) for p in xs[0]["cps"]], bins=m_bins(xs))
               for n, xs in group([s["crs"] for s in scopes]).items()]
        return dict(cps=cps, crs=crs)

    out = []
    for n, insts in group([t["insts"] for t in trees]).items():
        cgs = []
        for gn, gs in group([i["cgs"] for i in insts]).items():
            cgs.append(dict(n=gn, w=gs[0]["w"], insts=[dict(n=cn, w=cs[0]["w"], **m_points(cs))
                                                       for cn, cs in group([g["insts"] for g in gs]).items()], **m_points(gs)))
        out.append(dict(n=n, du=insts[0]["du"], cgs=cgs))
    return dict(insts=out)


def check_own_dus(db, what):
    """Every instance refers to a design unit of its own database."""
    from ucis.scope_type_t import ScopeTypeT
    own = list(db.scopes(ScopeTypeT.ALL))
    for i in db.scopes(ScopeTypeT.INSTANCE):
        du = i.getInstanceDu()
        if du is not None and not any(du is s for s in own):
            raise Violation("%s: instance %r refers to a design unit outside its database" % (what, i.getScopeName()))


def check_membership(tree, what):
    """Every cross refers to coverpoint objects of its own scope, with the right names."""
    for i in tree["insts"]:
        for g in i["cgs"]:
            for s in [g] + g["insts"]:
                for c in s["crs"]:
                    for n, ix in zip(c["cps"], c["ix"]):
                        if ix < 0 or s["cps"][ix]["n"] != n:
                            raise Violation("%s: cross %r of %r refers to a coverpoint %r outside its scope" % (
                                what, c["n"], s["n"], n))
