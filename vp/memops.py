"""Histories of database calls as plain data, an interpreter for the object API, and the model of what an
in-memory database must show afterwards.

A history is a list of ops [name, args...] whose object references are small integers taken modulo the number of
candidate objects existing at that point, so every generated list is executable."""
import random
from hypothesis import strategies as st
from . import gen
from .core import Violation

NAMES = st.one_of(gen.simple_names, gen.simple_names, gen.line_names)
REF = st.integers(0, 30)
W = st.sampled_from([0, 1, 1, 2, 5, 100])
CNT = st.one_of(st.integers(0, 5), gen.counts)
DU_TYPES = ["DU_MODULE", "DU_ARCH", "DU_PACKAGE", "DU_PROGRAM", "DU_INTERFACE"]
SRC_T = ["VHDL", "VLOG", "SV", "SYSTEMC", "E", "VERA", "NONE", "OTHER"]
BIN_T = ["CVGBIN", "IGNOREBIN", "ILLEGALBIN", "DEFAULTBIN", "STMTBIN", "USERBIN", "TOGGLEBIN", "COVERBIN", "BLOCKBIN"]
SRCI = st.none() | st.tuples(st.none() | st.sampled_from(["a.sv", "b.sv", "dir/c.sv", "./a.sv"]), st.integers(-1, 500), st.integers(-1, 9))

INT_SCOPE = ["SCOPE_WEIGHT", "SCOPE_GOAL", "COVER_GOAL", "SCOPE_SOURCE_TYPE"]
INT_CVG = ["CVG_ATLEAST", "CVG_AUTOBINMAX", "CVG_DETECTOVERLAP", "CVG_STROBE"]
INT_CG = ["CVG_PERINSTANCE", "CVG_MERGEINSTANCES"]
SETTERS = dict(weight="setWeight", goal="setGoal", at_least="setAtLeast", auto_bin_max="setAutoBinMax",
               overlap="setDetectOverlap", strobe="setStrobe", comment="setComment", per_inst="setPerInstance",
               merge_inst="setMergeInstances")
GETTERS = dict(weight="getWeight", goal="getGoal", at_least="getAtLeast", auto_bin_max="getAutoBinMax",
               overlap="getDetectOverlap", strobe="getStrobe", comment="getComment", per_inst="getPerInstance",
               merge_inst="getMergeInstances")
PROP_OF = dict(SCOPE_WEIGHT="weight", SCOPE_GOAL="goal", COVER_GOAL="goal", SCOPE_SOURCE_TYPE="source_type",
               CVG_ATLEAST="at_least", CVG_AUTOBINMAX="auto_bin_max", CVG_DETECTOVERLAP="overlap", CVG_STROBE="strobe",
               CVG_PERINSTANCE="per_inst", CVG_MERGEINSTANCES="merge_inst")
BOOL_ATTR = ("overlap", "per_inst", "merge_inst")
ATTRS = {"scope": ["weight", "goal"], "cvg": ["at_least", "auto_bin_max", "overlap", "strobe", "comment"], "cg": ["per_inst", "merge_inst"]}
HSET = dict(status="TestStatus", sim="SimTime", unit="TimeUnit", cwd="RunCwd", cpu="CpuTime", seed="Seed", cmd="Cmd",
            args="Args", comp="Compulsory", date="Date", user="UserName", cost="Cost", cat="ToolCategory", vid="VendorId",
            vtool="VendorTool", vver="VendorToolVersion", same="SameTests", comment="Comment")

ops = st.one_of(
    st.tuples(st.just("du"), REF, NAMES, W, st.sampled_from(DU_TYPES), st.sampled_from(SRC_T), SRCI),
    st.tuples(st.just("inst"), REF, NAMES, W, REF, st.sampled_from(SRC_T), SRCI),
    st.tuples(st.just("cg"), REF, NAMES, W, st.booleans(), SRCI),
    st.tuples(st.just("ci"), REF, NAMES, W, st.booleans(), SRCI),
    st.tuples(st.just("cp"), REF, NAMES, W, st.booleans(), SRCI),
    st.tuples(st.just("cp"), REF, NAMES, W, st.booleans(), SRCI),
    st.tuples(st.just("cross"), REF, NAMES, W, st.lists(REF, min_size=1, max_size=3), SRCI),
    st.tuples(st.just("bin"), REF, NAMES, st.sampled_from(["CVGBIN", "CVGBIN", "IGNOREBIN", "ILLEGALBIN", "DEFAULTBIN"]), CNT, W, SRCI),
    st.tuples(st.just("bin"), REF, NAMES, st.sampled_from(["CVGBIN", "CVGBIN", "IGNOREBIN", "ILLEGALBIN"]), CNT, W, SRCI),
    st.tuples(st.just("next"), REF, NAMES, st.sampled_from(BIN_T), CNT, st.integers(0, 9), st.integers(0, 9), SRCI),
    st.tuples(st.just("stmt"), REF, NAMES, CNT, SRCI),
    st.tuples(st.just("stmt_index"), REF, REF, st.integers(0, 50)),
    st.tuples(st.just("toggle"), REF, NAMES, st.sampled_from(["NET", "REG"]), st.sampled_from(["INTERNAL", "IN", "OUT", "INOUT"])),
    st.tuples(st.just("inc"), REF, st.none() | st.integers(0, 2**33)),
    st.tuples(st.just("inc"), REF, st.none() | st.integers(0, 5)),
    st.tuples(st.just("set"), REF, st.integers(0, 20), st.integers(0, 120), st.booleans()),
    st.tuples(st.just("set"), REF, st.integers(0, 20), st.integers(0, 1), st.booleans()),
    st.tuples(st.just("comment"), REF, st.sampled_from(["", "c", "x y", "\u00e9"]), st.booleans()),
    st.tuples(st.just("file"), st.sampled_from(["a.sv", "b.sv", "dir/c.sv", "A.sv", "", "./a.sv", "dir/../a.sv", "dir//c.sv", "dir\\c.sv", "a.sv ", "/wd/a.sv", "~/a.sv", "$X/a.sv", "dir/"]), st.sampled_from([None, ".", "/wd"])),
    st.tuples(st.just("hist"), st.none() | REF, NAMES, st.none() | NAMES, st.sampled_from([1, 1, 2, None])),
    st.tuples(st.just("hset"), REF, st.sampled_from(sorted(HSET)), st.integers(0, 5)),
    st.tuples(st.just("htd"), REF, st.integers(0, 50)),
    st.tuples(st.just("open"), REF, st.sampled_from(["scopes", "items", "hist"]), st.integers(0, 15)),
    st.tuples(st.just("adv"), REF, st.integers(1, 3)),
    st.tuples(st.just("covinst"), NAMES, REF),
    st.tuples(st.just("db"), st.sampled_from(["by", "time"]), st.integers(0, 2**33)),
)
SEED_OPS = [["du", 0, "du0", 1, "DU_MODULE", "SV", None], ["inst", 0, "i0", 1, 0, "SV", None], ["cg", 0, "cg0", 1, False, None],
            ["cp", 0, "cp0", 1, False, None], ["cp", 0, "cp1", 1, True, None]]


@st.composite
def histories(draw, lo=3, hi=28):
    l = [list(o) for o in draw(st.lists(ops, min_size=lo, max_size=hi))]
    if draw(st.integers(0, 4)):
        l = [list(o) for o in SEED_OPS] + l
    return l


MASKS = ["ALL", "INSTANCE", "COVERGROUP", "COVERINSTANCE", "COVERPOINT", "CROSS", "TOGGLE", "DU_MODULE", "DU_PACKAGE", "DU_ARCH",
         "DU_PROGRAM", "DU_INTERFACE", "BLOCK", "FSM"]


def _unions(T, memo={}):
    """Arbitrary unions of members of a type enumeration, and complements."""
    if T not in memo:
        r = random.Random(7)
        one = [int(m) for m in T.__members__.values() if int(m) and not int(m) & (int(m) - 1)]
        out = []
        for i in range(10):
            m = 0
            for x in r.sample(one, r.randrange(2, 9)):
                m |= x
            out.append(m if i % 2 else m ^ 0x0000FFFFFFFFFFFF)
        memo[T] = out
    return memo[T]


def scope_masks(k=None):
    """Masks to probe: singles and unions."""
    from ucis.scope_type_t import ScopeTypeT as T
    ms = [T[m] for m in MASKS] + [T.COVERPOINT | T.CROSS, T.COVERGROUP | T.COVERINSTANCE, T.INSTANCE | T.COVERGROUP,
                                  T.CROSS | T.COVERINSTANCE | T.TOGGLE, T.DU_MODULE | T.DU_ARCH | T.DU_PACKAGE | T.DU_PROGRAM | T.DU_INTERFACE,
                                  0x4000, 0xFFFFFFFFFFFF, 0] + _unions(T)
    return ms if k is None else ms[k % len(ms)]


def item_masks(k=None):
    from ucis.cover_type_t import CoverTypeT as T
    ms = [T[m] for m in BIN_T] + [T.CVGBIN | T.IGNOREBIN, T.CVGBIN | T.IGNOREBIN | T.ILLEGALBIN | T.DEFAULTBIN,
                                  T.IGNOREBIN | T.ILLEGALBIN, T.STMTBIN | T.USERBIN, 0xFFFFFFFFFFFFFFFF, 1, 0] + _unions(T)
    return ms if k is None else ms[k % len(ms)]


class Node:
    """Model of one scope."""

    def __init__(self, obj, kind, name, type, src, **attrs):
        self.obj, self.kind, self.name, self.type, self.src = obj, kind, name, type, src
        self.attrs = attrs          # attributes given or set so far
        self.seen = {}              # defaults as first read
        self.kids, self.items, self.stmts = [], [], []
        self.cross = None
        self.du = None


class Model:
    def __init__(self, db):
        from ucis.scope_type_t import ScopeTypeT as T
        self.root = Node(db, "db", "", None, None, weight=1)
        self.all = [self.root]
        self.hist = []              # [obj, {field: value}]
        self.files = {}
        self.iters = []
        self.info = {}
        self.covinsts = []

    def of(self, *kinds):
        return [n for n in self.all if n.kind in kinds]


def pick(l, k):
    return l[k % len(l)] if l else None


class Run:
    """Plays a history on a database through `api` and keeps the model."""

    def __init__(self, db, api):
        self.db, self.api, self.m = db, api, Model(db)

    # ---- helpers
    def src(self, s):
        if s is None:
            return None, None
        from ucis.source_info import SourceInfo
        fh = self.file(s[0]) if s[0] is not None else None
        si = SourceInfo(fh, s[1], s[2])
        return si, [fh, s[1], s[2]]

    def file(self, name, wd="/wd"):
        fh = self.api.createFileHandle(self.db, name, wd)
        if name in self.m.files:
            if self.m.files[name] is not fh:
                raise Violation("a second file handle was created for %r" % name)
        else:
            for k, v in self.m.files.items():
                if v is fh:
                    raise Violation("file names %r and %r share a handle" % (k, name))
            self.m.files[name] = fh
        if fh.getFileName() != name:
            raise Violation("file handle for %r is named %r" % (name, fh.getFileName()))
        return fh

    def add(self, parent, node):
        if any(n.obj is node.obj for n in self.m.all):
            raise Violation("creating %r returned an existing object" % node.name)
        parent.kids.append(node)
        self.m.all.append(node)
        return node

    def step(self, op):
        getattr(self, "op_" + op[0])(*op[1:])

    # ---- creation
    def op_du(self, p, name, w, typ, source, src):
        from ucis.scope_type_t import ScopeTypeT as T
        from ucis.source_t import SourceT
        par = pick(self.m.of("db", "du"), p)
        si, ms = self.src(src)
        o = self.api.createScope(self.db, par.obj, name, si, w, SourceT[source], T[typ], 0)
        self.add(par, Node(o, "du", name, T[typ], ms, weight=w))

    def op_inst(self, p, name, w, du, source, src):
        from ucis.scope_type_t import ScopeTypeT as T
        from ucis.source_t import SourceT
        par = pick(self.m.of("db", "inst"), p)
        d = pick(self.m.of("du"), du)
        si, ms = self.src(src)
        o = self.api.createInstance(self.db, par.obj, name, si, w, SourceT[source], T.INSTANCE, d.obj if d else None, 0)
        n = self.add(par, Node(o, "inst", name, T.INSTANCE, ms, weight=w))
        n.du = d

    def op_cg(self, p, name, w, via_scope, src):
        from ucis.scope_type_t import ScopeTypeT as T
        from ucis.source_t import SourceT
        via_scope = via_scope or self.api.c_only
        # the generic call takes any parent; covergroups mostly live in instances
        par = pick(self.m.of("inst", "du", "db"), p) if via_scope and p > 20 else pick(self.m.of("inst"), p)
        if par is None:
            return
        si, ms = self.src(src)
        if via_scope:
            o = self.api.createScope(self.db, par.obj, name, si, w, SourceT.OTHER, T.COVERGROUP, 0)
        else:
            o = par.obj.createCovergroup(name, si, w, SourceT.OTHER)
        self.add(par, Node(o, "cg", name, T.COVERGROUP, ms, weight=w))

    def op_ci(self, p, name, w, via_scope, src):
        from ucis.scope_type_t import ScopeTypeT as T
        from ucis.source_t import SourceT
        par = pick(self.m.of("cg"), p)
        if par is None:
            return
        si, ms = self.src(src)
        if via_scope or self.api.c_only:
            o = self.api.createScope(self.db, par.obj, name, si, w, SourceT.OTHER, T.COVERINSTANCE, 0)
        else:
            o = par.obj.createCoverInstance(name, si, w, SourceT.OTHER)
        self.add(par, Node(o, "ci", name, T.COVERINSTANCE, ms, weight=w))

    def op_cp(self, p, name, w, via_scope, src):
        from ucis.scope_type_t import ScopeTypeT as T
        from ucis.source_t import SourceT
        par = pick(self.m.of("cg", "ci"), p)
        if par is None:
            return
        si, ms = self.src(src)
        if via_scope or self.api.c_only:
            o = self.api.createScope(self.db, par.obj, name, si, w, SourceT.SV, T.COVERPOINT, 0)
        else:
            o = par.obj.createCoverpoint(name, si, w, SourceT.SV)
        self.add(par, Node(o, "cp", name, T.COVERPOINT, ms, weight=w))

    def op_cross(self, p, name, w, cps, src):
        from ucis.scope_type_t import ScopeTypeT as T
        from ucis.source_t import SourceT
        pars = [n for n in self.m.of("cg", "ci") if any(k.kind == "cp" for k in n.kids)]
        par = pick(pars, p)
        if par is None:
            return
        pts = [k for k in par.kids if k.kind == "cp"]
        sel = []
        for c in cps:
            x = pick(pts, c)
            sel.append(x)
        si, ms = self.src(src)
        arg = [x.obj for x in sel]
        o = par.obj.createCross(name, si, w, SourceT.SV, arg)
        self.add(par, Node(o, "cross", name, T.CROSS, ms, weight=w)).cross = sel
        # the caller goes on to use its list for something else
        arg.append(arg[0])
        arg.reverse()

    def op_toggle(self, p, name, typ, d):
        from ucis.scope_type_t import ScopeTypeT as T
        from ucis.toggle_metric_t import ToggleMetricT
        from ucis.toggle_type_t import ToggleTypeT
        from ucis.toggle_dir_t import ToggleDirT
        par = pick(self.m.of("inst"), p)
        if par is None:
            return
        o = self.api.createToggle(self.db, par.obj, name, name + ".canon", 0, ToggleMetricT.ENUM, ToggleTypeT[typ], ToggleDirT[d])
        self.add(par, Node(o, "toggle", name, T.TOGGLE, None))

    # ---- cover items
    def op_bin(self, p, name, kind, count, al, src):
        from ucis.cover_type_t import CoverTypeT as C
        par = pick(self.m.of("cp", "cross"), p)
        if par is None:
            return
        si, ms = self.src(src)
        if self.api.c_only:
            return self.op_next(p, name, kind, count, 1, 1, src)
        if kind == "CVGBIN" and al == 1:
            o = par.obj.createBin(name, si, al, count, name)
        else:
            o = par.obj.createBin(name, si, al, count, name, C[kind])
        par.items.append(dict(o=o, name=name, type=C[kind], count=count, al=al, src=ms, bin=True))

    def op_next(self, p, name, kind, count, goal, weight, src):
        from ucis.cover_type_t import CoverTypeT as C
        from ucis.cover_data import CoverData
        par = pick(self.m.of("cp", "cross", "du"), p)
        if par is None:
            return
        fl = [0, 1, 2, 0x1d, 0x30, 0x10000 | 8, 0x7000000][(goal + 3 * weight) % 7]
        cd = CoverData(C[kind], fl)
        cd.data, cd.goal, cd.weight, cd.limit, cd.bitlen = count, goal, weight, goal * weight, (goal + 1) * 8
        si, ms = self.src(src)
        o = self.api.createNextCover(self.db, par.obj, name, cd, si)
        par.items.append(dict(o=o, name=name, type=C[kind], count=count, goal=goal, weight=weight, limit=goal * weight, bitlen=(goal + 1) * 8, flags=fl, src=ms))
        # the caller goes on to use its record for something else
        cd.data, cd.goal, cd.weight, cd.limit, cd.bitlen, cd.flags = count + 5, goal + 3, weight + 2, 77, 1, 5

    def op_stmt(self, p, name, count, src):
        from ucis.cover_type_t import CoverTypeT as C
        from ucis.cover_data import CoverData
        par = pick(self.m.of("inst"), p)
        if par is None:
            return
        cd = CoverData(C.STMTBIN, 0)
        cd.data = count
        si, ms = self.src(src)
        ix = self.api.createNextCover(self.db, par.obj, name, cd, si)
        if ix != len(par.stmts):
            raise Violation("cover item %d of instance %r got index %r" % (len(par.stmts), par.name, ix))
        par.stmts.append(dict(ix=0))

    def op_stmt_index(self, p, k, v):
        from ucis.int_property import IntProperty as I
        par = pick([n for n in self.m.of("inst") if n.stmts], p)
        if par is None:
            return
        k %= len(par.stmts)
        self.api.setInt(self.db, par.obj, k, I.STMT_INDEX, v)
        par.stmts[k]["ix"] = v

    def op_inc(self, k, amt):
        items = [i for n in self.m.all for i in n.items]
        it = pick(items, k)
        if it is None:
            return
        if amt is None:
            it["o"].incrementCover()
            it["count"] += 1
        else:
            it["o"].incrementCover(amt)
            it["count"] += amt

    # ---- properties
    def targets(self, k):
        return pick([n for n in self.m.all if n.kind != "toggle" or True], k)

    def op_set(self, k, which, v, via_prop):
        from ucis.int_property import IntProperty as I
        n = self.targets(k)
        names = list(INT_SCOPE)
        if n.kind in ("cg", "ci", "cp", "cross"):
            names += INT_CVG
        if n.kind in ("cg", "ci"):
            names += INT_CG
        p = names[which % len(names)]
        a = PROP_OF[p]
        if a in BOOL_ATTR:
            v &= 1
        if via_prop or self.api.c_only or a not in SETTERS:
            self.api.setInt(self.db, n.obj, -1, I[p], v)
        else:
            getattr(n.obj, SETTERS[a])(bool(v) if a in BOOL_ATTR else v)
        n.attrs[a] = bool(v) if a in BOOL_ATTR else v

    def op_comment(self, k, text, via_prop):
        from ucis.str_property import StrProperty as P
        n = pick(self.m.of("cg", "ci", "cp", "cross"), k)
        if n is None:
            return
        if via_prop or self.api.c_only:
            self.api.setStr(self.db, n.obj, -1, P.COMMENT, text)
        else:
            n.obj.setComment(text)
        n.attrs["comment"] = text

    def op_file(self, name, wd):
        self.file(name, wd)

    def op_db(self, what, v):
        if what == "by":
            self.db.setWrittenBy("u%d" % v)
        else:
            self.db.setWrittenTime(v)
        self.m.info[what] = "u%d" % v if what == "by" else v

    def op_covinst(self, name, k):
        """Coverage instances recorded directly on the database (no C-style counterpart)."""
        from ucis.statement_id import StatementId
        if len(self.m.files) == 0:
            return
        sid = StatementId(pick(list(self.m.files.values()), k), k, k + 1)
        o = self.db.createCoverInstance(name, sid)
        if any(o is x[0] for x in self.m.covinsts):
            raise Violation("creating a coverage instance returned an existing one")
        self.m.covinsts.append([o, name, sid])

    # ---- history nodes
    def op_hist(self, p, ln, pn, kind):
        from ucis.history_node_kind import HistoryNodeKind as K
        par = pick(self.m.hist, p) if p is not None else None
        kd = K(kind) if kind is not None else None
        o = self.api.createHistoryNode(self.db, par[0] if par else None, ln, pn, kd)
        if any(h[0] is o for h in self.m.hist):
            raise Violation("creating a history node returned an existing one")
        self.m.hist.append([o, dict(LogicalName=ln, PhysicalName=pn, Kind=kd), {}, par[0] if par else None])

    def op_hset(self, k, f, v):
        from ucis.test_status_t import TestStatusT as T
        h = pick(self.m.hist, k)
        if h is None:
            return
        val = list(T)[v % len(list(T))] if f == "status" else (float(v) if f in ("sim", "cpu", "cost") else (v if f == "same" else "v%d" % v))
        if f == "status" and (v % 2 or self.api.c_only):
            from ucis.int_property import IntProperty as I
            self.api.setInt(self.db, h[0], -1, I.TEST_STATUS, val)
        else:
            getattr(h[0], "set" + HSET[f])(val)
        h[1][HSET[f]] = val

    def op_htd(self, k, v):
        from ucis.test_status_t import TestStatusT as T
        from ucis.test_data import TestData
        h = pick(self.m.hist, k)
        if h is None:
            return
        st_ = list(T)[v % len(list(T))]
        d = dict(simtime=v + .5, timeunit="u%d" % v, runcwd="d%d" % v, cputime=v + .25, seed="s%d" % v, cmd="c%d" % v,
                 args="a%d" % v, compulsory=v & 1, user="n%d" % v, cost=float(v))
        self.api.setTestData(self.db, h[0], TestData(st_, "cat%d" % v, "20200101%06d" % v, **d))
        h[1].update(TestStatus=st_, ToolCategory="cat%d" % v, Date="20200101%06d" % v, SimTime=d["simtime"], TimeUnit=d["timeunit"],
                    RunCwd=d["runcwd"], CpuTime=d["cputime"], Seed=d["seed"], Cmd=d["cmd"], Args=d["args"],
                    Compulsory=d["compulsory"], UserName=d["user"], Cost=d["cost"])

    # ---- iterators left open while the database grows
    def matching(self, it):
        if it["what"] == "scopes":
            return [c.obj for c in it["n"].kids if int(c.type) & int(it["mask"])]
        if it["what"] == "items":
            return [c["o"] for c in it["n"].items if int(c["type"]) & int(it["mask"])]
        from ucis.history_node_kind import HistoryNodeKind as K
        return [h[0] for h in self.m.hist if it["mask"] == K.ALL or h[1]["Kind"] == it["mask"]]

    def op_open(self, k, what, mk):
        from ucis.history_node_kind import HistoryNodeKind as K
        n = pick(self.m.all, k)
        if what == "scopes":
            mask = scope_masks(mk)
            it = n.obj.scopes(mask)
        elif what == "items":
            mask = item_masks(mk)
            it = n.obj.coverItems(mask)
        else:
            mask = [K.ALL, K.TEST, K.MERGE][mk % 3]
            it = self.db.historyNodes(mask)
        e = dict(it=iter(it), n=n, what=what, mask=mask, got=[], done=False)
        e["at_open"] = len(self.matching(e))
        self.m.iters.append(e)

    def op_adv(self, k, n):
        e = pick(self.m.iters, k)
        if e is None:
            return
        for _ in range(n):
            self.advance(e)

    def advance(self, e):
        if e["done"]:
            return
        exp = self.matching(e)
        try:
            x = next(e["it"])
        except StopIteration:
            e["done"] = True
            if len(e["got"]) < e["at_open"]:
                raise Violation("iterator (%s) ended after %d of the %d objects present when it was opened" % (e["what"], len(e["got"]), e["at_open"]))
            return
        i = len(e["got"])
        if i >= len(exp) or exp[i] is not x:
            raise Violation("iterator (%s) returned a wrong object at position %d" % (e["what"], i))
        e["got"].append(x)

    def finish_iters(self):
        for e in self.m.iters:
            guard = 0
            while not e["done"]:
                self.advance(e)
                guard += 1
                if guard > 10000:
                    raise Violation("iterator does not end")


class ObjApi:
    """The object API."""
    c_only = False

    def createScope(self, db, par, *a):
        return par.createScope(*a)

    def createInstance(self, db, par, *a):
        return par.createInstance(*a)

    def createToggle(self, db, par, *a):
        return par.createToggle(*a)

    def createNextCover(self, db, par, *a):
        return par.createNextCover(*a)

    def createFileHandle(self, db, *a):
        return db.createFileHandle(*a)

    def createHistoryNode(self, db, par, ln, pn, kind):
        return db.createHistoryNode(par, ln, pn, kind)

    def setTestData(self, db, h, td):
        h.setTestData(td)

    def setInt(self, db, o, ix, p, v):
        o.setIntProperty(ix, p, v)

    def setStr(self, db, o, ix, p, v):
        o.setStringProperty(ix, p, v)


# ------------------------------------------------------------------ comparing a database with the model
def same(a, b, what):
    if a != b:
        raise Violation("%s is %r, expected %r" % (what, a, b))


def check_src(si, ms, what, strict):
    if ms is None:
        if si is not None and si.file is not None:
            raise Violation("%s has source file %r, none was given" % (what, si.file.getFileName()))
        return
    if si is None:
        raise Violation("%s lost its source information" % what)
    if si.file is not ms[0]:
        raise Violation("%s has the wrong source file" % what)
    same([si.line, si.token], ms[1:], what + " source location")


def check_node(n, full_masks):
    from ucis.int_property import IntProperty as I
    from ucis.str_property import StrProperty as P
    o = n.obj
    what = "%s %r" % (n.kind, n.name)
    if n.kind != "db":
        same(o.getScopeName(), n.name, what + " name")
        same(int(o.getScopeType()), int(n.type), what + " type")
        check_src(o.getSourceInfo(), n.src, what, True)
    attrs = list(ATTRS["scope"])
    props = list(INT_SCOPE)
    if n.kind in ("cg", "ci", "cp", "cross"):
        attrs += ATTRS["cvg"]
        props += INT_CVG
    if n.kind in ("cg", "ci"):
        attrs += ATTRS["cg"]
        props += INT_CG

    def val(a, got, w):
        if a in n.attrs:
            exp = n.attrs[a]
        elif a in n.seen:
            exp = n.seen[a]
        else:
            n.seen[a] = got
            return
        if a in BOOL_ATTR:
            exp, got = bool(exp), bool(got)
        same(got, exp, w)
    for a in attrs:
        val(a, getattr(o, GETTERS[a])(), "%s %s" % (what, a))
    for p in props:
        got = o.getIntProperty(-1, I[p])
        if PROP_OF[p] in BOOL_ATTR and got not in (0, 1):
            raise Violation("%s property %s is %r" % (what, p, got))
        val(PROP_OF[p], got, "%s property %s" % (what, p))
    if "comment" in attrs:
        val("comment", o.getStringProperty(-1, P.COMMENT), what + " property COMMENT")
    if n.kind == "cross":
        same(o.getNumCrossedCoverpoints(), len(n.cross), what + " number of coverpoints")
        for i, c in enumerate(n.cross):
            if o.getIthCrossedCoverpoint(i) is not c.obj:
                raise Violation("%s coverpoint %d is not the one it was created with" % (what, i))
    if n.kind == "inst":
        if o.getInstanceDu() is not (n.du.obj if n.du else None):
            raise Violation("%s has another design unit than it was created with" % what)
        for i, s in enumerate(n.stmts):
            same(o.getIthCoverItem(i).getStmtIndex(), s["ix"], "%s statement %d index" % (what, i))
            same(o.getIntProperty(i, I.STMT_INDEX), s["ix"], "%s statement %d STMT_INDEX" % (what, i))
    masks = scope_masks() if full_masks else [0xFFFFFFFFFFFFFFFF]
    for mk in masks:
        got = list(o.scopes(mk))
        exp = [k.obj for k in n.kids if int(k.type) & int(mk)]
        if len(got) != len(exp) or any(a is not b for a, b in zip(got, exp)):
            raise Violation("%s: scopes(%#x) gives %r, expected %r" % (what, int(mk), [g.getScopeName() for g in got], [e.getScopeName() for e in exp]))
    masks = item_masks() if full_masks else [0xFFFFFFFFFFFFFFFF]
    for mk in masks:
        got = list(o.coverItems(mk))
        exp = [k["o"] for k in n.items if int(k["type"]) & int(mk)]
        if len(got) != len(exp) or any(a is not b for a, b in zip(got, exp)):
            raise Violation("%s: coverItems(%#x) gives %r, expected %r" % (what, int(mk), [g.getName() for g in got], [e.getName() for e in exp]))
    for it in n.items:
        w = "%s item %r" % (what, it["name"])
        ci = it["o"]
        same(ci.getName(), it["name"], w + " name")
        d = ci.getCoverData()
        same(int(d.type), int(it["type"]), w + " type")
        same(d.data, it["count"], w + " count")
        for a, f in (("at_least", "al"), ("goal", "goal"), ("weight", "weight"), ("limit", "limit"), ("bitlen", "bitlen"), ("flags", "flags")):
            if f in it:
                same(getattr(d, a), it[f], "%s %s" % (w, a))
        if "bin" in it and int(d.flags) & 0x18 != 0x18:
            raise Violation("%s claims to have no goal or no weight: flags %#x" % (w, int(d.flags)))
        check_src(ci.getSourceInfo(), it["src"], w, False)


def check_all(run, full_masks=False):
    from ucis.history_node_kind import HistoryNodeKind as K
    m = run.m
    for n in m.all:
        check_node(n, full_masks)
    for k in (K.ALL, K.TEST, K.MERGE):
        exp = [h[0] for h in m.hist if k == K.ALL or h[1]["Kind"] == k]
        for how, got in (("historyNodes", list(run.db.historyNodes(k))), ("getHistoryNodes", list(run.db.getHistoryNodes(k)))):
            if len(got) != len(exp) or any(a is not b for a, b in zip(got, exp)):
                raise Violation("%s(%s) gives %r, expected %r" % (how, k.name, [g.getLogicalName() for g in got], [e.getLogicalName() for e in exp]))
    from ucis.int_property import IntProperty as I
    got = list(run.db.getCoverInstances())
    if len(got) != len(m.covinsts) or any(a is not x[0] for a, x in zip(got, m.covinsts)):
        raise Violation("coverage instances are %r, expected %r" % ([g.getName() for g in got], [x[1] for x in m.covinsts]))
    for o, name, sid in m.covinsts:
        same(o.getName(), name, "coverage instance name")
        if o.getId() is not sid:
            raise Violation("coverage instance %r has another statement than it was created with" % name)
        same([sid.getFile() is not None, sid.getItem()], [True, sid.getLine() + 1], "statement of a coverage instance")
    same(len({o.getKey() for o in got}), len(got), "number of distinct keys of coverage instances")
    for o, exp, seen, parent in m.hist:
        if o.getParent() is not parent:
            raise Violation("history node %r has another parent than it was created with" % exp["LogicalName"])
        for f in list(HSET.values()) + ["LogicalName", "PhysicalName", "Kind"]:
            got = getattr(o, "get" + f)()
            if f in exp:
                same(got, exp[f], "history node %s" % f)
            elif f in seen:
                same(got, seen[f], "history node %s" % f)
            else:
                seen[f] = got
        same(o.getIntProperty(-1, I.TEST_STATUS), int(o.getTestStatus()), "TEST_STATUS property")
    for k, g in (("by", "getWrittenBy"), ("time", "getWrittenTime")):
        got = getattr(run.db, g)()
        if k in m.info:
            same(got, m.info[k], g)


def labels(hist):
    ls = set("op=" + o[0] for o in hist)
    ls.add("len>=20" if len(hist) >= 20 else "len<20")
    return ls
