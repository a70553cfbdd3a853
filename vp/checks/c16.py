"""C16 The shared-library back end passes every call through unchanged.

A recording implementation of the UCIS C API (vp/data/mock_ucis.c) is compiled with gcc and loaded through the real
LibFactory; a generated history of operations runs against it in a forked child, and the log of the C calls the library
received is compared with the log the model predicts. Getters and iterators are compared by result."""
import ctypes
import math
import os
import subprocess
from hypothesis import strategies as st
from ..core import Facet, Violation, HarnessError
from .. import gen, forkrun, scratch

_SO = [None]


def mock_path():
    if _SO[0] is None or not os.path.exists(_SO[0]):
        here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "mock_ucis.c")
        so = os.path.join(scratch.base(), "libucismock.so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, here], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError("mock library does not compile: " + r.stderr)
        _SO[0] = so
    return _SO[0]


def prepare():
    mock_path()


# Values fixed by the UCIS standard (and documented in the code's enumerations).
SCOPE = dict(TOGGLE=1, BRANCH=2, EXPR=4, COND=8, INSTANCE=0x10, PROCESS=0x20, BLOCK=0x40, FUNCTION=0x80, FORKJOIN=0x100, GENERATE=0x200,
             GENERIC=0x400, CLASS=0x800, COVERGROUP=0x1000, COVERINSTANCE=0x2000, COVERPOINT=0x4000, CROSS=0x8000, COVER=0x10000,
             ASSERT=0x20000, PROGRAM=0x40000, PACKAGE=0x80000, TASK=0x100000, INTERFACE=0x200000, FSM=0x400000, DU_MODULE=0x1000000,
             DU_ARCH=0x2000000, DU_PACKAGE=0x4000000, DU_PROGRAM=0x8000000, DU_INTERFACE=0x10000000, FSM_STATES=0x20000000,
             FSM_TRANS=0x40000000, COVBLOCK=0x80000000, CVGBINSCOPE=0x100000000, ILLEGALBINSCOPE=0x200000000, IGNOREBINSCOPE=0x400000000)
COVER = dict(CVGBIN=1, COVERBIN=2, ASSERTBIN=4, STMTBIN=0x20, BRANCHBIN=0x40, EXPRBIN=0x80, CONDBIN=0x100, TOGGLEBIN=0x200, PASSBIN=0x400,
             FSMBIN=0x800, USERBIN=0x1000, COUNT=0x2000, FAILBIN=0x4000, VACUOUSBIN=0x8000, DISABLEDBIN=0x10000, ATTEMPTBIN=0x20000,
             ACTIVEBIN=0x40000, IGNOREBIN=0x80000, ILLEGALBIN=0x100000, DEFAULTBIN=0x200000, PEAKACTIVEBIN=0x400000, BLOCKBIN=0x1000000)
SOURCE = ["VHDL", "VLOG", "SV", "SYSTEMC", "PSL_VHDL", "PSL_VLOG", "PSL_SV", "PSL_SYSTEMC", "E", "VERA", "NONE", "OTHER"]
INTP = ["IS_MODIFIED", "MODIFIED_SINCE_SIM", "NUM_TESTS", "SCOPE_WEIGHT", "SCOPE_GOAL", "SCOPE_SOURCE_TYPE", "NUM_CROSSED_CVPS",
        "SCOPE_IS_UNDER_DU", "SCOPE_IS_UNDER_COVERINSTANCE", "SCOPE_NUM_COVERITEMS", "SCOPE_NUM_EXPR_TERMS", "TOGGLE_TYPE", "TOGGLE_DIR",
        "TOGGLE_COVERED", "BRANCH_HAS_ELSE", "BRANCH_ISCASE", "COVER_GOAL", "COVER_LIMIT", "COVER_WEIGHT", "TEST_STATUS", "TEST_COMPULSORY",
        "STMT_INDEX", "BRANCH_COUNT", "FSM_STATEVAL", "CVG_ATLEAST", "CVG_AUTOBINMAX", "CVG_DETECTOVERLAP", "CVG_NUMPRINTMISSING",
        "CVG_STROBE", "CVG_PERINSTANCE", "CVG_GETINSTCOV", "CVG_MERGEINSTANCES"]
STRP = ["FILE_NAME", "SCOPE_NAME", "SCOPE_HIER_NAME", "INSTANCE_DU_NAME", "UNIQUE_ID", "VER_STANDARD", "VER_STANDARD_VERSION",
        "VER_VENDOR_ID", "VER_VENDOR_TOOL", "VER_VENDOR_VERSION", "GENERIC", "ITH_CROSSED_CVP_NAME", "HIST_CMDLINE", "HIST_RUNCWD",
        "COMMENT", "TEST_TIMEUNIT", "TEST_DATE", "TEST_SIMARGS", "TEST_USERNAME", "TEST_NAME", "TEST_SEED", "TEST_HOSTNAME", "TEST_HOSTOS",
        "EXPR_TERMS", "TOGGLE_CANON_NAME", "UNIQUE_ID_ALIAS", "DESIGN_VERSION_ID"]
# object-API setter: (property, boolean, kinds of object that have it)
CVG = ("cg", "cp", "cross")
SETTERS = [("setAtLeast", "CVG_ATLEAST", False, CVG), ("setAutoBinMax", "CVG_AUTOBINMAX", False, CVG),
           ("setDetectOverlap", "CVG_DETECTOVERLAP", True, CVG), ("setStrobe", "CVG_STROBE", True, CVG), ("setComment", "COMMENT", None, CVG),
           ("setPerInstance", "CVG_PERINSTANCE", True, ("cg",)), ("setGetInstCoverage", "CVG_GETINSTCOV", True, ("cg",)),
           ("setMergeInstances", "CVG_MERGEINSTANCES", True, ("cg",)), ("setGoal", "SCOPE_GOAL", False, CVG + ("scope", "db"))]

REF = st.integers(0, 40)
NAME = st.one_of(gen.simple_names, gen.simple_names, st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), max_size=6))
I32 = st.one_of(st.integers(-1, 200), st.sampled_from([2**31 - 1, -2**31, 65536, 1000000]))
U64 = st.one_of(st.integers(0, 9), st.sampled_from([2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 7, 2**63, 2**64 - 1]), st.integers(0, 2**64 - 1))
FL = st.one_of(st.just(0), st.integers(0, 0x1ffffff), st.sampled_from([0x10000, 0x800000, 0x7fffffff, 0x80000000, 0x80010001, 0xffffffff]))
SRC = st.none() | st.tuples(st.none() | REF, I32, I32)
STY = st.booleans()
DBL = st.one_of(st.just(0.0), st.floats(-1e9, 1e9), st.floats(allow_nan=False, allow_infinity=False))
TXT = st.none() | NAME
STYPE = st.sampled_from(sorted(SCOPE))
CTYPE = st.sampled_from(sorted(COVER))
SRCT = st.integers(0, len(SOURCE) - 1)

OPS = st.one_of(
    st.tuples(st.just("scope"), REF, NAME | st.none(), SRC, I32, SRCT, STYPE, FL, STY),
    st.tuples(st.just("inst"), REF, NAME, SRC, I32, SRCT, STYPE, REF, FL, STY),
    st.tuples(st.just("cg"), REF, NAME, SRC, I32, SRCT),
    st.tuples(st.just("ci"), REF, NAME, SRC, I32, SRCT),
    st.tuples(st.just("cp"), REF, NAME, SRC, I32, SRCT),
    st.tuples(st.just("cross"), REF, NAME, SRC, I32, SRCT, st.lists(REF, max_size=4)),
    st.tuples(st.just("toggle"), REF, NAME, TXT, FL, st.integers(0, 5), st.integers(0, 1), st.integers(0, 3), STY),
    st.tuples(st.just("next"), REF, NAME, CTYPE, st.sampled_from([1, 2, 4]), st.integers(0, 3), U64, st.binary(min_size=1, max_size=6).map(lambda b: b.hex()),
              I32, I32, I32, I32, SRC, STY),
    st.tuples(st.just("bin"), REF, NAME, SRC, st.integers(0, 5), U64, st.sampled_from([None, "CVGBIN", "IGNOREBIN", "ILLEGALBIN", "DEFAULTBIN"])),
    st.tuples(st.just("bin"), REF, NAME, SRC, st.integers(0, 5), U64, st.sampled_from([None, "IGNOREBIN"])),
    st.tuples(st.just("int"), REF, I32, st.integers(0, len(INTP) - 1), I32, STY),
    st.tuples(st.just("str"), REF, I32, st.integers(0, len(STRP) - 1), NAME, STY),
    st.tuples(st.just("set"), REF, st.integers(0, 30), I32, NAME),
    st.tuples(st.just("file"), REF, NAME, TXT, STY),
    st.tuples(st.just("hist"), REF, st.none() | REF, NAME, TXT, st.sampled_from([1, 1, 2]), STY),
    st.tuples(st.just("td"), REF, st.integers(0, 5), DBL, TXT, TXT, DBL, TXT, TXT, TXT, st.sampled_from([0, 1, 7, -1]), TXT, TXT, DBL, TXT, STY),
    st.tuples(st.just("status"), REF, st.integers(0, 5)),
    st.tuples(st.just("iter"), REF, st.lists(STYPE, min_size=1, max_size=4) | st.just(["ALL"]), st.integers(1, 4)),
    st.tuples(st.just("iter"), st.just(0), st.just(["ALL"]), st.integers(1, 4)),
    st.tuples(st.just("hiter"), REF, st.sampled_from([0, 0, 1, 2]), st.integers(1, 4), st.booleans()),
    st.tuples(st.just("adv"), REF, st.integers(1, 4)),
    st.tuples(st.just("src"), REF), st.tuples(st.just("fname"), REF), st.tuples(st.just("gettd"), REF),
    st.tuples(st.just("write"), REF, NAME, st.none() | REF, st.integers(0, 1), st.none() | U64, STY),
)
SEED = [["scope", 0, "du", None, 1, 2, "DU_MODULE", 0, False], ["inst", 0, "i", None, 1, 2, "INSTANCE", 0, 0, False],
        ["cg", 1, "g", None, 1, 2], ["cp", 0, "p", None, 1, 2], ["cp", 0, "q", None, 1, 2], ["hist", 0, None, "h", "p", 1, False]]


MAYFAIL = ("scope", "inst", "cg", "ci", "cp", "cross", "toggle", "next", "bin", "file", "hist", "td", "gettd", "write")


@st.composite
def cases(draw):
    l = [list(o) for o in draw(st.lists(OPS, min_size=3, max_size=24))]
    l = [["fail"] + o if o[0] in MAYFAIL and draw(st.integers(0, 11)) == 11 else o for o in l]
    if draw(st.integers(0, 3)):
        l = [list(o) for o in SEED] + l
    return dict(files=draw(st.lists(st.none() | NAME, min_size=1, max_size=2)), ops=l, close=draw(st.booleans()), close_fails=draw(st.integers(0, 7)) == 7)


def hx(s):
    return "-" if s is None else "x" + s.encode("utf-8").hex()


def dbl(v):
    """C's %a of a double, as a value (both sides are parsed before comparing)."""
    return float(v)


class N:
    def __init__(self, kind, id, db, obj, **k):
        self.kind, self.id, self.db, self.obj = kind, id, db, obj
        self.__dict__.update(k)


def pick(l, k):
    return l[k % len(l)] if l else None


class Failed(Exception):
    pass


class Run:
    def __init__(self, c):
        self.c = c
        from ucis.lib.LibFactory import LibFactory
        LibFactory.load_ucis_library(_SO[0])
        self.m = ctypes.CDLL(_SO[0])
        self.m.mock_log.restype = self.m.mock_errmsg.restype = ctypes.c_char_p
        if not self.m.mock_has_handler():
            raise Violation("no error handler registered with the library")
        self.exp = []
        self.ids = 0
        self.seen, self.created = 0, None
        self.all, self.files, self.hist, self.iters, self.idx = [], [], [], [], []
        self.dbs = []
        self.f = LibFactory

    def new(self, kind, db, obj, **k):
        self.ids += 1
        n = N(kind, self.ids, db, obj, **k)
        n.children, n.ncov = [], 0
        self.created = n
        if kind == "file":
            self.files.append(n)
        elif kind == "hist":
            self.hist.append(n)
        else:
            self.all.append(n)
        return n

    def log(self, *a):
        self.exp.append("|".join(str(x) for x in a))

    def raises(self, f, what):
        try:
            f()
        except Exception:
            return
        raise Violation(what)

    fail = False

    def do(self, call):
        """Makes the call of an operation; if the library is to fail, the call must raise."""
        if not self.fail:
            return call()
        self.m.mock_fail_next()
        self.raises(call, "the call returned although the library failed: " + " / ".join(self.exp))
        raise Failed()

    def op_fail(self, *op):
        self.fail = True
        try:
            getattr(self, "op_" + op[0])(*op[1:])
        except Failed:
            pass
        finally:
            self.fail = False

    def go(self):
        for i, fn in enumerate(self.c["files"]):
            self.log("Open", hx(fn))
            self.dbs.append(None)
            obj = self.f.create(fn)
            d = self.new("db", None, obj, type=0)
            d.db = d
            self.dbs[-1] = d
            self.flush(existing=fn is not None)
        for op in self.c["ops"]:
            getattr(self, "op_" + op[0])(*op[1:])
            self.flush()
        while self.iters:
            self.take(self.iters[0], 10 ** 6)
        self.flush()
        if self.c["close"]:
            for d in self.dbs:
                self.log("Close", "#%d" % d.id)
                try:
                    self.fail = self.c.get("close_fails", False)
                    self.do(d.obj.close)
                except Failed:
                    pass
                self.flush()
        self.compare()

    # ---- helpers
    def scopes(self, d, kinds=None):
        return [n for n in self.all if n.db is d and (kinds is None or n.kind in kinds)]

    def src(self, d, s):
        """-> (SourceInfo or None, predicted text, (file node, line, token))"""
        from ucis.source_info import SourceInfo
        if s is None:
            return None, "-", (None, 0, 0)
        fs = [f for f in self.files if f.db is d]
        f = pick(fs, s[0]) if s[0] is not None else None
        return (SourceInfo(None if f is None else f.obj, s[1], s[2]),
                "(|%s|%d|%d)" % ("0" if f is None else "#%d" % f.id, s[1], s[2]), (f, s[1], s[2]))

    def h(self, n):
        return "0" if n is None or n.kind == "db" else "#%d" % n.id

    def add(self, par, kind, obj, **k):
        n = self.new(kind, par.db, obj, parent=par, **k)
        par.children.append(n)
        return n

    def op_scope(self, r, name, s, w, so, ty, fl, sty):
        import ucis
        p = pick(self.all, r)
        si, txt, inf = self.src(p.db, s)
        a = (name, si, w, ucis.SourceT[SOURCE[so]], ucis.ScopeTypeT[ty], fl)
        self.log("CreateScope", "#%d" % p.db.id, self.h(p), hx(name), txt, w, so, "%x" % SCOPE[ty], "%x" % fl)
        call = (lambda: ucis.ucis_CreateScope(p.db.obj, None if p.kind == "db" else p.obj, *a)) if sty else (lambda: p.obj.createScope(*a))
        self.add(p, "scope", self.do(call), type=SCOPE[ty], src=inf)

    def op_inst(self, r, name, s, w, so, ty, du, fl, sty):
        import ucis
        p = pick(self.all, r)
        d = pick(self.scopes(p.db, ("scope",)), du)
        if d is None:
            return
        si, txt, inf = self.src(p.db, s)
        a = (name, si, w, ucis.SourceT[SOURCE[so]], ucis.ScopeTypeT[ty], d.obj, fl)
        self.log("CreateInstance", "#%d" % p.db.id, self.h(p), hx(name), txt, w, so, "%x" % SCOPE[ty], "#%d" % d.id, "%x" % fl)
        call = (lambda: ucis.ucis_CreateInstance(p.db.obj, None if p.kind == "db" else p.obj, *a)) if sty else (lambda: p.obj.createInstance(*a))
        self.add(p, "scope", self.do(call), type=SCOPE[ty], src=inf)

    def _typed(self, kinds, r, name, s, w, so, meth, ty, kind):
        import ucis
        p = pick([n for n in self.all if kinds is None or n.kind in kinds], r)
        if p is None:
            return
        si, txt, inf = self.src(p.db, s)
        self.log("CreateScope", "#%d" % p.db.id, self.h(p), hx(name), txt, w, so, "%x" % SCOPE[ty], "0")
        self.add(p, kind, self.do(lambda: getattr(p.obj, meth)(name, si, w, ucis.SourceT[SOURCE[so]])), type=SCOPE[ty], src=inf)

    def op_cg(self, *a):
        self._typed(None, *a, "createCovergroup", "COVERGROUP", "cg")

    def op_ci(self, *a):
        self._typed(("cg",), *a, "createCoverInstance", "COVERINSTANCE", "cg")

    def op_cp(self, *a):
        self._typed(("cg",), *a, "createCoverpoint", "COVERPOINT", "cp")

    def op_cross(self, r, name, s, w, so, pts):
        import ucis
        p = pick([n for n in self.all if n.kind == "cg"], r)
        if p is None:
            return
        cps = [n for n in self.all if n.kind == "cp" and n.db is p.db]
        l = [pick(cps, k) for k in pts] if cps else []
        si, txt, inf = self.src(p.db, s)
        self.log("CreateCross", "#%d" % p.db.id, self.h(p), hx(name), txt, w, so, len(l), *["#%d" % x.id for x in l])
        self.add(p, "cross", self.do(lambda: p.obj.createCross(name, si, w, ucis.SourceT[SOURCE[so]], [x.obj for x in l])), type=SCOPE["CROSS"], src=inf)

    def op_toggle(self, r, name, canon, fl, me, ty, di, sty):
        import ucis
        p = pick(self.all, r)
        a = (name, canon, fl, list(ucis.ToggleMetricT)[me], list(ucis.ToggleTypeT)[ty], list(ucis.ToggleDirT)[di])
        self.log("CreateToggle", "#%d" % p.db.id, self.h(p), hx(name), hx(canon), "%x" % fl, me + 1, ty + 1, di + 1)
        o = self.do(lambda: ucis.ucis_CreateToggle(p.db.obj, None if p.kind == "db" else p.obj, *a) if sty else p.obj.createToggle(*a))
        self.add(p, "scope", o, type=1, src=(None, 0, 0))

    def _next(self, p, txt_data, call):
        self.log("CreateNextCover", "#%d" % p.db.id, "#%d" % p.id, *txt_data)
        ix = self.do(call)
        if ix.index != p.ncov:
            raise Violation("cover item index %r instead of %d" % (ix.index, p.ncov))
        p.ncov += 1
        self.idx.append(N("idx", p.id, p.db, ix))

    def op_next(self, r, name, ct, mode, fl, v, vec, goal, wt, lim, bl, s, sty):
        import ucis
        p = pick([n for n in self.all if n.kind != "db"], r)
        if p is None:
            return
        si, txt, _ = self.src(p.db, s)
        flags = mode | fl << 3
        cd = ucis.CoverData(ucis.CoverTypeT[ct], flags)
        cd.goal, cd.weight, cd.limit = goal, wt, lim
        if mode == 1:
            cd.data = v & 0xffffffff
            dt = "w%d" % cd.data
            cd.bitlen = bl
        elif mode == 2:
            cd.data = v
            dt = "d%d" % v
            cd.bitlen = bl
        else:
            cd.data = bytes.fromhex(vec)
            cd.bitlen = 8 * len(cd.data) - (bl % 8)
            dt = "v" + vec
        a = (name, cd, si)
        self._next(p, (hx(name), "%x" % COVER[ct], "%x" % flags, dt, goal, wt, lim, cd.bitlen, txt),
                   (lambda: ucis.ucis_CreateNextCover(p.db.obj, p.obj, *a)) if sty else (lambda: p.obj.createNextCover(*a)))

    def op_bin(self, r, name, s, al, cnt, kind):
        import ucis
        p = pick([n for n in self.all if n.kind in ("cp", "cross")], r)
        if p is None:
            return
        si, txt, _ = self.src(p.db, s)
        # the width flag is checked by value below: whatever the width, the library must see the count
        self._next(p, (hx(name), "%x" % COVER[kind or "CVGBIN"], "BINFLAGS", "BIN%d" % cnt, 1, 1, 0, 0, txt),
                   lambda: p.obj.createBin(name, si, al, cnt, "", *([ucis.CoverTypeT[kind]] if kind else [])))

    def obj_any(self, r):
        return pick(self.all + self.idx + self.hist, r)

    def op_int(self, r, ix, p, v, sty):
        import ucis
        n = self.obj_any(r)
        self.log("SetIntProperty", "#%d" % n.db.id, "#%d" % n.id, ix, p, v)
        if sty:
            ucis.ucis_SetIntProperty(n.db.obj, None if n.kind == "db" else n.obj, ix, ucis.IntProperty[INTP[p]], v)
        else:
            n.obj.setIntProperty(ix, ucis.IntProperty[INTP[p]], v)

    def op_str(self, r, ix, p, v, sty):
        import ucis
        n = self.obj_any(r)
        self.log("SetStringProperty", "#%d" % n.db.id, "#%d" % n.id, ix, p, hx(v))
        if sty:
            ucis.ucis_SetStringProperty(n.db.obj, None if n.kind == "db" else n.obj, ix, ucis.StrProperty[STRP[p]], v)
        else:
            n.obj.setStringProperty(ix, ucis.StrProperty[STRP[p]], v)

    def op_set(self, r, k, v, text):
        n = pick(self.all, r)
        l = [x for x in SETTERS if n.kind in x[3]]
        meth, prop, mode, _ = l[k % len(l)]
        if mode is None:
            self.log("SetStringProperty", "#%d" % n.db.id, "#%d" % n.id, -1, STRP.index(prop), hx(text))
            n.obj.setComment(text)
        else:
            val = bool(v & 1) if mode else v
            self.log("SetIntProperty", "#%d" % n.db.id, "#%d" % n.id, -1, INTP.index(prop), int(val))
            getattr(n.obj, meth)(val)

    def op_file(self, r, name, wd, sty):
        import ucis
        d = pick(self.dbs, r)
        self.log("CreateFileHandle", "#%d" % d.id, hx(name), hx(wd))
        o = self.do(lambda: ucis.ucis_CreateFileHandle(d.obj, name, wd) if sty else d.obj.createFileHandle(name, wd))
        self.new("file", d, o, name=name)

    def op_hist(self, r, par, ln, pn, kind, sty):
        import ucis
        d = pick(self.dbs, r)
        p = pick([h for h in self.hist if h.db is d], par) if par is not None else None
        self.log("CreateHistoryNode", "#%d" % d.id, self.h(p), hx(ln), hx(pn), kind)
        a = (None if p is None else p.obj, ln, pn, ucis.HistoryNodeKind(kind))
        o = self.do(lambda: ucis.ucis_CreateHistoryNode(d.obj, *a) if sty else d.obj.createHistoryNode(*a))
        self.new("hist", d, o, hkind=kind, td=None)

    def op_td(self, r, stat, sim, unit, cwd, cpu, seed, cmd, args, comp, date, user, cost, cat, sty):
        import ucis
        h = pick(self.hist, r)
        if h is None:
            return
        td = ucis.TestData(list(ucis.TestStatusT)[stat], cat, date, sim, unit, cwd, cpu, seed, cmd, args, comp, user, cost)
        sv = int(list(ucis.TestStatusT)[stat])
        self.log("SetTestData", "#%d" % h.db.id, "#%d" % h.id, sv, "D%r" % sim, hx(unit), hx(cwd), "D%r" % cpu, hx(seed), hx(cmd), hx(args),
                 comp, hx(date), hx(user), "D%r" % cost, hx(cat))
        self.do(lambda: ucis.ucis_SetTestData(h.db.obj, h.obj, td) if sty else h.obj.setTestData(td))
        h.td = dict(teststatus=sv, simtime=sim, timeunit=unit, runcwd=cwd, cputime=cpu, seed=seed, cmd=cmd, args=args, compulsory=comp,
                    date=date, user=user, cost=cost, toolcategory=cat)

    def op_status(self, r, v):
        import ucis
        h = pick(self.hist, r)
        if h is not None:
            self.log("SetIntProperty", "#%d" % h.db.id, "#%d" % h.id, -1, INTP.index("TEST_STATUS"), int(list(ucis.TestStatusT)[v]))
            h.obj.setTestStatus(list(ucis.TestStatusT)[v])

    def take(self, it, k):
        """Advances an iterator by k; each object it yields is identified by a property call on it."""
        import ucis
        for _ in range(k):
            if not it["left"]:
                for _ in range(2):  # exhausted, and stays so
                    try:
                        next(it["it"])
                    except StopIteration:
                        continue
                    raise Violation("iteration returned more objects than the library enumerates")
                self.iters.remove(it)
                return
            n = it["left"].pop(0)
            try:
                o = next(it["it"])
            except StopIteration:
                raise Violation("iteration ended before object #%d" % n.id)
            self.tag = getattr(self, "tag", 0) + 1
            self.log("SetIntProperty", "#%d" % n.db.id, "#%d" % n.id, self.tag, INTP.index("STMT_INDEX"), 7)
            o.setIntProperty(self.tag, ucis.IntProperty.STMT_INDEX, 7)
            if n.kind in ("scope", "cg", "cp", "cross"):
                self.check_src(n, o)

    def op_iter(self, r, types, k):
        import ucis
        p = pick(self.all, r)
        mask = ucis.ScopeTypeT.ALL if types == ["ALL"] else ucis.ScopeTypeT(0)
        if types != ["ALL"]:
            for t in types:
                mask |= ucis.ScopeTypeT[t]
        m = 0xffffffffffff if types == ["ALL"] else sum({SCOPE[t] for t in types})
        it = dict(it=p.obj.scopes(mask), left=[n for n in p.children if n.type & m])
        self.iters.append(it)
        self.take(it, k)

    def op_hiter(self, r, kind, k, as_list):
        import ucis
        d = pick(self.dbs, r)
        want = [h for h in self.hist if h.db is d and (kind == 0 or h.hkind == kind)]
        kk = ucis.HistoryNodeKind(kind)
        it = dict(it=iter(d.obj.getHistoryNodes(kk)) if as_list else d.obj.historyNodes(kk), left=want)
        self.iters.append(it)
        self.take(it, k)

    def op_adv(self, r, k):
        it = pick(self.iters, r)
        if it is not None:
            self.take(it, k)

    def check_src(self, n, o):
        si = o.getSourceInfo()
        f, line, token = n.src
        got = None if si.file is None else si.file.getFileName()
        if (got, si.line, si.token) != (None if f is None else f.name, line, token):
            raise Violation("source info of #%d reads (%r, %r, %r), set (%r, %r, %r)" % (n.id, got, si.line, si.token,
                                                                                          None if f is None else f.name, line, token))

    def op_src(self, r):
        n = pick([n for n in self.all if n.kind != "db"], r)
        if n is not None:
            self.check_src(n, n.obj)

    def op_fname(self, r):
        f = pick(self.files, r)
        if f is not None and f.obj.getFileName() != f.name:
            raise Violation("file name reads %r, created as %r" % (f.obj.getFileName(), f.name))

    def op_gettd(self, r):
        h = pick(self.hist, r)
        if h is not None and h.td is not None:
            td = self.do(h.obj.getTestData)
            for k, v in h.td.items():
                if getattr(td, k) != v:
                    raise Violation("test data field %s reads %r, set %r" % (k, getattr(td, k), v))

    def op_write(self, r, name, sc, rec, ct, sty):
        import ucis
        d = pick(self.dbs, r)
        s = pick(self.scopes(d, ("scope", "cg", "cp", "cross")), sc) if sc is not None else None
        so = None if s is None else s.obj
        if sty:
            v = 1 if ct is None else ct
            self.log("Write", "#%d" % d.id, hx(name), self.h(s), rec, "%x" % v)
            if self.do(lambda: ucis.ucis_Write(d.obj, name, so, rec, v)) != 0:
                raise Violation("ucis_Write does not return 0")
        elif ct is None and s is None and rec:
            self.log("Write", "#%d" % d.id, hx(name), "0", 1, "%x" % (2 ** 64 - 1))
            self.do(lambda: d.obj.write(name))
        else:
            v = 2 ** 64 - 1 if ct is None else ct
            self.log("Write", "#%d" % d.id, hx(name), self.h(s), rec, "%x" % v)
            self.do(lambda: d.obj.write(name, so, bool(rec), v))

    # ---- comparison
    def flush(self, existing=False):
        """Compares the C calls of the last operation with the predicted ones. Establishing the documented default options on a
        new object is part of creating it; objects that existed before (opened files, iterated scopes) get no such calls."""
        raw = self.m.mock_log()
        got = raw[self.seen:].decode("ascii").splitlines()
        self.seen = len(raw)
        exp, self.exp = self.exp, []
        extra = got[len(exp):]
        for i, e in enumerate(exp):
            g = got[i] if i < len(got) else None
            if g is None or not same(e, g):
                raise Violation("the library received\n  %s\nexpected\n  %s" % (g, e))
        for g in extra:
            a = g.split("|")
            ok = self.created is not None and not existing and a[0] in ("SetIntProperty", "SetStringProperty")
            if ok:
                k = ("I", INTP[int(a[4])]) if a[0] == "SetIntProperty" else ("S", STRP[int(a[4])])
                n = self.created
                ok = a[1:4] == ["#%d" % n.db.id, "#%d" % n.id, "-1"] and DEFAULTS.get(k) == a[5]
            if not ok:
                raise Violation("the library received an unexpected call\n  %s\nafter\n  %s" % (g, exp))
        self.created = None

    def compare(self):
        self.flush()
        if self.m.mock_errors():
            raise Violation("the library was misused: %s (%d times)" % (self.m.mock_errmsg().decode(), self.m.mock_errors()))
        if self.m.mock_iters(0):
            raise Violation("%d exhausted iterators were never released" % self.m.mock_iters(0))


DEFAULTS = {("I", "SCOPE_GOAL"): "100", ("I", "CVG_ATLEAST"): "1", ("I", "CVG_AUTOBINMAX"): "64", ("I", "CVG_DETECTOVERLAP"): "0",
            ("I", "CVG_STROBE"): "0", ("I", "CVG_PERINSTANCE"): "0", ("I", "CVG_GETINSTCOV"): "0", ("I", "CVG_MERGEINSTANCES"): "1",
            ("S", "COMMENT"): "x"}


def same(e, g):
    if e == g:
        return True
    a, b = e.split("|"), g.split("|")
    if len(a) != len(b):
        return False
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        if x.startswith("D") and (y.startswith("0x") or y.startswith("-0x")):
            if float.fromhex(y) != float(x[1:]):
                return False
        elif x == "BINFLAGS":
            f = int(y, 16)
            # 32-bit or 64-bit data (not both, not vector), goal and weight present
            if f & 7 not in (1, 2) or f & 0x18 != 0x18 or f & ~0x1f:
                return False
        elif x.startswith("BIN"):
            if y[1:] != x[3:]:
                return False
        else:
            return False
    return True


def body(c):
    Run(c).go()


def check(c):
    mock_path()
    forkrun.in_child(body, c)


def nontrivial(c):
    return len({o[0] for o in c["ops"]}) >= 5


def labels(c):
    yield from sorted({"_".join(o[:2]) if o[0] == "fail" else o[0] for o in c["ops"]})
    if len(c["files"]) > 1:
        yield "two databases"


# ------------------------------------------------------------------ opening
def open_cases():
    return st.fixed_dictionaries(dict(seq=st.lists(st.tuples(st.sampled_from(["create", "load", "bad", "fail"]), st.none() | NAME), min_size=1, max_size=6)))


def open_body(c):
    from ucis.lib.LibFactory import LibFactory
    m = ctypes.CDLL(_SO[0])
    m.mock_log.restype = ctypes.c_char_p
    loaded, exp = False, []
    for what, name in c["seq"]:
        if what == "load":
            LibFactory.load_ucis_library(_SO[0])
            loaded = True
        elif what == "bad":
            try:
                LibFactory.load_ucis_library(_SO[0] + ".missing")
            except Exception:
                continue
            raise Violation("loading a library that does not exist succeeds")
        else:
            if what == "fail" and loaded:
                m.mock_fail_next()
            try:
                LibFactory.create(name)
                ok = True
            except Exception:
                ok = False
            if loaded:
                exp.append("Open|" + hx(name))
            if ok != (loaded and what == "create"):
                raise Violation("create(%r) %s (library loaded: %s, library call %s)" % (
                    name, "returned a database" if ok else "raised", loaded, "failing" if what == "fail" else "succeeding"))
    got = [l for l in m.mock_log().decode().splitlines() if l.startswith("Open")]
    if got != exp:
        raise Violation("C calls %r, expected %r" % (got, exp))


def open_check(c):
    mock_path()
    forkrun.in_child(open_body, c)


FACETS = [
    Facet("calls", cases, check, nontrivial, labels, quick=7200,
          rule="non-trivial: the history uses at least five different operations"),
    Facet("open", open_cases, open_check, lambda c: len(c["seq"]) >= 3, quick=600,
          rule="non-trivial: at least three load/open steps"),
]
ASSUMPTIONS = ["The C prototypes and structures are those of the UCIS 1.0 standard header, as transcribed in vp/data/mock_ucis.c.",
               "Reading integer and string properties, design instances without a design unit, and cover-item iteration are not "
               "implemented by this back end and are not exercised; a bin's at_least has no place in the C structure and is not checked."]
