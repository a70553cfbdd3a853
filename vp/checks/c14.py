"""C14 The C-style functions do exactly what the object API does."""
import inspect
import os
from hypothesis import strategies as st
from ..core import Facet, Violation
from .. import memops as M, spec as S, scratch


_PREFIX = dict(IntProperty="UCIS_INT_", StrProperty="UCIS_STR_", TestStatusT="UCIS_TESTSTATUS_", HistoryNodeKind="UCIS_HISTORYNODE_", ToggleMetricT="UCIS_TOGGLE_METRIC_",
               ToggleTypeT="UCIS_TOGGLE_TYPE_", ToggleDirT="UCIS_TOGGLE_DIR_", ScopeTypeT="UCIS_", CoverTypeT="UCIS_", SourceT="UCIS_", FlagsT="UCIS_", CoverFlagsT="UCIS_")


def const(e):
    """The constant a caller of the C-style API names for a member of an enumeration (the member itself if none is exported)."""
    import ucis
    pre = _PREFIX.get(type(e).__name__)
    return e if pre is None or getattr(e, "name", None) is None else getattr(ucis, pre + e.name.lstrip("_"), e)


class CApi:
    """The C-style API, with None for the database where a parent or object is optional."""
    c_only = True

    def __init__(self, none_root):
        self.none_root = none_root

    def par(self, db, p):
        return None if (p is db and self.none_root) else p

    def createScope(self, db, par, *a):
        import ucis
        return ucis.ucis_CreateScope(db, self.par(db, par), *map(const, a))

    def createInstance(self, db, par, *a):
        import ucis
        return ucis.ucis_CreateInstance(db, self.par(db, par), *map(const, a))

    def createToggle(self, db, par, *a):
        import ucis
        return ucis.ucis_CreateToggle(db, self.par(db, par), *map(const, a))

    def createNextCover(self, db, par, name, data, src):
        import ucis
        data.type = const(data.type)
        return ucis.ucis_CreateNextCover(db, par, name, data, src)

    def createFileHandle(self, db, *a):
        import ucis
        return ucis.ucis_CreateFileHandle(db, *a)

    def createHistoryNode(self, db, par, ln, pn, kind):
        import ucis
        return ucis.ucis_CreateHistoryNode(db, par, ln, pn, const(kind))

    def setTestData(self, db, h, td):
        import ucis
        ucis.ucis_SetTestData(db, h, td)

    def setInt(self, db, o, ix, p, v):
        import ucis
        ucis.ucis_SetIntProperty(db, self.par(db, o), ix, const(p), v)

    def setStr(self, db, o, ix, p, v):
        import ucis
        ucis.ucis_SetStringProperty(db, self.par(db, o), ix, const(p), v)


class ObjTwin(M.ObjApi):
    """Object API restricted to the calls that have a C-style counterpart."""
    c_only = True


def cases():
    return st.fixed_dictionaries(dict(ops=M.histories(), none_root=st.booleans(), xml=st.booleans(), recurse=st.sampled_from([0, 1]),
                                      odd=st.lists(st.tuples(st.integers(0, 40), st.sampled_from(["int", "str", "real", "handle", "sint", "sreal", "shandle"]),
                                                             st.integers(-1, 3), st.integers(0, 31), st.integers(0, 9)), max_size=6)))


def new_db(c):
    if c["xml"]:
        from ucis.xml.xml_ucis import XmlUCIS
        return XmlUCIS()
    from ucis.mem.mem_factory import MemFactory
    return MemFactory.create()


def outcome(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raise", type(e).__name__)


def probe(run_c, run_o, c):
    """Property access of any kind, supported or not, gives the same result or exception."""
    import ucis
    from ucis.int_property import IntProperty as I
    from ucis.str_property import StrProperty as P
    from ucis.real_property import RealProperty as R
    from ucis.handle_property import HandleProperty as H
    for k, what, ix, p, v in c["odd"]:
        nc, no = M.pick(run_c.m.all, k), M.pick(run_o.m.all, k)
        oc = None if (nc.kind == "db" and c["none_root"]) else nc.obj
        a = {
            "int": lambda: (lambda e: (lambda: ucis.ucis_GetIntProperty(run_c.db, oc, ix, e), lambda: no.obj.getIntProperty(ix, e)))(list(I)[p % len(I)]),
            "sint": lambda: (lambda e: (lambda: ucis.ucis_SetIntProperty(run_c.db, oc, ix, e, v), lambda: no.obj.setIntProperty(ix, e, v)))(list(I)[p % len(I)]),
            "str": lambda: (lambda e: (lambda: ucis.ucis_GetStringProperty(run_c.db, oc, ix, e), lambda: no.obj.getStringProperty(ix, e)))(list(P)[p % len(P)]),
            "real": lambda: (lambda e: (lambda: ucis.ucis_GetRealProperty(run_c.db, oc, ix, e), lambda: no.obj.getRealProperty(ix, e)))(list(R)[p % len(R)]),
            "sreal": lambda: (lambda e: (lambda: ucis.ucis_SetRealProperty(run_c.db, oc, ix, e, v * .5), lambda: no.obj.setRealProperty(ix, e, v * .5)))(list(R)[p % len(R)]),
            "handle": lambda: (lambda e: (lambda: ucis.ucis_GetHandleProperty(run_c.db, oc, ix, e), lambda: no.obj.getHandleProperty(ix, e)))(list(H)[p % len(H)]),
            "shandle": lambda: (lambda e: (lambda: ucis.ucis_SetHandleProperty(run_c.db, oc, ix, e, run_c.db), lambda: no.obj.setHandleProperty(ix, e, run_o.db)))(list(H)[p % len(H)]),
        }[what]()
        x, y = outcome(a[0]), outcome(a[1])
        if what.startswith("s") and what != "str" and x[0] == "ok":
            x = ("ok", None)
            y = (y[0], None) if y[0] == "ok" else y
        if x != y:
            raise Violation("property access %s #%d on %s: C-style %r, object API %r" % (what, p, nc.kind, x, y))


def strip_time(t):
    import re
    t = re.sub(r'writtenTime="[^"]*"', 'writtenTime=""', t)
    return re.sub(r'date="[^"]*"', 'date=""', t)


def getters(run):
    """Everything the C-style getters show of a database (except default dates)."""
    import ucis
    snap = S.snapshot(run.db)
    snap["hist"] = [[v for i, v in enumerate(h) if S._HIST[i] != "getDate"] for h in snap["hist"]]
    snap["ints"] = []
    for n in run.m.all:
        for p in M.INT_SCOPE + (M.INT_CVG if n.kind in ("cg", "ci", "cp", "cross") else []) + (M.INT_CG if n.kind in ("cg", "ci") else []):
            snap["ints"].append(n.obj.getIntProperty(-1, ucis.IntProperty[p]))
    return snap


def check(c):
    import ucis
    rc, ro = M.Run(new_db(c), CApi(c["none_root"])), M.Run(new_db(c), ObjTwin())
    for op in c["ops"]:
        a = outcome(lambda: rc.step(op))
        b = outcome(lambda: ro.step(op))
        if a != b:
            if a[0] == "raise" or b[0] == "raise":
                raise Violation("call %r: C-style %r, object API %r" % (op, a, b))
    M.check_all(rc)
    probe(rc, ro, c)
    S.require_equal(getters(ro), getters(rc), "database built by C-style calls")
    # write and close
    with scratch.Dir() as d:
        fc, fo = os.path.join(d, "c.xml"), os.path.join(d, "o.xml")
        a = outcome(lambda: ucis.ucis_Write(rc.db, fc, None, c["recurse"], ucis.UCIS_CVGBIN))
        b = outcome(lambda: ro.db.write(fo, None, c["recurse"] == 1, ucis.UCIS_CVGBIN))
        if a[0] != b[0] or (a[0] == "raise" and a != b):
            raise Violation("write: C-style %r, object API %r" % (a, b))
        if a[0] == "ok":
            S.require(a[1] == 0, "ucis_Write returned %r" % (a[1],))
            S.require(strip_time(open(fc, encoding="utf-8").read()) == strip_time(open(fo, encoding="utf-8").read()), "files written differ")
    S.require(ucis.ucis_Close(rc.db) == 0, "ucis_Close result")
    ro.db.close()


# ------------------------------------------------------------------ forwarding
FORWARD = {
    # C-style function: (object-API method, target: "opt" object or db, "obj", "db"; argument names after the target)
    "ucis_GetIntProperty": ("getIntProperty", "opt", 2), "ucis_SetIntProperty": ("setIntProperty", "opt", 3),
    "ucis_GetRealProperty": ("getRealProperty", "opt", 2), "ucis_SetRealProperty": ("setRealProperty", "opt", 3),
    "ucis_GetStringProperty": ("getStringProperty", "opt", 2), "ucis_SetStringProperty": ("setStringProperty", "opt", 3),
    "ucis_GetHandleProperty": ("getHandleProperty", "opt", 2), "ucis_SetHandleProperty": ("setHandleProperty", "opt", 3),
    "ucis_CreateScope": ("createScope", "opt", 6), "ucis_CreateInstance": ("createInstance", "opt", 7),
    "ucis_CreateToggle": ("createToggle", "opt", 6), "ucis_CreateNextCover": ("createNextCover", "obj", 3),
    "ucis_CreateHistoryNode": ("createHistoryNode", "db", 4), "ucis_CreateFileHandle": ("createFileHandle", "db", 2),
    "ucis_SetTestData": ("setTestData", "obj", 1), "ucis_Write": ("write", "db", 4), "ucis_Close": ("close", "db", 0),
}
NORESULT = ("ucis_SetIntProperty", "ucis_SetRealProperty", "ucis_SetStringProperty", "ucis_SetHandleProperty", "ucis_SetTestData")


def recorder(who, log, result, fail):
    from ucis.ucis import UCIS
    from ucis.scope import Scope
    from ucis.history_node import HistoryNode
    base = {"db": UCIS, "obj": Scope, "hist": HistoryNode}[who]

    class Rec(base):
        def __init__(self):
            pass
    for meth in sorted({m for m, _, _ in FORWARD.values()}):
        if not hasattr(base, meth):
            continue
        sig = inspect.signature(getattr(base, meth))

        def mk(meth, sig):
            def f(self, *a, **k):
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                log.append((who, meth, list(b.arguments.values())[1:]))
                if fail is not None:
                    raise fail
                return result
            return f
        setattr(Rec, meth, mk(meth, sig))
    return Rec()


#: values a caller may hand over as any argument: passed through untouched
VALUES = [None, "", 0, -1, False, True, "x", 1.5, (), [], {}, 2**63, "a.b", 1, b""]


class Token:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "arg%d" % self.n


def fwd_cases():
    return st.lists(st.tuples(st.sampled_from(sorted(FORWARD)), st.booleans(), st.booleans(), st.integers(0, 2),
                              st.lists(st.integers(-len(VALUES), len(VALUES) - 1), min_size=7, max_size=7)), min_size=1, max_size=6)


class Boom(Exception):
    pass


def check_fwd(c):
    import ucis
    for fname, use_none, fail, rec, vals in c:
        meth, target, nargs = FORWARD[fname]
        log = []
        result = object()
        boom = Boom() if fail else None
        db = recorder("db", log, result, boom)
        obj = recorder("hist" if fname == "ucis_SetTestData" else "obj", log, result, boom)
        args = [Token(i) if vals[i] < 0 else VALUES[vals[i]] for i in range(nargs)]
        if fname == "ucis_Write":
            args[2] = rec
        call = [db]
        if target == "opt":
            call.append(None if use_none else obj)
            who = "db" if use_none else "obj"
        elif target == "obj":
            call.append(obj)
            who = "hist" if fname == "ucis_SetTestData" else "obj"
        else:
            who = "db"
        try:
            got = getattr(ucis, fname)(*(call + args))
            raised = None
        except Boom as e:
            got, raised = None, e
        exp = list(args)
        if fname == "ucis_Write":
            exp[2] = rec == 1
        if len(log) != 1 or log[0][0] != who or log[0][1] != meth:
            raise Violation("%s made calls %r, expected one %s on the %s" % (fname, [l[:2] for l in log], meth, who))
        ga = log[0][2]
        if len(ga) != len(exp) or any(x is not y for x, y in zip(ga, exp)):
            raise Violation("%s passed %r to %s, expected %r" % (fname, ga, meth, exp))
        if fail:
            S.require(raised is boom, "%s swallowed an exception" % fname)
        elif fname in ("ucis_Write", "ucis_Close"):
            S.require(got == 0, "%s returned %r" % (fname, got))
        elif fname not in NORESULT:
            S.require(got is result, "%s returned %r instead of the result of %s" % (fname, got, meth))


# ------------------------------------------------------------------ constants
ENUMS = ["IntProperty", "StrProperty", "TestStatusT", "HistoryNodeKind", "ToggleMetricT", "ToggleTypeT", "ToggleDirT", "ScopeTypeT", "CoverTypeT", "SourceT",
         "FlagsT", "CoverFlagsT"]


def const_cases():
    return st.tuples(st.sampled_from(ENUMS), st.lists(st.integers(0, 60), min_size=1, max_size=5))


def check_const(c):
    import ucis
    en = getattr(ucis, c[0])
    names = [n for n in en.__members__ if n != "ALL" or c[0] == "HistoryNodeKind"]
    for n in names:
        x = getattr(ucis, _PREFIX[c[0]] + n.lstrip("_"))
        S.require(x == en[n] and type(x) is en, "constant for %s.%s is %r" % (c[0], n, x))
    a = b = 0
    for k in c[1]:
        n = names[k % len(names)]
        x = getattr(ucis, _PREFIX[c[0]] + n.lstrip("_"))
        a, b = a | int(x), b | int(en[n])
    S.require(a == b, "union of constants")


# ------------------------------------------------------------------ the current time
def check_time(k):
    """ucis_Time() is the current local time, in the format dates are stored in."""
    import time
    from datetime import datetime, timedelta
    import ucis
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = ["UTC", "EST5EDT", "Asia/Kolkata", "XYZ-13:45", "ABC+11"][k % 5]
        time.tzset()
        t0 = datetime.now().replace(microsecond=0)
        got = ucis.ucis_Time()
        t1 = datetime.now()
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    S.require(isinstance(got, str) and len(got) == 14 and got.isascii() and got.isdigit(), "ucis_Time() returned %r" % (got,))
    try:
        t = datetime(*[int(got[a:b]) for a, b in ((0, 4), (4, 6), (6, 8), (8, 10), (10, 12), (12, 14))])
    except ValueError as e:
        raise Violation("ucis_Time() returned %r: %s" % (got, e))
    S.require(t0 <= t <= t1, "ucis_Time() returned %r between %s and %s" % (got, t0, t1))


FACETS = [
    Facet("time", lambda: st.integers(0, 99), check_time, None, lambda k: {"zone=%d" % (k % 5)}, quick=60, thorough=1500, rule="current time asked for in several time zones; all count"),
    Facet("constants", const_cases, check_const, None, lambda c: {c[0]}, quick=3600, rule="unions of exported UCIS_* constants against the enumeration members; all count"),
    Facet("twin", cases, check, lambda c: len(c["ops"]) >= 8, lambda c: M.labels(c["ops"]) | {"none_root" if c["none_root"] else "explicit_root"}, quick=12000,
          rule="call histories played through both APIs on twin databases; non-trivial: >= 8 calls"),
    Facet("forwarding", fwd_cases, check_fwd, None, lambda c: {x[0] for x in c}, quick=9000,
          rule="C-style calls on stand-in objects recording the object-API call received; all non-trivial"),
]
ASSUMPTIONS = ["ucis_RemoveScope has no object-API counterpart"]
