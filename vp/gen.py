"""Hypothesis strategies for plain-data cases."""
import unicodedata
from hypothesis import strategies as st

SIMPLE = ["a", "b", "c", "cp1", "cp2", "cg", "x", "i1", "i2", "bin", "b0", "b1", "top", "e", "f", "g", "h"]
HOSTILE = ["a b", "%d", "%", "100%", "a%sb", "<x,y>", "<a,b>", "&amp;", "&", "\"q\"", "it's", "a.b.c",
           "top::cg", "\u00e9", "\u65e5\u672c", "\U0001f600", "a[0]", "[0:3]", "{x}", "}", "{http://u}n", "0",
           "-1", "1", "true", "null", "default", "~", "#c", "a: b", "a,b", "\\n", "]]>", "<!-- c -->", "TYPE",
           ":", "a : 3", "Bins:", "__null__file__", "du", "dummy", "<unknown>", "xxx", "a" * 70, "A", "B0",
           "a/b", "..", "None", "[a] => b", "auto[0]", "\u00df", "cross", "cgInstance", "$unit",
           "u(1)", "u(2)", "gen[0].u", "gen[1].u", "a;b", "a;c", "a|b", "x=1", "x=2", "@", "@1", "a*", "a?", "^a", "a\\b", "a\\c", "top.u1.cg",
           "p#(4)::cg", "p#(8)::cg", "a+b", "a-b", "a!b", "`a`", "$$", "a==>b", "a=>b=>c", "(1[*3])", "\\esc+name ", "01", "1.0", "1e3", "0x1F", "n" * 300, "L" * 1500,
           "yes", "nan", "inf", "a__b", "$x", "${x}", "//x", "/*x*/", "1_0", "=1+1", "\u212a", "\ufb01", "\u0130", "a\u200bb", "\u05d0\u05d1", "a\u0301", "x ", "0.10", "007"]
HOSTILE = [x.strip() for x in HOSTILE]
#: inner white space, the empty name, and names that begin or end with it (as escaped identifiers do)
WS = ["a\nb", "a\tb", "a  b", "x\u00a0y", "a ", " a", "cp1 ", " cp1", "b\t", "\\esc+name ", "x\u00a0", "\na", "", "a\rb", "\u0085a\u2028b"]


def _ok_text(alphabet):
    return st.text(alphabet, min_size=1, max_size=8).filter(lambda s: s.strip() == s and s != "")


#: printable, single-line, XML-representable, no edge whitespace
line_names = st.one_of(st.sampled_from(SIMPLE), st.sampled_from(SIMPLE), st.sampled_from(HOSTILE),
                       _ok_text("ab01_.[]:<>&%\"' \u00e9\u4e2d-"),
                       _ok_text("a1!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ "))
#: adds newlines, tabs, edge white space
xml_names = st.one_of(line_names, line_names, line_names, line_names, line_names, st.sampled_from(WS))
simple_names = st.sampled_from(SIMPLE)

counts = st.one_of(st.integers(0, 3), st.integers(0, 20), st.sampled_from(
    [0, 1, 5, 10, 99, 100, 255, 256, 1000, 12345, 65535, 65536, 999999, 10**6, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 10**15, 2**53 + 1, 2**63 - 1, 2**63, 2**64, 10**20]))
at_leasts = st.one_of(st.just(1), st.just(1), st.sampled_from([0, 2, 3, 5, 10, 100, 256, 1000, 2**31, 2**40, 2**53 + 1]))
weights = st.one_of(st.just(1), st.just(1), st.sampled_from([0, 2, 3, 5, 10, 100, 101, 256, 1000, 2**31 - 1, 2**32, 10**12]))
kinds = st.sampled_from(["b", "b", "b", "b", "g", "l"])


#: near misses of a name: a prefix, an extension, another case, another normalisation, inner space
RELATED = [lambda x: x[:-1], lambda x: x + "0", lambda x: x.swapcase(), lambda x: unicodedata.normalize("NFD", x), lambda x: unicodedata.normalize("NFC", x),
           lambda x: x[1:], lambda x: x + x[:5], lambda x: x[:1] + " " + x[1:], lambda x: x.replace(" ", ""), lambda x: "_" + x,
           lambda x: x[:60] + "[0]", lambda x: x.split("[")[0]]
SEPS = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ "


@st.composite
def uniq(draw, names, lo, hi):
    n = draw(st.integers(lo, hi))
    out = []
    seen = set()
    while len(out) < n:
        if out and draw(st.integers(0, 4)) == 4:
            x = draw(st.sampled_from(out))
            if draw(st.booleans()):
                x = draw(st.sampled_from(RELATED))(x)
            else:
                # siblings of one stem, told apart only behind (or before) a separator
                stem, sep = x[:8].strip() or "s", draw(st.sampled_from(SEPS))
                a, b = draw(st.sampled_from([("1", "2"), ("x", "y"), ("0)", "1)"), ("0]", "1]")]))
                pair = [stem + sep + a, stem + sep + b] if draw(st.integers(0, 2)) else [a + sep + stem, b + sep + stem]
                out_last = pair[0]
                if out_last not in seen and len(out) + 2 <= n:
                    seen.add(out_last)
                    out.append(out_last)
                x = pair[1]
            if not x or x != x.strip():
                x = draw(names)
        else:
            x = draw(names)
        k = 0
        while x in seen:
            k += 1
            x = "%s_%d" % (x[:60].rstrip() if k == 1 else x.rsplit("_", 1)[0], k)
        seen.add(x)
        out.append(x)
    return out


@st.composite
def count_for(draw, al):
    if draw(st.integers(0, 3)) == 0:
        return max(0, al + draw(st.integers(-1, 1)))
    return draw(counts)


class Opt:
    def __init__(self, names=line_names, empty=False, weights=True, max_insts=3, min_insts=1, min_cgs=0,
                 type_sum=None, mixed_al=False, kinds=True, max_cgs=3, max_ci=3, type_only=True, big=True,
                 src=False, cross_kinds=True, subset=True, zero_al=True, twins=False, dup_ci=False, dup_cg=False, iw=False, dup_inst=False, raw=True, dup_pt=False, bare_crs=False):
        self.__dict__.update(locals())


def _sz(draw, lo, hi, big):
    """Mostly small, occasionally a wide dimension."""
    if big and draw(st.integers(0, 39)) == 39:
        return (lo, hi + 12)
    return (lo, hi)


@st.composite
def twin_bins(draw, bins):
    """Sometimes: bins of the same names as given ones, of another kind."""
    if not bins or draw(st.integers(0, 4)):
        return []
    out = []
    for b in bins[:draw(st.integers(1, 2))]:
        out.append([b[0], draw(st.sampled_from([k for k in ("b", "g", "l") if k != b[1]]))])
    return out


@st.composite
def bulk(draw, o, kinds_too=True):
    """Many numbered bins."""
    n = draw(st.sampled_from([33, 64, 65, 101, 129, 257, 33, 65, 101, 129, 1025]))
    special = draw(st.integers(1, n)) if o.kinds and kinds_too else n + 1
    fmt = draw(st.sampled_from(["b%d", "auto[%d]", "<a,b%d>", "b[%d:0]"]))
    return [[fmt % i, "b" if (i + 1) % special or special == 1 else "gl"[i % 2]] for i in range(n)]


@st.composite
def template(draw, o):
    """Coverpoints and crosses of one covergroup type, without counts."""
    lo = 0 if o.empty else 1
    cps = []
    for n in draw(uniq(o.names, *_sz(draw, lo, 3, o.big))):
        w = draw(weights) if o.weights else 1
        al = draw(at_leasts)
        if al == 0 and not o.zero_al:
            al = 1
        bins = [[b, draw(kinds) if o.kinds else "b"] for b in draw(uniq(o.names, *_sz(draw, lo, 4, o.big)))]
        bins += draw(twin_bins(bins)) if o.kinds and o.twins else []
        if o.big and draw(st.integers(0, 59)) == 59:
            bins = draw(bulk(o))
        if o.dup_pt and bins and draw(st.integers(0, 11)) == 11:
            # another bin of a name already taken
            bins.insert(draw(st.integers(0, len(bins))), list(draw(st.sampled_from(bins[:8]))))
        cps.append(dict(n=n, w=w, al=al, bins=bins))
    crs = []
    if cps:
        for n in draw(uniq(o.names, *_sz(draw, 0, 2, o.big))):
            k = draw(st.integers(1, min(3, len(cps)))) if draw(st.integers(0, 5)) else len(cps)
            pts = draw(st.permutations([c["n"] for c in cps]))[:k]
            if draw(st.integers(0, 7)) == 7:
                pts = list(pts) + [pts[0]]
            al = draw(at_leasts)
            if al == 0 and not o.zero_al:
                al = 1
            bins = [[b, draw(kinds) if (o.kinds and o.cross_kinds) else "b"]
                    for b in draw(uniq(o.names, 0 if o.empty else 1, 4))]
            if o.bare_crs and draw(st.integers(0, 7)) == 7:
                bins = []           # a cross that was never sampled
            bins += draw(twin_bins(bins)) if o.kinds and o.cross_kinds and o.twins else []
            if o.big and draw(st.integers(0, 59)) == 59:
                bins = draw(bulk(o, o.cross_kinds))
            if o.dup_pt and bins and draw(st.integers(0, 11)) == 11:
                bins.insert(draw(st.integers(0, len(bins))), list(draw(st.sampled_from(bins[:8]))))
            crs.append(dict(n=n, w=draw(weights) if o.weights else 1, al=al, cps=list(pts), bins=bins))
    if o.dup_pt and cps and draw(st.integers(0, 19)) == 19:
        # another coverpoint or cross of a name already taken
        l = crs if crs and draw(st.booleans()) else cps
        d = draw(st.sampled_from(l))
        l.insert(draw(st.integers(0, len(l))), dict(d, w=draw(weights) if o.weights else 1, bins=[list(b) for b in d["bins"][::-1]]))
    return dict(cps=cps, crs=crs)


@st.composite
def fill(draw, tpl, o, subset):
    """Counts for (a subset of) a template."""
    lo = 0 if o.empty else 1
    sub = subset and draw(st.integers(0, 3)) == 0
    cps = []
    for c in tpl["cps"]:
        if sub and len(tpl["cps"]) > lo and draw(st.booleans()) and not (len(cps) == 0 and c is tpl["cps"][-1] and lo):
            continue
        bl = []
        if len(c["bins"]) > 32:
            k, m = draw(st.integers(1, 97)), draw(st.sampled_from([2, 3, 7, 10**6]))
            for i, b in enumerate(c["bins"]):
                if not sub or i % 3 or not i:
                    bl.append([b[0], b[1], (i + 1) * k % m] + ([c["al"]] if o.mixed_al else []))
        for b in c["bins"] if not bl else []:
            if sub and draw(st.integers(0, 2)) == 0 and not (lo and not bl and b is c["bins"][-1]):
                continue
            al = c["al"]
            if o.mixed_al and draw(st.integers(0, 3)) == 0:
                al = draw(at_leasts)
            cnt = draw(count_for(al))
            bl.append([b[0], b[1], cnt, al] if o.mixed_al else [b[0], b[1], cnt])
        if sub and draw(st.integers(0, 2)) == 0:
            bl = list(reversed(bl))
        cps.append(dict(n=c["n"], w=c["w"], al=c["al"], bins=bl))
    have = set(c["n"] for c in cps)
    if sub and draw(st.integers(0, 2)) == 0:
        cps.reverse()
    crs = []
    for c in tpl["crs"]:
        if not set(c["cps"]) <= have:
            continue
        if sub and draw(st.booleans()):
            continue
        bl = []
        if len(c["bins"]) > 32:
            k, m = draw(st.integers(1, 97)), draw(st.sampled_from([2, 3, 7, 10**6]))
            for i, b in enumerate(c["bins"]):
                if not sub or i % 3 or not i:
                    bl.append([b[0], b[1], (i + 1) * k % m] + ([c["al"]] if o.mixed_al else []))
        for b in c["bins"] if not bl else []:
            if sub and draw(st.integers(0, 2)) == 0 and not (lo and not bl and b is c["bins"][-1]):
                continue
            al = c["al"]
            if o.mixed_al and draw(st.integers(0, 3)) == 0:
                al = draw(at_leasts)
            cnt = draw(count_for(al))
            bl.append([b[0], b[1], cnt, al] if o.mixed_al else [b[0], b[1], cnt])
        crs.append(dict(n=c["n"], w=c["w"], al=c["al"], cps=list(c["cps"]), bins=bl))
    return dict(cps=cps, crs=crs)


def sum_specs(insts):
    cps, crs = [], []
    for inst in insts:
        for key, acc in (("cps", cps), ("crs", crs)):
            for p in inst[key]:
                t = next((x for x in acc if x["n"] == p["n"]), None)
                if t is None:
                    t = dict(p, bins=[])
                    acc.append(t)
                for b in p["bins"]:
                    tb = next((x for x in t["bins"] if x[0] == b[0] and x[1] == b[1]), None)
                    if tb is None:
                        t["bins"].append(list(b))
                    else:
                        tb[2] += b[2]
    return dict(cps=cps, crs=crs)


files = st.integers(0, 60).map(lambda k: "f%d.sv" % k) | st.sampled_from(["a.sv", "b.sv", "dir/a.sv", "\u00e9.sv", "a b.sv", "x&y.sv", "__null__file__", "c%d.sv", "A.sv", "./a.sv", "dir/../a.sv", "/a.sv"])


@st.composite
def srcinfo(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return None
    return [draw(files) if k > 1 else None, draw(st.integers(0, 3000)), draw(st.integers(0, 40))]


@st.composite
def covergroup(draw, name, o, tpl=None):
    if tpl is None:
        tpl = draw(template(o))
    w = draw(weights) if o.weights else 1
    if o.type_only and draw(st.integers(0, 3)) == 0:
        g = dict(n=name, w=w, insts=[], **draw(fill(tpl, o, False)))
    else:
        insts = []
        inames = draw(uniq(o.names, *_sz(draw, 1, o.max_ci, o.big)))
        if draw(st.integers(0, 7)) == 0 and name not in inames:
            inames[0] = name
        for n in inames:
            insts.append(dict(n=n, w=draw(weights) if o.weights else 1, **draw(fill(tpl, o, o.subset))))
        if o.dup_ci and draw(st.integers(0, 5)) == 0:
            # another instance of a name already taken
            insts.insert(draw(st.integers(0, len(insts))), dict(n=draw(st.sampled_from(insts))["n"], w=draw(weights) if o.weights else 1,
                                                                **draw(fill(tpl, o, o.subset))))
        m = draw(st.integers(0, 3)) if o.type_sum is None else (0 if o.type_sum else 3)
        if m == 3:
            t = draw(fill(tpl, o, False))
        elif m == 2:
            t = dict(cps=[], crs=[])
        else:
            t = sum_specs(insts)
        g = dict(n=name, w=w, insts=insts, **t)
    if o.src:
        g["src"] = draw(srcinfo())
        for p in [g] + g["insts"]:
            for c in p["cps"] + p["crs"]:
                if draw(st.integers(0, 4)) == 0:
                    c["src"] = draw(srcinfo())
    return g


@st.composite
def db_spec(draw, o):
    insts = []
    lo, hi = _sz(draw, o.min_insts, o.max_insts, o.big)
    wide = hi > o.max_insts
    for n in draw(uniq(o.names, 10 if wide else lo, hi)):
        du = draw(st.sampled_from(["du", "m1", "default", "\u00e9 m"])) if draw(st.booleans()) else draw(o.names)
        cgs = [draw(covergroup(g, o)) for g in draw(uniq(o.names, *(_sz(draw, o.min_cgs, o.max_cgs, o.big) if not wide else (o.min_cgs, max(1, o.min_cgs)))))]
        if o.dup_cg and cgs and draw(st.integers(0, 7)) == 7:
            # another covergroup of a name already taken
            cgs.insert(draw(st.integers(0, len(cgs))), draw(covergroup(draw(st.sampled_from(cgs))["n"], o)))
        i = dict(n=n, du=du, cgs=cgs)
        if o.src:
            i["src"] = draw(srcinfo())
            if draw(st.integers(0, 2)) == 0:
                i["dusrc"] = draw(srcinfo())
        if o.iw and draw(st.booleans()):
            i["iw"] = draw(weights)
            i["duw"] = draw(weights)
        if o.dup_inst and insts and draw(st.integers(0, 11)) == 11:
            # another instance of a name already taken
            i["n"] = insts[-1]["n"]
        insts.append(i)
    raw = draw(st.integers(0, 14))
    return dict(insts=insts, raw=raw) if raw > 7 and o.raw else dict(insts=insts)


# --------------------------------------------------------------- history
hist_text = st.one_of(st.sampled_from(["", "x", "./", "a b", "-v +x=\"1\"", "<&>", "\u00e9", "0", "-1", "ns", "ps"]), line_names, st.sampled_from(
    ["first line\nsecond  line", "a\tb", "a\r\nb", " x ", "x\n", "+m=\"a  b\" \\\n  -y", "\t", "1e5", "007"]))
dates = st.builds(lambda y, mo, d, h, mi, s: "%04d%02d%02d%02d%02d%02d" % (y, mo, d, h, mi, s),
                  st.integers(1970, 2099), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23),
                  st.integers(0, 59), st.integers(0, 59))
dst_dates = st.sampled_from(["20240310023000", "20240331013000", "20241103013000", "20111230120000", "20240229235959", "19991231235959", "20000101000000", "19700101000000", "20380119031408", "20991231000001", "20230131100000"])
fin = st.one_of(st.just(0.0), st.integers(0, 10**9).map(float), st.floats(0, 1e12, allow_nan=False),
                st.sampled_from([0.5, 1e-7, 1.25e-9, 1e22, 123456789.125]))
times = st.one_of(fin, fin, fin, st.sampled_from([float("inf"), 5e-324, 1.7976931348623157e308, 0.1 + 0.2]))


@st.composite
def history(draw):
    td = draw(st.booleans())
    h = dict(ln=draw(xml_names), pn=draw(st.none() | hist_text), kind=draw(st.sampled_from([1, 1, 2, 1, 2, None, "simulation", "UCIS:TEST", "merge run"])),
             status=draw(st.sampled_from(["OK", "OK", "ERROR", "FATAL"])), td=td)
    vals = dict(sim=times, unit=hist_text, cwd=hist_text, cpu=times, seed=hist_text, cmd=hist_text, args=hist_text,
                comp=st.sampled_from(["0", "1"]) , date=dates | dst_dates, user=hist_text, cost=fin,
                cat=hist_text, vid=hist_text, vtool=hist_text, vver=hist_text,
                same=st.integers(0, 10**6), comment=hist_text)
    for k, s in vals.items():
        if td and k in ("sim", "unit", "cwd", "cpu", "seed", "cmd", "args", "comp", "date", "user", "cost", "cat"):
            h[k] = draw(s)
        elif draw(st.integers(0, 2)) == 0:
            h[k] = draw(s)
    if not td and draw(st.integers(0, 5)) == 0:
        h["status"] = None
    if draw(st.integers(0, 3)) == 0:
        h["up"] = draw(st.integers(0, 3))
    return h


def same_as_parent(hs):
    """Some nodes take the name of their parent (deterministically, from what is drawn)."""
    for k, h in enumerate(hs):
        if h.get("up") is not None and k and (h["up"] + k) % 3 == 0:
            h["ln"] = hs[k - 1 - h["up"] % k]["ln"]
    return hs


@st.composite
def _histories(draw):
    hs = draw(st.lists(history(), max_size=4))
    hs = same_as_parent(hs)
    if hs and draw(st.integers(0, 24)) == 24:
        hs = [dict(h, ln="%s_%d" % (h["ln"], k)) for k in range(draw(st.integers(3, 4))) for h in hs]
    return hs


histories = _histories()


#: settings applied to the scopes of a built database (spec.tweak)
tweaks = st.lists(st.tuples(st.integers(0, 40), st.integers(0, 20), st.integers(0, 20)).map(list), max_size=8)


# --------------------------------------------------------------- labels
def spec_labels(spec):
    from .spec import all_points, cg_list
    ls = set()
    gl = cg_list(spec)
    ls.add("insts=%d" % min(3, len(spec["insts"])))
    ls.add("cgs=0" if not gl else "cgs>0")
    for g in gl:
        ls.add("type_only" if not g["insts"] else ("multi_inst" if len(g["insts"]) > 1 else "one_inst"))
    nb = 0
    for t, c in all_points(spec):
        if t == "cr":
            ls.add("cross")
        nb += len(c["bins"])
        if c["w"] != 1:
            ls.add("weight!=1")
        if c["al"] != 1:
            ls.add("at_least!=1")
        for b in c["bins"]:
            if b[1] != "b":
                ls.add(("cross_" if t == "cr" else "") + ("ignore" if b[1] == "g" else "illegal"))
            if b[2] >= 2**31:
                ls.add("huge_count")
    if any(len(c["bins"]) > 32 for _, c in all_points(spec)):
        ls.add("bulk_bins")
    if any(t == "cr" and len(c["cps"]) > 3 for t, c in all_points(spec)):
        ls.add("wide_cross")
    ls.add("bins>=20" if nb >= 20 else "bins<20")
    return ls


def spec_nontrivial(spec):
    from .spec import all_points
    return sum(len(c["bins"]) for _, c in all_points(spec)) >= 2


# --------------------------------------------------------------- overlapping databases
@st.composite
def universe(draw, o):
    """Shared structure the sources of a merge draw from."""
    out = []
    dus = {}
    # at most one of the dimensions is wide
    dim = draw(st.integers(0, 119)) if o.big else 0
    wide = lambda k: 12 if dim == 117 + k else 0
    for n in draw(uniq(o.names, 1 + (wide(0) and 9), 3 + wide(0))):
        cgs = []
        for g in draw(uniq(o.names, 1, 3 + wide(1) if not wide(0) else 1)):
            cgs.append(dict(n=g, w=draw(weights) if o.weights else 1, tpl=draw(template(o)),
                            ci=[[c, draw(weights) if o.weights else 1] for c in draw(uniq(o.names, 0, 3 + wide(2)))]))
        u = dict(n=n, du=draw(o.names), cgs=cgs)
        if o.iw:
            u["iw"] = draw(weights)
            u["duw"] = dus.setdefault(u["du"], draw(weights))
        out.append(u)
    return out


@st.composite
def source_spec(draw, uni, o, dups=True):
    def subset(xs):
        if not xs:
            return []
        m = draw(st.integers(0, 4))
        if m == 0:
            xs = [x for x in xs if draw(st.booleans())]
        elif m == 1:
            xs = list(draw(st.permutations(xs)))
        if dups and xs and draw(st.integers(0, 14)) == 0:
            xs = list(xs) + [draw(st.sampled_from(xs))]
        return xs
    insts = []
    for u in subset(uni):
        cgs = []
        for g in subset(u["cgs"]):
            cis = [dict(n=c[0], w=c[1], **draw(fill(g["tpl"], o, True))) for c in subset(g["ci"])]
            m = draw(st.integers(0, 3))
            if m == 0 and cis:
                t = dict(cps=[], crs=[])
            elif m == 1:
                t = draw(fill(g["tpl"], o, True))
            elif cis:
                t = sum_specs(cis)
            else:
                t = draw(fill(g["tpl"], o, False))
            if dups and t["cps"] and draw(st.integers(0, 24)) == 0:
                d = draw(st.sampled_from(t["cps"]))
                t["cps"] = t["cps"] + [dict(d, bins=[[b[0], b[1], draw(counts)] for b in d["bins"]])]
            cgs.append(dict(n=g["n"], w=g["w"], insts=cis, **t))
        insts.append(dict(n=u["n"], du=u["du"], cgs=cgs, **{k: u[k] for k in ("iw", "duw") if k in u}))
    raw = draw(st.integers(0, 14))
    return dict(insts=insts, raw=raw) if raw > 7 and o.raw else dict(insts=insts)


@st.composite
def source_list(draw, o, lo=1, hi=4, dups=True, wide=False):
    uni = draw(universe(o))
    n = draw(st.one_of(st.integers(5, 12), st.integers(10, 40))) if wide and draw(st.integers(0, 24)) == 24 else draw(st.sampled_from([k for k in (2, 1, 2, 3, 3, 4) if lo <= k <= hi] or [lo]))
    return [draw(source_spec(uni, o, dups)) for _ in range(n)]


def sources_labels(srcs):
    ls = {"sources=%d" % len(srcs) if len(srcs) < 5 else "sources>=5"}
    seen = {}
    for k, s in enumerate(srcs):
        names = [i["n"] for i in s["insts"]]
        if len(set(names)) != len(names):
            ls.add("dup_inst")
        if not names:
            ls.add("empty_source")
        for i in s["insts"]:
            for g in i["cgs"]:
                seen.setdefault((i["n"], g["n"]), set()).add(k)
                ls.add("coverinsts" if g["insts"] else "type_only")
    if any(len(v) > 1 for v in seen.values()):
        ls.add("overlap")
    if any(len(v) == 1 for v in seen.values()) and len(srcs) > 1:
        ls.add("disjoint_part")
    return ls


def overlapping(srcs):
    return "overlap" in sources_labels(srcs)
