"""YAML coverage documents: generation, presentations, reference interpretation."""
import copy
import io
import json
import re
import os
import yaml
from hypothesis import strategies as st
from . import gen, spec as S
from .core import HarnessError

HERE = os.path.dirname(os.path.abspath(__file__))
_schema = None


def schema():
    global _schema
    if _schema is None:
        with open(os.path.join(HERE, "data", "coverage.json")) as f:
            _schema = json.load(f)
    return _schema


def conforms(doc):
    import jsonschema
    try:
        jsonschema.validate(instance=doc, schema=schema())
        return True
    except jsonschema.ValidationError:
        return False


names = st.one_of(gen.xml_names, gen.xml_names, st.sampled_from(
    ["yes", "no", "on", "1", "1.5", "null", "~", "2020-01-01", " lead", "trail ", "0x10", "1_000", "!tag", "&a", "*a",
     "- x", "? y", "a: b", "# c", "'", "\"", "@", "`", "1e3", "12:30:45", "=", "<<", "true"]))


@st.composite
def template(draw):
    cps = []
    for n in draw(gen.uniq(names, *gen._sz(draw, 0 if draw(st.integers(0, 5)) == 0 else 1, 3, True))):
        cp = dict(n=n, al=draw(st.none() | gen.at_leasts), b={})
        for k in "bgl":
            cp["b"][k] = draw(gen.uniq(names, *gen._sz(draw, 0 if draw(st.integers(0, 4)) == 0 else 1, 4, True))) if k == "b" or draw(st.integers(0, 2)) == 0 else []
        if draw(st.integers(0, 59)) == 59:
            # more bins than a reader may hold in one piece
            cp["b"]["b"] = [b[0] for b in draw(gen.bulk(gen.Opt(kinds=False)))][:300]
        cps.append(cp)
    crs = []
    if cps:
        for n in draw(gen.uniq(names, *gen._sz(draw, 0, 2, True))):
            pts = draw(st.permutations([c["n"] for c in cps]))[:draw(st.integers(1, min(3, len(cps)))) if draw(st.integers(0, 5)) else len(cps)]
            pts = list(pts) + ([pts[0]] if draw(st.integers(0, 7)) == 7 else [])
            crs.append(dict(n=n, al=draw(st.none() | gen.at_leasts), cps=pts, bins=draw(gen.uniq(names, *gen._sz(draw, 0, 4, True)))))
    return dict(cps=cps, crs=crs)


# the schema takes any integer
counts = st.one_of(gen.counts, gen.counts, gen.counts, gen.counts, st.sampled_from([-1, -2, -7, -100, -2**40]))

KEY = dict(b="bins", g="ignorebins", l="illegalbins")


@st.composite
def instance(draw, tpl, name):
    sub = draw(st.integers(0, 2)) == 0

    def keep():
        return not sub or draw(st.integers(0, 2)) > 0

    def bins(ns):
        ns = [n for n in ns if keep()]
        if sub and draw(st.booleans()):
            ns = ns[::-1]
        if len(ns) > 32:
            m = draw(st.sampled_from([2, 3, 7, 10**6]))
            return [dict(name=n, count=i * 31 % m) for i, n in enumerate(ns)]
        return [dict(name=n, count=draw(counts)) for n in ns]
    inst = dict(name=name)
    cps = []
    for c in tpl["cps"]:
        if not keep():
            continue
        d = dict(name=c["n"])
        if c["al"] is not None:
            d["atleast"] = c["al"]
        d["bins"] = bins(c["b"]["b"])
        for k in "gl":
            b = bins(c["b"][k])
            if b or draw(st.integers(0, 4)) == 0:
                d[KEY[k]] = b
        cps.append(d)
    if sub and draw(st.booleans()):
        cps.reverse()
    have = {c["name"] for c in cps}
    crs = []
    for c in tpl["crs"]:
        if not set(c["cps"]) <= have or not keep():
            continue
        d = dict(name=c["n"], coverpoints=list(c["cps"]))
        if c["al"] is not None:
            d["atleast"] = c["al"]
        b = bins(c["bins"])
        if b or draw(st.booleans()):
            d["bins"] = b
        crs.append(d)
    if cps or draw(st.booleans()):
        inst["coverpoints"] = cps
    if crs or draw(st.integers(0, 3)) == 0:
        inst["crosses"] = crs
    return inst


@st.composite
def docs(draw):
    cgs = []
    for n in draw(gen.uniq(names, *gen._sz(draw, 0 if draw(st.integers(0, 5)) == 0 else 1, 3, True))):
        g = dict(name=n)
        if draw(st.booleans()):
            g["weight"] = draw(gen.weights)
        tpl = draw(template())
        k = draw(st.sampled_from([1, 2, 2, 3, 1, 2, 0, -1])) if draw(st.integers(0, 39)) else draw(st.integers(10, 14))
        if k >= 0:
            g["instances"] = [draw(instance(tpl, i)) for i in draw(gen.uniq(names, k, k))]
        cgs.append(g)
    again = draw(st.integers(0, 11))
    if again < 3 and cgs:
        # what was listed already is listed again
        g = draw(st.sampled_from(cgs))
        if again == 0:
            cgs.insert(draw(st.integers(0, len(cgs))), copy.deepcopy(g))
        elif g.get("instances"):
            i = draw(st.sampled_from(g["instances"]))
            l = g["instances"]
            if again == 2 and i.get("coverpoints"):
                cp = draw(st.sampled_from(i["coverpoints"]))
                i, l = draw(st.sampled_from(cp["bins"])) if cp["bins"] else None, cp["bins"]
            if i is not None:
                l.insert(draw(st.integers(0, len(l))), copy.deepcopy(i))
    cov = {}
    if cgs or draw(st.booleans()):
        cov["covergroups"] = cgs
    return dict(coverage=cov)


styles = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["block", "flow", "json", "default", "anchors", "json_compact", "handmade"]),
    quote=st.sampled_from([None, "'", '"']), comments=st.booleans(), docstart=st.booleans(), rev=st.booleans(),
    unicode=st.booleans(), width=st.sampled_from([20, 80, 4000]), indent=st.sampled_from([2, 4]), bom=st.integers(0, 9)))


def _rev(x):
    if isinstance(x, dict):
        return {k: _rev(x[k]) for k in reversed(list(x))}
    if isinstance(x, list):
        return [_rev(v) for v in x]
    return x


class _Intern:
    """Makes equal sub-structures the same object, so that PyYAML emits anchors and aliases."""

    def __init__(self):
        self.m = {}

    def go(self, x):
        if isinstance(x, dict):
            y = {k: self.go(v) for k, v in x.items()}
        elif isinstance(x, list):
            y = [self.go(v) for v in x]
        else:
            return x
        return self.m.setdefault(json.dumps(x, sort_keys=True), y)


def js(x, **kw):
    """JSON text that YAML reads as the same value: what YAML takes for a line break or does not allow is escaped."""
    return re.sub("[\x7f-\x9f\u2028\u2029\ufeff\ufffe\uffff]", lambda m: "\\u%04x" % ord(m[0]), json.dumps(x, ensure_ascii=False, **kw))


def _scalar(v, odd):
    """A scalar in JSON form, or in one of the other forms YAML has for it."""
    if odd and type(v) is int and v > 0:
        return ["%d" % v, "0x%X" % v, "+%d" % v, "0%o" % v, "%d_" % v, "!!int \"%d\"" % v, "0b{:b}".format(v)][v % 7]
    if odd and isinstance(v, str) and len(v) % 3 == 1:
        return "!!str " + js(v)
    return js(v)


def _hand(x, ind=0, odd=False):
    """Block YAML with quoted scalars, comments and blank lines; odd: unusual forms of scalars, merge keys."""
    pad = "  " * ind
    out = ""
    if isinstance(x, dict):
        if not x:
            return pad + "{}\n"
        for k, v in x.items():
            if isinstance(v, (dict, list)) and v:
                out += "%s%s:   # %s\n\n%s" % (pad, k, k, _hand(v, ind + 1, odd))
            elif odd and k == "count" and v and len(x) == 2:
                out += "%s<<: {count: %s}\n" % (pad, _scalar(v, odd))
            else:
                out += "%s%s: %s\n" % (pad, k, _scalar(v, odd))
        return out
    if not x:
        return pad + "[]\n"
    for v in x:
        if isinstance(v, (dict, list)) and v:
            out += "%s-\n%s" % (pad, _hand(v, ind + 1, odd))
        else:
            out += "%s- %s   # item\n" % (pad, _scalar(v, odd))
    return out


def render(doc, sty):
    d = _rev(doc) if sty["rev"] else doc
    k = sty["kind"]
    if k == "json":
        t = js(d, indent=sty["indent"])
    elif k == "json_compact":
        t = js(d)
    elif k == "handmade":
        t = _hand(d, 0, sty["width"] == 20)
    else:
        if k == "anchors":
            d = _Intern().go(d)
        t = yaml.safe_dump(d, default_flow_style={"block": False, "flow": True, "default": None, "anchors": False}[k],
                           default_style=None if k == "anchors" else (sty["quote"] if sty["quote"] != "'" else None),
                           allow_unicode=sty["unicode"], width=sty["width"], indent=sty["indent"], sort_keys=False)
    if sty["docstart"] and k not in ("json", "json_compact"):
        t = "---\n" + t
    if sty["comments"] and k not in ("json", "json_compact"):
        t = "# a comment: with {odd} [text]\n" + t + "\n# trailing\n"
    back = yaml.load(io.StringIO(t), Loader=yaml.FullLoader)
    if back != doc:
        # PyYAML's emitter folds some scalars wrongly; such a text is not a presentation of doc
        t = js(doc)
        if yaml.load(io.StringIO(t), Loader=yaml.FullLoader) != doc:
            raise HarnessError("presentation %r does not denote the document: %r" % (sty, t))
    return t


def reference(doc):
    """Covergroups of a document as in spec trees (weights of instances excluded)."""
    out = []
    for g in doc["coverage"].get("covergroups") or []:
        insts = []
        for i in g.get("instances") or []:
            cps, crs = [], []
            for c in i.get("coverpoints") or []:
                al = c.get("atleast", 1)
                cps.append(dict(n=c["name"], w=1, bins=[[b["name"], k, b["count"], al] for k in "bgl" for b in c.get(KEY[k]) or []]))
            nm = [c["n"] for c in cps]
            for c in i.get("crosses") or []:
                al = c.get("atleast", 1)
                crs.append(dict(n=c["name"], w=1, cps=list(c["coverpoints"]), ix=[nm.index(x) for x in c["coverpoints"]],
                                bins=[[b["name"], "b", b["count"], al] for b in c.get("bins") or []]))
            insts.append(dict(n=i["name"], cps=cps, crs=crs))
        out.append(dict(n=g["name"], w=g.get("weight", 1), insts=insts, **S.sum_points(insts)))
    return by_kind(out)


def by_kind(cgs):
    t = S.by_kind(dict(insts=[dict(cgs=cgs)]))
    return t["insts"][0]["cgs"]


def plain(x):
    """YAML counts and thresholds are number-like schema objects: reduce them to int."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, int, float)):
        return x
    return int(x)


def observe(db):
    t = plain(S.extract(db))
    cgs = [g for i in t["insts"] for g in i["cgs"]]
    for g in cgs:
        for i in g["insts"]:
            i.pop("w")
    return by_kind(cgs)


def dangling(doc):
    for g in (doc.get("coverage") or {}).get("covergroups") or []:
        for i in g.get("instances") or []:
            have = {c["name"] for c in i.get("coverpoints") or []}
            for c in i.get("crosses") or []:
                if not set(c["coverpoints"]) <= have:
                    return True
    return False


def type_dangling(doc):
    """A cross naming a coverpoint no instance of its covergroup defines."""
    for g in (doc.get("coverage") or {}).get("covergroups") or []:
        have = {c["name"] for i in g.get("instances") or [] for c in i.get("coverpoints") or []}
        for i in g.get("instances") or []:
            for c in i.get("crosses") or []:
                if not set(c["coverpoints"]) <= have:
                    return True
    return False


def labels(doc):
    ls = set()
    cgs = doc["coverage"].get("covergroups") or []
    ls.add("cgs=%d" % min(3, len(cgs)))
    for g in cgs:
        n = g.get("instances")
        ls.add("no_instances_member" if n is None else "instances=%d" % len(n))
        if "weight" in g:
            ls.add("weight")
        seen = []
        for i in n or []:
            ks = [c["name"] for c in i.get("coverpoints") or []]
            if seen and ks not in seen:
                ls.add("instances_differ")
            seen.append(ks)
            for c in i.get("coverpoints") or []:
                if c.get("atleast", 1) != 1:
                    ls.add("atleast")
                for k in "gl":
                    if c.get(KEY[k]):
                        ls.add(KEY[k])
            for c in i.get("crosses") or []:
                ls.add("cross")
                if not c.get("bins"):
                    ls.add("cross_without_bins")
    return ls


def nontrivial(doc):
    return sum(len(c.get("bins") or []) for g in doc["coverage"].get("covergroups") or [] for i in g.get("instances") or []
               for c in (i.get("coverpoints") or []) + (i.get("crosses") or [])) >= 2
