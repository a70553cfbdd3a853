"""C10 Invalid YAML is rejected, never turned into a database."""
import io
import json
import yaml
from hypothesis import strategies as st
from ..core import Facet, Violation
from .. import gen, spec as S, yamlutil as Y
from .c09 import load, CARRIERS

JUNK = [None, True, False, 1.5, 2.0, -1.5, "x", "", "3", 7, [], [1], {}, {"name": 1}, ["a"], [[]], [{}], {"a": "b"}, [None], "2020-01-01"]


def nodes(x, path=()):
    yield path
    if isinstance(x, dict):
        for k, v in x.items():
            yield from nodes(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from nodes(v, path + (k,))


def at(doc, p):
    for k in p:
        doc = doc[k]
    return doc


def edit(doc, e):
    """Applies one edit {op, pos, junk} in place; returns the (possibly new) root."""
    ps = list(nodes(doc))
    if e.get("leaf"):
        ps = [p for p in ps if p and not isinstance(at(doc, p), (dict, list))] or ps
    p = ps[e["pos"] % len(ps)]
    if not p:
        return e["junk"] if e["op"] == "set" and e["pos"] % 3 == 0 else doc
    par = doc
    for k in p[:-1]:
        par = par[k]
    k = p[-1]
    if e["op"] == "set":
        par[k] = e["junk"]
    elif e["op"] == "del":
        del par[k]
    elif e["op"] == "wrap":
        par[k] = [par[k]]
    elif e["op"] == "alike":
        par[k] = alike(par[k], e["how"])
    elif e["op"] == "rekey" and isinstance(par, dict):
        par[rekey(str(k), e["how"])] = par.pop(k)
    elif e["op"] == "key" and isinstance(par, dict):
        par[str(k) + "_"] = par.pop(k)
    return doc


def alike(v, how):
    """Values that resemble v without being of its type."""
    if isinstance(v, bool) or v is None:
        l = [str(v), 0, [v], "yes"]
    elif isinstance(v, (int, float)):
        l = [str(v), str(v), "+%s" % v, " %s" % v, "%s " % v, v + 0.5, [v], {"value": v}, None, v > 0, hex(int(v)), "", "%s hits" % v]
    elif isinstance(v, str):
        l = [[v], None, {"name": v}, len(v), len(v) + 0.5, True, [v, v]]
    elif isinstance(v, list):
        l = [{str(n): x for n, x in enumerate(v)}, v[0] if v else {}, [v], str(v), len(v), {"items": v}, [v, v], v + [None]]
    else:
        l = [[v], list(v.values()), list(v), str(v), list(v.items())[0] if v else [], None]
    return json.loads(json.dumps(l[how % len(l)]))


def rekey(k, how):
    l = [k.capitalize(), k.upper(), k + "s", k[:-1], k + " ", "_" + k, k.replace("name", "id").replace("atleast", "at_least"), "x-" + k]
    return l[how % len(l)]


@st.composite
def struct_cases(draw):
    doc = draw(Y.docs())
    # steer most edits at leaves that exist
    es = draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(["set", "set", "del", "wrap", "key", "alike", "alike", "alike", "rekey"]), leaf=st.booleans(),
                                                  how=st.integers(0, 103), pos=st.integers(0, 120), junk=st.sampled_from(JUNK))), min_size=1, max_size=2))
    return dict(doc=doc, edits=es, carrier=draw(st.sampled_from(CARRIERS)))


def edited(c):
    d = json.loads(json.dumps(c["doc"]))
    for e in c["edits"]:
        d = edit(d, json.loads(json.dumps(e)))
        if not isinstance(d, (dict, list)):
            break
    return d


def must_reject(text, carrier, why):
    try:
        db = load(text, carrier)
    except Exception:
        return
    raise Violation("%s, but loading returned %r: %s" % (why, db, text[:600]))


def check_struct(c):
    d = edited(c)
    text = Y.js(d)
    if not Y.conforms(d):
        must_reject(text, c["carrier"], "document violates the schema")
    elif isinstance(d, dict) and Y.dangling(d):
        must_reject(text, c["carrier"], "a cross names an undefined coverpoint")
    elif "coverage" in d and agrees(d):
        S.require_equal(Y.reference(d), Y.observe(load(text, c["carrier"])), "database loaded from an edited but valid document")


def agrees(d):
    """Quantifier of C09: unique names, agreement of instances."""
    for g in d["coverage"].get("covergroups") or []:
        if g.get("weight", 1) < 0:
            return False
        seen = {}
        for i in g.get("instances") or []:
            for key in ("coverpoints", "crosses"):
                ns = [c["name"] for c in i.get(key) or []]
                if len(ns) != len(set(ns)):
                    return False
                for c in i.get(key) or []:
                    sig = (c.get("atleast", 1), json.dumps(c.get("coverpoints")))
                    if seen.setdefault((key, c["name"]), sig) != sig:
                        return False
    return True


def invalid_struct(c):
    d = edited(c)
    return not Y.conforms(d) or Y.dangling(d)


@st.composite
def dangling_cases(draw):
    doc = draw(Y.docs().filter(lambda d: any(i.get("crosses") for g in d["coverage"].get("covergroups") or [] for i in g.get("instances") or [])))
    crs = [c for g in doc["coverage"]["covergroups"] for i in g.get("instances") or [] for c in i.get("crosses") or []]
    return dict(doc=doc, which=draw(st.integers(0, len(crs) - 1)), pos=draw(st.integers(0, 3)), ins=draw(st.booleans()),
                name=draw(Y.names), carrier=draw(st.sampled_from(CARRIERS)), sty=draw(Y.styles),
                mode=draw(st.sampled_from(["rename", "rename", "dropcp", "steal"])))


def dangle(c):
    doc = json.loads(json.dumps(c["doc"]))
    k = 0
    for g in doc["coverage"]["covergroups"]:
        insts = g.get("instances") or []
        for i in insts:
            for cr in i.get("crosses") or []:
                if k == c["which"]:
                    have = [x["name"] for x in i.get("coverpoints") or []]
                    n = len(cr["coverpoints"])
                    p = c["pos"] % n
                    if c["mode"] == "dropcp":
                        # defined by another instance at most, not by this one
                        i["coverpoints"] = [x for x in i["coverpoints"] if x["name"] != cr["coverpoints"][p]]
                    else:
                        others = [x["name"] for j in insts + [q for h in doc["coverage"]["covergroups"] for q in h.get("instances") or []]
                                  for x in j.get("coverpoints") or [] if x["name"] not in have]
                        nm = c["name"]
                        if c["mode"] == "steal" and others:
                            nm = others[c["pos"] % len(others)]
                        while nm in have:
                            nm += "_no"
                        if c["ins"]:
                            cr["coverpoints"].insert(p, nm)
                        else:
                            cr["coverpoints"][p] = nm
                k += 1
    return doc


def check_dangling(c):
    d = dangle(c)
    S.require(Y.dangling(d) and Y.conforms(d), "harness: not dangling")
    must_reject(Y.render(d, c["sty"]), c["carrier"], "a cross names a coverpoint its covergroup instance does not define")


@st.composite
def text_cases(draw):
    return dict(doc=draw(Y.docs()), sty=draw(Y.styles), carrier=draw(st.sampled_from(CARRIERS)),
                muts=draw(st.lists(st.tuples(st.sampled_from(["cut", "ins", "del", "dup", "tab"]), st.floats(0, 1),
                                             st.sampled_from(["{", "}", "[", "]", ":", ": ", "- ", "\n", "\t", "'", "\"", "&", "*", "!", "%", "@", "x", ",", "#", "|", ">", "?", "\x00", "\n  ", "---\n", "...\n", "!!python/tuple "])),
                                   min_size=1, max_size=3)))


def corrupt(c):
    t = Y.render(c["doc"], c["sty"])
    for op, pos, s in c["muts"]:
        p = int(pos * len(t))
        if op == "cut":
            t = t[:p]
        elif op == "ins":
            t = t[:p] + s + t[p:]
        elif op == "del":
            t = t[:p] + t[p + 1 + len(s):]
        elif op == "dup":
            t = t[:p] + t[p:p + 7] + t[p:]
        else:
            t = t[:p] + "\t" + t[p:]
    return t


def parsed(t):
    try:
        return True, yaml.load(io.StringIO(t), Loader=yaml.FullLoader)
    except Exception:
        return False, None


def invalid_text(c):
    ok, d = parsed(corrupt(c))
    if not ok:
        return True
    try:
        return not Y.conforms(d)
    except Exception:
        return True


def check_text(c):
    t = corrupt(c)
    if invalid_text(c):
        must_reject(t, c["carrier"] if c["carrier"] != "load_text" else "load_text", "text is not a valid coverage document")


FACETS = [
    Facet("structure", struct_cases, check_struct, invalid_struct, lambda c: {"invalid" if invalid_struct(c) else "still_valid", "op=" + c["edits"][0]["op"]}, quick=3600,
          rule="documents with one or two structural edits; non-trivial: the edited document is invalid"),
    Facet("dangling", dangling_cases, check_dangling, None, lambda c: {c["mode"]}, quick=1200,
          rule="documents with one dangling cross reference; all non-trivial"),
    Facet("text", text_cases, check_text, invalid_text, lambda c: {"invalid" if invalid_text(c) else "still_valid"}, quick=2500,
          rule="documents with corrupted text; non-trivial: the text is not a valid document"),
]
ASSUMPTIONS = ["PyYAML decides what is YAML; the pinned coverage.json with jsonschema decides conformance"]
