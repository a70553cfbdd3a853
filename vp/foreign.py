"""Foreign UCIS XML documents: a spec plus presentation choices, rendered without the code under
test, together with the tree a correct reader must produce."""
import copy
import random
from xml.sax.saxutils import escape
from hypothesis import strategies as st
from . import gen, spec as S
from .core import HarnessError
from . import xmlutil as X

CR = {"\r": "&#13;"}
OPT = gen.Opt(names=gen.xml_names, type_only=False, type_sum=True, dup_ci=True, twins=True, bare_crs=True)

ns_modes = ["none", "prefix", "default", "rootprefix", "mixed", "xsi"]


@st.composite
def case(draw, opt=OPT):
    return dict(db=draw(gen.db_spec(opt)), ns=draw(st.sampled_from(ns_modes)),
                lex=draw(st.one_of(st.just(0), st.integers(1, 10**6))),
                group=draw(st.booleans()), noise=draw(st.integers(0, 2)),
                hist=draw(st.lists(st.tuples(gen.line_names, st.booleans(), st.integers(0, 3)), min_size=1, max_size=3)))


class Doc:
    """Element: [tag, [(k, v)], text or None, children]"""

    def __init__(self, c):
        self.c = c
        self.lex = c["lex"] != 0
        self.r = random.Random(c["lex"])
        self.ents = {} if c["lex"] % 5 == 3 else None       # declared in an internal DTD subset

    # -- lexical variation -------------------------------------------------
    def num(self, n):
        s = str(n)
        if self.lex:
            k = self.r.randrange(8)
            if k == 0:
                s = "+" + s
            elif k == 1:
                s = "0" + s
            elif k == 2:
                s = " %s " % s
        return s

    def sid(self, tag="id"):
        return [tag, [("file", self.num(self.r.choice(self.files))), ("line", self.num(self.r.randrange(1, 900))),
                      ("inlineCount", self.num(self.r.randrange(1, 9)))], None, []]

    def uattr(self):
        return ["userAttr", [("key", "k%d" % self.r.randrange(9)), ("type", self.r.choice(["int", "str", "bits"]))],
                self.r.choice(["5", "x y", "<coverpoint>"]), []]

    def maybe_u(self):
        return [self.uattr() for _ in range(self.r.randrange(3))] if self.lex and self.r.randrange(5) == 0 else []

    def nv(self, tag):
        return [tag, [], None, [["name", [], "N", []], ["value", [], "7", []]]]

    def bin_(self, tag):
        return [tag, [("alias", "z")] if self.r.randrange(2) else [], None,
                [["contents", [("coverageCount", self.num(self.r.randrange(99)))], None,
                  [["historyNodeId", [], "0", []]] if self.r.randrange(3) == 0 else []]] + self.maybe_u()]

    def opts(self, d, kind):
        a = []
        for k, v in d:
            if v != 1 or self.r.randrange(2) or not self.lex:
                a.append((k, self.num(v)))
        if self.lex:
            if self.r.randrange(3) == 0:
                a.append(("goal", self.num(self.r.randrange(101))))
            if self.r.randrange(3) == 0:
                a.append(("comment", self.r.choice(["", "c", "weight=9"])))
            if kind != "cross" and self.r.randrange(3) == 0:
                a.append(("detect_overlap", self.r.choice(["true", "false", "0", "1"])))
                a.append(("auto_bin_max", self.num(self.r.randrange(99))))
            if kind == "inst" and self.r.randrange(3) == 0:
                a.append(("per_instance", self.r.choice(["true", "0"])))
                a.append(("merge_instances", "1"))
                a.append(("at_least", self.num(self.r.randrange(2, 9))))
        return ["options", a, None, []]

    def contents(self, n):
        a = [("coverageCount", self.num(n))]
        if self.lex and self.r.randrange(4) == 0:
            a += [("nameComponent", "q"), ("typeComponent", ":7:")]
        ch = [["historyNodeId", [], str(self.r.randrange(3)), []] for _ in range(self.r.randrange(3))] if self.lex and self.r.randrange(3) == 0 else []
        return ["contents", a, None, ch]

    # -- functional coverage ----------------------------------------------
    def cpbin(self, b):
        ty = {"b": "bins", "g": "ignore", "l": "illegal"}[b[1]]
        if ty == "bins" and self.lex and self.r.randrange(3) == 0:
            ty = "default"
        a = [("name", b[0]), ("key", str(self.r.randrange(9))), ("type", ty)]
        if self.lex and self.r.randrange(4) == 0:
            a.append(("alias", "other"))
        if self.lex and self.r.randrange(3) == 0:
            v = ["sequence", [], None, [self.contents(b[2])] + [["seqValue", [], str(self.r.randrange(-5, 50)), []]
                                                               for _ in range(self.r.randrange(1, 4))]]
        else:
            v = ["range", [("from", str(self.r.randrange(-5, 50))), ("to", str(self.r.randrange(-5, 50)))], None, [self.contents(b[2])]]
        return ["coverpointBin", a, None, [v] + self.maybe_u()]

    def cp(self, c):
        a = [("name", c["n"]), ("key", str(self.r.randrange(9)))]
        if self.lex and self.r.randrange(4) == 0:
            a += [("alias", "al"), ("exprString", "a+b")]
        return ["coverpoint", a, None, [self.opts([("weight", c["w"]), ("at_least", c["al"])], "cp")]
                + [self.cpbin(b) for b in c["bins"]] + self.maybe_u()]

    def crbin(self, b):
        ty = {"b": "default", "g": "ignore", "l": "illegal"}[b[1]]
        a = [("name", b[0]), ("key", str(self.r.randrange(9)))]
        if ty == "default" and self.lex and self.r.randrange(3) == 0:
            ty = self.r.choice(["bins", None])
        if ty:
            a.append(("type", ty))
        ix = [["index", [], str(self.r.randrange(-1, 9)), []] for _ in range(self.r.randrange(1, 4) if self.lex else 1)]
        return ["crossBin", a, None, ix + [self.contents(b[2])] + self.maybe_u()]

    def cr(self, c):
        def pad(n):
            return " \n%s  " % n if self.lex and n == n.strip() and self.r.randrange(3) == 0 else n
        return ["cross", [("name", c["n"]), ("key", "0")], None,
                [self.opts([("weight", c["w"]), ("at_least", c["al"])], "cross")]
                + [["crossExpr", [], pad(n), []] for n in c["cps"]]
                + [self.crbin(b) for b in c["bins"]] + self.maybe_u()]

    def cgi(self, tn, ci):
        a = [("name", ci["n"]), ("key", str(self.r.randrange(9)))]
        if self.lex and self.r.randrange(4) == 0:
            a += [("alias", "al"), ("excluded", "false"), ("excludedReason", "")]
        return ["cgInstance", a, None, [
            self.opts([("weight", ci["w"])], "inst"),
            ["cgId", [("cgName", tn), ("moduleName", self.r.choice(["m", tn, "work.m"]))], None,
             [self.sid("cginstSourceId"), self.sid("cgSourceId")]]]
            + ([self.nv("cgParms")] if self.lex and self.r.randrange(4) == 0 else [])
            + [self.cp(c) for c in ci["cps"]] + [self.cr(c) for c in ci["crs"]] + self.maybe_u()]

    def noise(self):
        r = self.r
        out = []
        if r.randrange(2):
            out.append(["toggleCoverage", [("weight", self.num(3))], None, [
                ["toggleObject", [("name", "coverpoint"), ("key", "0"), ("type", "reg")], None,
                 [["dimension", [("left", "3"), ("right", "0"), ("downto", "true")], None, []], self.sid(),
                  ["toggleBit", [("name", "b"), ("key", "0")], None,
                   [["index", [], "0", []], ["toggle", [("from", "0"), ("to", "1")], None, [self.bin_("bin")]]]]]],
                ["metricMode", [("metricMode", "BIT")], None, []]]])
        if r.randrange(2):
            k = r.randrange(3)
            blk = ["block", [], None, [self.sid("statementId"), self.bin_("blockBin"), self.sid("blockId")]]
            body = [["process", [("processType", "always")], None, [blk]], blk,
                    ["statement", [], None, [self.sid(), self.bin_("bin")]]][k]
            out.append(["blockCoverage", [("metricMode", "STMT")], None, [body]])
        if r.randrange(2):
            out.append(["conditionCoverage", [], None, [
                ["expr", [("name", "e"), ("key", "0"), ("exprString", "a&&b"), ("index", "0"), ("width", "1")], None,
                 [self.sid(), ["subExpr", [], "a", []], self.bin_("bin")]]]])
        if r.randrange(2):
            out.append(["branchCoverage", [], None, [
                ["statement", [("statementType", "if"), ("weight", "2")], None,
                 [self.sid(), ["branch", [], None, [self.sid(), ["nestedBranch", [("statementType", "case")], None, [self.sid()]],
                                                    self.bin_("branchBin")]]]]]])
        if r.randrange(2):
            out.append(["fsmCoverage", [], None, [
                ["fsm", [("name", "f"), ("width", "2")], None,
                 [["state", [("stateName", "S0")], None, [self.bin_("stateBin")]],
                  ["stateTransition", [], None, [["state", [], "S0", []], ["state", [], "S1", []], self.bin_("transitionBin")]]]]]])
        if r.randrange(2):
            out.append(["assertionCoverage", [], None, [
                ["assertion", [("name", "as"), ("assertionKind", "cover")], None, [self.bin_("coverBin"), self.bin_("failBin")]]]])
        return out

    def element(self):
        c = self.c
        spec = copy.deepcopy(c["db"])
        self.files = [self.r.randrange(1, 5)] if not self.lex else sorted(self.r.sample(range(1, 40), 3))
        ch = [["sourceFiles", [("fileName", "f%d.sv" % f), ("id", self.num(f))], None, []] for f in self.files]
        for i, (n, ok, dk) in enumerate(c["hist"]):
            a = [("historyNodeId", str(i)), ("logicalName", n),
                 ("testStatus", (self.r.choice(["true", "1"]) if ok else self.r.choice(["false", "0"])) if self.lex else ("true" if ok else "false")),
                 ("date", ["2021-03-04T05:06:07", "2021-03-04T05:06:07Z", "2021-03-04T05:06:07.125", "2021-03-04T05:06:07+05:30"][dk]),
                 ("toolCategory", "UCIS:Simulator"), ("ucisVersion", "1.0"), ("vendorId", "v"), ("vendorTool", "t"),
                 ("vendorToolVersion", "1")]
            if self.lex and self.r.randrange(2):
                a += [("kind", self.r.choice(["TEST", "test", "1", ""])), ("simtime", self.r.choice(["10", "1.5E3", " 2 "])), ("cost", self.r.choice(["1.5", "+2", ".5"])),
                      ("sameTests", "3"), ("comment", "c"), ("parentId", "0")]
            ch.append(["historyNodes", a, None, self.maybe_u()])
        exp = []
        for inst in spec["insts"]:
            du = inst["du"]
            a = [("name", inst["n"]), ("key", "0")]
            if self.lex and self.r.randrange(4) == 0:
                du = "default"
            else:
                a.append(("moduleName", du))
            if self.lex and self.r.randrange(3) == 0:
                a += [("instanceId", str(self.r.randrange(9))), ("alias", "x"), ("parentInstanceId", "-1")]
            kids = [self.nv("designParameter")] if self.lex and self.r.randrange(4) == 0 else []
            kids.append(self.sid())
            if c["noise"] and self.r.randrange(3) < c["noise"]:
                kids += self.noise()
            cgs = inst["cgs"]
            if c["group"] and cgs:
                # all types in one covergroupCoverage, their instances interleaved
                seqs = [[(g, ci) for ci in g["insts"]] for g in cgs]
                flat = []
                while any(seqs):
                    s = self.r.choice([s for s in seqs if s])
                    flat.append(s.pop(0))
                order = []
                for g, _ in flat:
                    if g not in order:
                        order.append(g)
                for g in cgs:
                    g["w"] = cgs[0]["w"]
                cgs = order
                els = [["covergroupCoverage", [("weight", self.num(cgs[0]["w"]))], None,
                        [self.cgi(g["n"], ci) for g, ci in flat]]]
            else:
                els = [["covergroupCoverage", [] if g["w"] == 1 and self.r.randrange(2) else [("weight", self.num(g["w"]))], None,
                        [self.cgi(g["n"], ci) for ci in g["insts"]] + self.maybe_u()] for g in cgs]
                if self.lex and self.r.randrange(6) == 0:
                    els.append(["covergroupCoverage", [("metricMode", "none")], None, []])
            if c.get("split") and len(els) > 1:
                # the instance's coverage arrives in two elements
                k = self.r.randrange(1, len(els))
                ch.append(["instanceCoverages", a, None, kids + els[:k]])
                kids, els = [self.sid()], els[k:]
            kids += els + self.maybe_u()
            ch.append(["instanceCoverages", a, None, kids])
            exp.append(dict(n=inst["n"], du=du, cgs=cgs))
        root = ["UCIS", [("ucisVersion", "1.0"), ("writtenBy", "me"), ("writtenTime", "2020-01-01T00:00:00")], None, ch]
        return root, dict(insts=exp)

    # -- serialisation -----------------------------------------------------
    def entity(self, v):
        """Sometimes a reference to an entity standing for v, else None."""
        if self.ents is None or self.r.randrange(5) or not v or set(v) & set("<&%\"'\n\t\r"):
            return None
        return "&%s;" % self.ents.setdefault(v, "e%d" % len(self.ents))

    def ser(self, e, depth, root=False):
        tag, at, text, ch = e
        at = list(at)
        ns = self.c["ns"]
        pre = ""
        decl = []
        if ns == "prefix":
            pre = "ucis:"
            if root:
                decl = [("xmlns:ucis", "http://www.w3.org/2001/XMLSchema-instance")]
        elif ns == "default" and root:
            decl = [("xmlns", "UCIS")]
        elif ns == "rootprefix" and root:
            pre = "u:"
            decl = [("xmlns:u", "http://x/y")]
        elif ns == "mixed":
            # some elements qualified (by either of two prefixes, or a default namespace), some not
            pre = self.r.choice(["", "", "u:", "v:"])
            if root:
                decl = [("xmlns:u", "UCIS"), ("xmlns:v", "http://x/y")]
            if pre == "" and self.r.randrange(6) == 0:
                decl.append(("xmlns", self.r.choice(["UCIS", "http://x/z", ""])))
        elif ns == "xsi" and root:
            decl = [("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"), ("xsi:noNamespaceSchemaLocation", "ucis.xsd")]
        if self.lex:
            self.r.shuffle(at)
        out = "<" + pre + tag
        for k, v in decl + at:
            q = "'" if self.lex and self.r.randrange(3) == 0 else '"'
            ents = {"\n": "&#10;", "\t": "&#9;", "\r": "&#13;", q: "&quot;" if q == '"' else "&apos;"}
            sp = " " if not self.lex or self.r.randrange(6) else "\n   "
            ref = None if k.startswith("xmlns") else self.entity(v)
            out += "%s%s=%s%s%s" % (sp, k, q, ref or escape(v, ents), q)
        if text is None and not ch:
            return out + ("/>" if not self.lex or self.r.randrange(2) else "></%s%s>" % (pre, tag))
        out += ">"
        if text is not None:
            ref = self.entity(text)
            if ref:
                out += ref
            elif self.lex and "]]>" not in text and "\r" not in text and self.r.randrange(5) == 0:
                out += "<![CDATA[%s]]>" % text
            elif self.lex and self.r.randrange(6) == 0:
                k = self.r.randrange(len(text) + 1)
                out += escape(text[:k], CR) + self.r.choice(["<!-- x -->", "<?pi data?>", "<!---->"]) + escape(text[k:], CR)
            else:
                out += escape(text, CR)
        if ch:
            for x in ch:
                if not self.lex or self.r.randrange(4):
                    out += "\n" + " " * depth
                if self.lex and self.r.randrange(12) == 0:
                    out += self.r.choice(["<!-- <coverpoint name='x'> -->", "<?pi data?>", "<!--x-->"])
                out += self.ser(x, depth + 1)
            out += "\n"
        return out + "</%s%s>" % (pre, tag)


def render(c):
    """-> (text without XML declaration, expected tree, expected history)"""
    d = Doc(c)
    root, spec = d.element()
    text = d.ser(root, 1, True)
    if d.ents is not None:
        rt = text[1:].split(None, 1)[0].split(">")[0].split("/")[0]
        text = "<!DOCTYPE %s [%s]>\n" % (rt, "".join('<!ENTITY %s "%s">' % (n, v.replace(">", "&gt;")) for v, n in d.ents.items())) + text
    if d.lex and c["lex"] % 7 == 2:
        text = "<!-- <UCIS/> -->\n<?pi x?>\n" + text + "\n<!-- end -->\n"
    exp = S.xml_view(S.tree_of(spec))
    if not X.is_valid(text):
        raise HarnessError("generated document is not schema-valid: " + str(X.xsd().error_log)[:300] + text[:500])
    return text, exp, [[h[0], h[1]] for h in c["hist"]]


def labels(c):
    ls = gen.spec_labels(c["db"])
    ls.add("ns=" + c["ns"])
    ls.add("lex" if c["lex"] else "plain")
    ls.add("noise=%d" % c["noise"])
    if c["lex"] % 5 == 3:
        ls.add("entities")
    if c["group"]:
        ls.add("grouped")
    return ls
