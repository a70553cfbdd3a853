"""C09 YAML import is faithful and derives type coverage from instances."""
import io
import os
from hypothesis import strategies as st
from ..core import Facet
from .. import gen, spec as S, yamlutil as Y, scratch

CARRIERS = ["loads", "loads", "load_text", "load_bytes", "file"]


def cases():
    return st.fixed_dictionaries(dict(doc=Y.docs(), sty=Y.styles, carrier=st.sampled_from(CARRIERS)))


def load(text, carrier):
    from ucis.yaml.yaml_reader import YamlReader
    if carrier == "loads":
        return YamlReader().loads(text)
    if carrier == "load_text":
        return YamlReader().load(io.StringIO(text))
    if carrier == "load_bytes":
        return YamlReader().load(io.BytesIO(text.encode("utf-8")))
    from ucis.yaml.db_format_if_yaml import DbFormatIfYaml
    with scratch.Dir() as d:
        p = os.path.join(d, "cov.yml")
        with open(p, "wb") as f:
            f.write(text.encode("utf-8"))
        return DbFormatIfYaml().read(p)


def check(c):
    text = Y.render(c["doc"], c["sty"])
    db = load(text, c["carrier"])
    S.require_equal(Y.reference(c["doc"]), Y.observe(db), "database loaded from YAML")
    # the loaded counts behave as numbers: the report follows them
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    from .. import refreport as R
    tree = Y.plain(S.extract(db))
    R.check_report(R.ref_report(tree), CoverageReportBuilder.build(db))


FACETS = [Facet("import", cases, check, nontrivial=lambda c: Y.nontrivial(c["doc"]),
                labels=lambda c: Y.labels(c["doc"]) | {"style=" + c["sty"]["kind"], "carrier=" + c["carrier"]},
                quick=4100, rule="YAML documents in varied presentations; non-trivial: at least two bins")]
ASSUMPTIONS = ["documents have a top-level coverage member", "coverpoint and cross names unique within an instance", "PyYAML is the YAML parser"]
