"""All textual outputs of a database; run as a module it serves another process (stdin: JSON list of specs)."""
import io
import json
import sys


def outputs(db):
    from . import xmlutil as X
    from .checks.c15 import lib_report
    from ucis.report.format_rpt_text import FormatRptText
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    out = dict(xml=X.undated(X.write_text(db)), json=lib_report(db, "json"), txt=lib_report(db, "txt"))
    for order in (False, True):
        b = io.StringIO()
        f = FormatRptText()
        f.details, f.order_bins_by_hit = True, order
        f.report(db, b, [])
        out["txt_details_%s" % order] = b.getvalue()
        b = io.StringIO()
        t = TextCoverageReportFormatter(CoverageReportBuilder.build(db), b)
        t.details, t.order_bins_by_hit = True, order
        t.report()
        out["text2_%s" % order] = b.getvalue()
    return out


def all_outputs(specs):
    from . import spec as S, inputs as I, yamlutil as Y
    from ucis.merge.db_merger import DbMerger
    from ucis.mem.mem_factory import MemFactory
    from ucis.yaml.yaml_reader import YamlReader
    from . import xmlutil as X
    res = []
    dbs = [S.build(s) for s in specs]
    for d in dbs:
        res.append(outputs(d))
        res.append(outputs(X.read_text(X.write_text(d))))
    m = MemFactory.create()
    DbMerger().merge(m, dbs)
    res.append(outputs(m))
    for s in specs:
        y = json.dumps(I.yaml_doc(s))
        res.append(outputs(YamlReader().loads(y)))
    return res


def main():
    out = sys.stdout
    sys.stdout = sys.stderr
    r = all_outputs(json.load(sys.stdin))
    json.dump(r, out)


if __name__ == "__main__":
    main()
