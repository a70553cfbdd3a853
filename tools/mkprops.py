#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

S = "src/ucis/"
prop("C01", "XML round trip preserves functional coverage",
 "Writing an in-memory database to UCIS XML and reading it back yields the same functional coverage: the same design instances with their design-unit names, covergroups, covergroup instances, coverpoints, crosses with the coverpoints they cross, weights, and bins with the same name, kind, hit count and at-least threshold, all in the same order. A covergroup recorded without instances reads back as a type with one instance of the same name; the type-level bins of a covergroup recorded with instances read back as the per-bin sum over its instances.",
 ["inputs"], "every database with at least one top-level design instance, >=1 coverpoint per covergroup (instance) and >=1 bin per coverpoint, sibling-unique XML-representable names, bins of one name in a coverpoint of different kinds, one at-least threshold and one weight per coverpoint or cross of a covergroup type",
 "The three XML tests write one or two fixed small databases, never read them back or compare bins, kinds, thresholds or weights; the property is over all database shapes, names and counts.",
 [S+"xml/xml_writer.py", S+"xml/xml_reader.py", S+"xml/xml_factory.py", S+"xml/xml_ucis.py"],
 [("element/attribute emission per scope kind", S+"xml/xml_writer.py: write_covergroups .. write_cross_bins"),
  ("type reconstruction from instances", S+"xml/xml_reader.py: readCovergroup, populateCoverpointType, populateCrossType")],
 ["XmlFactory.write / XmlWriter.write followed by XmlFactory.read / XmlReader.read, then scopes()/coverItems() traversal"])
prop("C02", "XML output is always schema-valid, self-consistent and stable",
 "Every XML document written validates against the UCIS schema, lists each source file referenced by a scope exactly once under a unique id, and uses only file ids that are listed. Reading the document and writing it again gives the same instance coverage and test history (apart from write timestamps), and writing the same database twice gives identical documents.",
 ["inputs"], "every database as in C01, with arbitrary source-file information on scopes, any history nodes, and none",
 "Tests validate two hand-written databases; validity must hold for every name, count, weight, history attribute and shape.",
 [S+"xml/xml_writer.py", S+"xml/__init__.py", S+"xml/schema/ucis.xsd"],
 [("ordered emission of schema sequence", S+"xml/xml_writer.py"), ("file id table", S+"xml/xml_writer.py: find_all_files, write_source_files, addId"), ("dummy history node", S+"xml/xml_writer.py: write_history_nodes")],
 ["text produced by XmlWriter.write / XmlFactory.write"])
prop("C03", "Test history survives the XML round trip",
 "Every history node of a database keeps, after writing to XML and reading back, its order, logical and physical name, kind, pass/fail status, simulation and CPU time, time unit, working directory, seed, command, arguments, compulsory flag, date, user, cost, tool category, vendor data, same-test count and comment, and optional fields that were never set stay unset. Selecting history nodes by kind gives the same nodes before and after.",
 ["inputs", "configurations"], "every list of history nodes with any subset of optional attributes set, any test status that is an unambiguous pass (OK) or fail (ERROR, FATAL), finite times and costs, dates 1970-2099, under any local time zone",
 "No test reads a history node back from XML.",
 [S+"xml/xml_writer.py", S+"xml/xml_reader.py", S+"mem/mem_history_node.py", S+"history_node.py", S+"mem/mem_history_node_iterator.py"],
 [("attribute emission", S+"xml/xml_writer.py: write_history_nodes"), ("attribute parsing", S+"xml/xml_reader.py: readHistoryNode")],
 ["db.getHistoryNodes()/historyNodes(kind) of the re-read database"])
prop("C04", "Any schema-valid UCIS XML document is interpreted correctly",
 "Reading any schema-valid UCIS XML document, whoever wrote it, yields exactly the functional coverage it describes: instances, covergroup types taken from the cgId names with their instances, coverpoints, crosses, bins with kind (bins/default, ignore, illegal), counts, weights and at-least options, type bins being the sum over the instances of that type. Namespace prefixes, comments, attribute order, whitespace layout, other metrics (toggle, block, branch, fsm, assertion), user attributes and unused options change nothing, and the document's history nodes keep their names and pass/fail status.",
 ["inputs"], "every schema-valid document in which each bin has one range or sequence, cross expressions name coverpoints of the same covergroup instance, and file ids are declared",
 "Tests read two fixed documents; foreign documents vary freely in structure, ordering, namespaces and optional parts.",
 [S+"xml/xml_reader.py", S+"xml/xml_factory.py", S+"xml/__init__.py"],
 [("tree walk", S+"xml/xml_reader.py"), ("namespace stripping", S+"xml/xml_reader.py: read; "+S+"xml/__init__.py: validate_ucis_xml")],
 ["XmlFactory.read / XmlReader.read / XmlReader.loads"])
prop("C05", "Invalid XML is rejected, never turned into a database",
 "Reading a document that is not well-formed, is truncated, violates the UCIS schema, or whose cross names a coverpoint its covergroup instance does not define raises an exception; no database is returned for it. The validation entry point accepts exactly the schema-valid documents.",
 ["inputs", "fault_sequences"], "every valid document corrupted by deleting, duplicating, renaming or reordering elements, dropping or altering attributes, or truncating or overwriting bytes, as file name, gzip file or file object",
 "No test feeds an invalid document.",
 [S+"xml/xml_factory.py", S+"xml/__init__.py", S+"xml/schema/ucis.xsd"],
 [("schema validation before reading", S+"xml/xml_factory.py: read; "+S+"xml/__init__.py: validate_ucis_xml")],
 ["XmlFactory.read, the registry's xml format, validate_ucis_xml, XmlReader.validate"])
prop("C06", "Merge conserves coverage: union of structure, sum of hits",
 "Merging any list of databases into an empty one produces exactly the union of their instances, covergroups, covergroup instances, coverpoints, crosses and bins, each bin (identified by its full path, kind and name) holding the sum of its counts over all sources. Nothing is lost, invented, double-counted or moved between paths or kinds, and at-least thresholds, weights, design-unit names and cross membership come from the sources.",
 ["inputs"], "every list of 1..n databases that agree, where they overlap, on thresholds, weights and cross membership; overlapping partially, fully or not at all; scopes of equal name within one source included",
 "Nine merge tests use YAML with one or two covergroups and tiny counts, and never use ignore/illegal bins, multiple design instances or partial overlap.",
 [S+"merge/db_merger.py"],
 [("name-keyed grouping per level", S+"merge/db_merger.py: merge, _merge_covergroups, _merge_coverinsts, _merge_coverpoints, _merge_crosses"), ("bin summation", S+"merge/db_merger.py: _merge_coverpoint_bins, _merge_cross")],
 ["DbMerger.merge(dst, [src...]) then traversal of dst"])
prop("C07", "Merge obeys its algebra and leaves its sources untouched",
 "Merging is insensitive to the order and grouping of the sources: any permutation, and any merge of partial merges, gives the same coverage; merging a single database copies it, merging it n times multiplies every count by n, and an empty source changes nothing. The sources are not modified, and later changes to the merged database or to a source are not visible in the other.",
 ["inputs", "histories"], "every list of databases as in C06, every permutation and bracketing, followed by increments on either side",
 "Tests merge once in one order and never look at the sources afterwards.",
 [S+"merge/db_merger.py", S+"mem/mem_scope.py"],
 [("fresh destination scopes and bins", S+"merge/db_merger.py")],
 ["DbMerger.merge on permuted / nested lists; incrementCover afterwards"])
prop("C08", "Report percentages are exactly the weighted at-least coverage",
 "In a coverage report a bin is hit iff its count reaches its at-least threshold; a coverpoint's or cross's percentage is 100*hit/total over its ordinary bins only (0 without bins), a coverpoint's ignore and illegal bins being listed but never counted; a covergroup's percentage is the weight-weighted mean of its coverpoints and crosses, and the overall figure the weight-weighted mean of all type covergroups of all instances (0 when the total weight is 0). The report lists every covergroup, instance, coverpoint, cross and bin once, in database order, with the database's names, counts, thresholds and weights, and its by-name maps agree with its lists.",
 ["inputs"], "every database of top-level design instances with non-negative weights, thresholds and counts, bins made with createBin or createNextCover (threshold 1 unless given), including empty covergroups, zero weights, several design instances and none",
 "Seven tests look at one covergroup with at most two coverpoints, default thresholds and no crosses weights.",
 [S+"report/coverage_report_builder.py", S+"report/coverage_report.py"],
 [("percentage computation", S+"report/coverage_report_builder.py: build_covergroup, build_coverpoint, build_cross, build_covergroups")],
 ["CoverageReportBuilder.build(db)"])
prop("C09", "YAML import is faithful and derives type coverage from instances",
 "Loading a schema-conforming YAML document yields exactly the covergroups (with weight), instances, coverpoints, ordinary/ignore/illegal bins, crosses and cross membership it lists, with its counts and at-least thresholds (default 1). Type-level coverpoints and crosses are the union over the instances with, per bin and kind, the summed counts, and the same thresholds.",
 ["inputs"], "every schema-conforming document with non-negative counts whose crosses name coverpoints of their instance and whose instances agree on kinds, thresholds and cross membership; any YAML presentation (block, flow, JSON, quoted, comments, anchors)",
 "Four YAML tests cover one covergroup each with plain bins.",
 [S+"yaml/yaml_reader.py", S+"yaml/db_format_if_yaml.py", S+"schema/coverage.json"],
 [("type derivation", S+"yaml/yaml_reader.py: process_covergroup"), ("recording", S+"yaml/yaml_reader.py: record_coverpoint, record_cross")],
 ["YamlReader.load / loads, registry format 'yaml'"])
prop("C10", "Invalid YAML is rejected, never turned into a database",
 "A document that is not valid YAML, does not conform to the coverage schema (wrong types, missing required members), or has a cross naming a coverpoint its covergroup instance does not define makes loading raise an exception.",
 ["inputs"], "every schema-conforming document broken by one or more schema-violating edits, dangling cross references, or text corruption",
 "No test feeds an invalid YAML document.",
 [S+"yaml/yaml_reader.py", S+"schema/coverage.json"],
 [("schema validation", S+"yaml/yaml_reader.py: load"), ("cross reference check", S+"yaml/yaml_reader.py: process_covergroup")],
 ["YamlReader.load / loads"])
prop("C11", "Text reports state exactly what the report object holds",
 "A text report contains, in order and with nesting shown by indentation, one line per covergroup type, instance, coverpoint and cross with its name and its percentage (the report format rounds covergroups to two decimals and coverpoints and crosses to whole percents, the report formatter rounds all to its rounding setting), and with details on, every ordinary, ignore and illegal bin once with its count under the right heading. Ordering bins by hit lists exactly the hit bins before the unhit ones and is otherwise stable.",
 ["inputs", "configurations"], "every database as in C08 with printable single-line names, for both text formatters and every combination of details / ordering / rounding options",
 "Tests only print reports; none inspects the text.",
 [S+"report/format_rpt_text.py", S+"report/text_coverage_report_formatter.py"],
 [("line emission", S+"report/format_rpt_text.py; "+S+"report/text_coverage_report_formatter.py")],
 ["FormatRptText().report(db, out, args), TextCoverageReportFormatter(report, out).report()"])
prop("C12", "The JSON report is a faithful transcription of the coverage report",
 "For every database the JSON report is well-formed JSON whose nested covergroups, instances, coverpoints, crosses and bins, with their names, percentages, bin counts, bin goals and overall coverage, are exactly those of the coverage report object, in the same order and under the schema's member names.",
 ["inputs"], "every database as in C08, any names",
 "No test runs the JSON report.",
 [S+"report/format_rpt_json.py", S+"schema/covreport.json"],
 [("object transcription", S+"report/format_rpt_json.py")],
 ["FormatRptJson().report(db, out, args)"])
prop("C13", "The in-memory database reflects exactly the history of API calls",
 "After any sequence of creation, property and increment calls, iterating a scope with any type mask returns exactly the matching children or cover items in creation order with the names, types, source info, weights, goals and counts last given to them; every supported property reads back the value last set; and no call changes any object other than its target. File handles are unique per file name and history nodes are selectable by kind.",
 ["histories"], "every sequence of create (including createNextCover with any cover data), set, increment and iterate calls on a fresh in-memory database, any masks, including iterators open while the database grows",
 "Tests perform one short fixed creation sequence each and check almost nothing back.",
 [S+"mem/mem_scope.py", S+"mem/mem_ucis.py", S+"mem/mem_covergroup.py", S+"mem/mem_cvg_scope.py", S+"mem/mem_coverpoint.py", S+"mem/mem_cross.py", S+"mem/mem_cover_index.py", S+"mem/mem_scope_iterator.py", S+"mem/mem_cover_index_iterator.py", S+"mem/mem_history_node.py", S+"mem/mem_instance_scope.py", S+"coverpoint.py", S+"covergroup.py", S+"cvg_scope.py", S+"scope.py", S+"cover_data.py"],
 [("child and cover-item lists", S+"mem/mem_scope.py"), ("mask filtering", S+"mem/mem_scope_iterator.py, "+S+"mem/mem_cover_index_iterator.py")],
 ["scopes(mask), coverItems(mask), get*/getIntProperty, historyNodes(kind)"])
prop("C14", "The C-style functions do exactly what the object API does",
 "Any sequence of C-style ucis_* calls (scope, instance, toggle, cover item, history node, file handle, test data, integer/string/real/handle property, write, close) has the same effect, result and exception as the corresponding object-API calls on the same kind of database, with a missing object or parent of a scope, instance, toggle or property call meaning the database itself; and the exported UCIS_* constants denote the enumeration members of the same name.",
 ["histories", "inputs"], "every sequence of C-style calls with generated arguments, on in-memory and XML databases",
 "One example creates a database through the C-style API and checks nothing against the object API.",
 [S+"__init__.py"],
 [("delegation", S+"__init__.py: ucis_*")],
 ["ucis_* functions versus object methods on twin databases"])
prop("C15", "Command-line results equal the composition of the library operations",
 "`ucis convert`, `merge` and `report` give the same coverage, in the same order, or the same report text, as reading the inputs, merging and writing or formatting with the library, for every supported input, output and report format, with format defaults of xml and txt, and exit with status 0. Converting to XML changes no coverage and keeps its order, and a report of the converted or merged file has the figures of the database it was made from. Inputs are left unchanged (unless named as the output) and no file other than the named output is created.",
 ["inputs", "configurations"], "every set of valid XML (plain or gzip) and YAML input files, every supported format pair, stdout or file output, short or long options",
 "No test runs a command.",
 [S+"__main__.py", S+"cmd/cmd_convert.py", S+"cmd/cmd_merge.py", S+"cmd/cmd_report.py", S+"rgy/format_rgy.py", S+"xml/xml_ucis.py", S+"xml/db_format_if_xml.py", S+"yaml/db_format_if_yaml.py"],
 [("argument handling and dispatch", S+"__main__.py: get_parser, main"), ("command bodies", S+"cmd/*.py")],
 ["python -m ucis ... : exit status, stdout, output files"])
prop("C16", "The shared-library back end passes every call through unchanged",
 "Every supported operation on a database opened through a UCIS shared library results in the corresponding C call(s) with exactly the caller's names, source locations, weights, types, flags, counts, goals, crossed coverpoints, properties, masks and test data, on the right handles, and iteration returns exactly the handles the library enumerates, in order, modifying none of them and releasing each exhausted iterator once. Source locations, file names and test data read back as the library holds them; failures the library reports when it is loaded, opened, written or closed, when something is created, or when test data is set or read, raise an exception, and the calls after them go on as before.",
 ["histories", "inputs"], "every sequence of supported operations with generated arguments against an instrumented implementation of the C API",
 "No UCIS library is available to the tests, so none of this code runs.",
 [S+"lib/libucis.py", S+"lib/lib_ucis.py", S+"lib/lib_scope.py", S+"lib/lib_obj.py", S+"lib/lib_covergroup.py", S+"lib/lib_coverpoint.py", S+"lib/lib_cross.py", S+"lib/lib_cvg_scope.py", S+"lib/lib_cover_data.py", S+"lib/lib_source_info.py", S+"lib/lib_test_data.py", S+"lib/lib_scope_iterator.py", S+"lib/LibFactory.py"],
 [("ctypes prototypes and structs", S+"lib/libucis.py, lib_cover_data.py, lib_source_info.py, lib_test_data.py"), ("call forwarding", S+"lib/lib_*.py")],
 ["calls received by a recording libucis built for the check"])
prop("C17", "The carrier of an XML document does not affect what is read",
 "A document gives the same database whether it is read from a file name, a gzip-compressed file, an LZ4-compressed file (where the lz4 module is installed; otherwise reading it fails with an error), a text or binary file object, or a string, whatever its declared encoding. Files opened by the library are closed again, also when reading fails, while caller-owned file objects stay open.",
 ["inputs", "configurations"], "every valid document, plain or gzip at any level, with or without XML declaration, UTF-8/UTF-16/Latin-1, with any characters in names, under any locale",
 "Tests read strings and one plain file with ASCII content.",
 [S+"xml/xml_factory.py", S+"xml/xml_reader.py", S+"xml/__init__.py"],
 [("magic-number detection", S+"xml/xml_factory.py: _open_file"), ("seek and re-read", S+"xml/xml_factory.py: read")],
 ["XmlFactory.read(name|file object), XmlReader.read, XmlReader.loads, DbFormatIfXml.read"])
prop("C18", "Reusing a reader, writer, merger or formatter leaks nothing between uses",
 "Using one reader, writer, merger, report builder or formatter object for several databases in a row, in any order and interleaving, gives for each the same result as a fresh object would, also after a use that failed, and databases and reports produced earlier are not changed by later uses.",
 ["histories"], "every sequence of read/write/merge/report operations over several databases sharing names, with object reuse",
 "Every test creates a fresh object per operation.",
 [S+"xml/xml_reader.py", S+"xml/xml_writer.py", S+"merge/db_merger.py", S+"yaml/yaml_reader.py", S+"report/format_rpt_text.py", S+"report/format_rpt_json.py", S+"report/coverage_report_builder.py"],
 [("per-call state reset", "constructors and entry methods of those classes")],
 ["results of reused versus fresh objects"])
prop("C19", "Read-only operations change nothing and are deterministic",
 "Iterating, reporting in any format, writing XML, and merging from a database leave every name, count, threshold, weight, goal, property, history node and child order of it unchanged, formatting a report leaves the report object unchanged, and repeating the operation, in the same or another process and hash seed, gives byte-identical output (apart from write timestamps).",
 ["histories", "inputs", "configurations"], "every database and every sequence of read-only operations on it, any PYTHONHASHSEED",
 "No test compares a database before and after use or repeats an operation.",
 [S+"report/coverage_report_builder.py", S+"report/format_rpt_text.py", S+"report/format_rpt_json.py", S+"xml/xml_writer.py", S+"merge/db_merger.py"],
 [("read-only traversal", "scopes()/coverItems() consumers")],
 ["deep snapshot of the database before/after; repeated outputs"])
prop("C20", "The format registry resolves every registered format and nothing else",
 "The registry and the list commands name exactly the registered database and report formats, sorted, each with its description; a lookup returns the descriptor last registered under that name; unknown names are reported absent; the defaults are registered formats; the registry is one shared instance; the commands use the format last registered under the name they are given; and a report format is handed what its flags ask for, a text stream or an empty output directory, or the command fails.",
 ["histories"], "every sequence of format registrations and lookups",
 "No test touches the registry.",
 [S+"rgy/format_rgy.py", S+"rgy/format_if_db.py", S+"rgy/format_if_rpt.py", S+"cmd/cmd_list_db_formats.py", S+"cmd/cmd_list_report_formats.py"],
 [("descriptor maps", S+"rgy/format_rgy.py")],
 ["FormatRgy.inst() methods, list-db-formats / list-rpt-formats output"])
prop("C21", "A failing command says so and leaves existing output alone",
 "When a command cannot do its job because an input is missing, unreadable or invalid, a format name is unknown or unsupported, or the output cannot be written, it exits with a non-zero status and reports the failure; a pre-existing output file is left byte-identical and no output file is created when the failure is in the inputs or format names.",
 ["fault_sequences", "inputs"], "every command with any one or more faulty inputs among good ones, bad format names, bad output locations",
 "No test runs a command, let alone a failing one.",
 [S+"__main__.py", S+"cmd/cmd_convert.py", S+"cmd/cmd_merge.py", S+"cmd/cmd_report.py"],
 [("exception to exit status", S+"__main__.py: main"), ("inputs read before output opened", S+"cmd/*.py")],
 ["python -m ucis exit status, stderr/stdout, file system"])
prop("C22", "Writing XML is all or nothing",
 "Writing a database as XML, to a file name or a stream, either delivers the complete document or raises an exception. When the database holds something XML cannot represent (control characters, lone surrogates, missing or non-text names, malformed dates) anywhere in it, an existing file of that name keeps its bytes, no new file appears, a caller's stream receives nothing, no file is left open, the database is unchanged, and later writes are unaffected; an output that cannot be opened or written is always reported by an exception.",
 ["fault_sequences", "inputs"], "every database with an unrepresentable value at any place, every kind of failing output, through XmlFactory.write, XmlUCIS.write and ucis_Write",
 "No test writes a database that cannot be written.",
 [S+"xml/xml_factory.py", S+"xml/xml_ucis.py", S+"xml/xml_writer.py"],
 [("document completed before the output is opened", S+"xml/xml_factory.py: write, "+S+"xml/xml_ucis.py: write")],
 ["XmlFactory.write, XmlUCIS.write, ucis_Write; file system and stream contents afterwards"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
