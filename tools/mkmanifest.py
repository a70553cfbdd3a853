#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("generated databases, inverse oracle (read after write) against a reference model", "generated database shapes; XML representability limits are in the quantifier"),
 "C02": ("generated databases, independent XSD validation and metamorphic re-write relations", "trusts lxml and the pinned copy of the schema"),
 "C03": ("generated test histories x time zones, inverse oracle", "statuses limited to unambiguous pass/fail"),
 "C04": ("grammar-generated foreign XML documents against a model interpretation", "one range or sequence per bin"),
 "C05": ("structure- and byte-level corruption fuzzing with an independent validity oracle", "trusts lxml and the pinned schema for the verdict"),
 "C06": ("generated overlapping database lists against a reference merge", "sources agree on thresholds, weights and membership where they overlap"),
 "C07": ("metamorphic relations of merge (permutation, bracketing, multiplicity) plus aliasing probes", "coverage equality is order-insensitive"),
 "C08": ("generated databases against a reference percentage computation in exact fractions", "percentages compared to 1e-9 relative"),
 "C09": ("generated YAML documents in many presentations against a model interpretation", "trusts PyYAML for presentation"),
 "C10": ("schema-violating edits, dangling references and text corruption with an independent validity oracle", "verdict from the pinned schema via python-jsonschema"),
 "C11": ("generated databases x options against a reference renderer", "single-line printable names"),
 "C12": ("generated databases against a reference transcription, JSON re-parsed", "schema member names from the pinned report schema"),
 "C13": ("stateful model-based testing of call histories", "supported calls only"),
 "C14": ("differential testing of twin databases driven by C-style and object calls; recording stubs for forwarding", "in-memory and XML back ends"),
 "C15": ("generated files and command lines, differential against library composition and the reference model", "commands run in forked interpreters and as subprocesses"),
 "C16": ("stateful model-based testing against a recording C library", "the mock transcribes the UCIS C prototypes"),
 "C17": ("differential testing over carriers, encodings, locales, with descriptor accounting", "CPython's /proc/self/fd view"),
 "C18": ("stateful differential testing of reused against fresh objects", "objects with a documented reusable interface"),
 "C19": ("deep before/after snapshots over operation sequences; byte comparison across processes and hash seeds", "write timestamps and default dates are masked"),
 "C20": ("stateful model-based testing of the registry", "fresh registry per case in a forked child"),
 "C21": ("fault injection on command inputs, formats and outputs with a file-system oracle", "faults are placed in scratch directories; permission faults are excluded under root"),
 "C22": ("fault injection on database contents and outputs, file-system and stream oracle", "a device failing part way is only required to be reported"),
}
m = dict(version=1, setup_cmd="./run.py --selftest", checks=[], not_applicable=[],
         notes="All checks are generated-input searches; ./run.py <id> --replay <file> replays a failure.")
for k, (t, note) in sorted(T.items()):
    m["checks"].append(dict(property=k, quick_cmd="./run.py " + k, thorough_cmd="./run.py %s --tier thorough" % k,
        evidence_file="evidence/%s.json" % k, technique="property-based testing: " + t, level="exploration",
        level_note="Held on every generated case of the run, nothing more; " + note + "."))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
