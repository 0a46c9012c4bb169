#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import check
XSD = ("TLA+ semantics of schema conversion (Xsd.tla); TLC writes schemas (exhaustive small scope + simulated authoring); "
       "each is converted by the real code and TLC judges the projected code against the specification")
TECH = {
    "P07": "TLA+ (XsdInert.tla): TLC decides that pairs of documents differ only in inert content; the real code must give the same tokens",
    "P08": "TLA+ state machine of parse/generate sessions (Session.tla): TLC enumerates and simulates histories, replayed on the real code; recorded traces checked by TLC (SessionTrace.tla)",
    "P09": "TLA+ (RoundTrip.tla): TLC writes schemas with instance documents; compiled generated code reads and writes them; TLC judges the logs",
    "P10": "TLA+ (Facets.tla): TLC enumerates facet sets and values; the compiled generated validate() is called on them; TLC judges the verdicts",
    "P16": "TLA+ semantics of WSDL conversion (Wsdl.tla); TLC writes WSDL files, the real generators convert them, TLC judges the functions and types",
    "P17": "TLA+ state machine of a directory tree and runs of the tools (Cli.tla): behaviours replayed with the real binaries; recorded trees judged by TLC",
    "P21": "TLA+ (XsdNotes.tla): which words belong in front of which definition; TLC documents schemas (XsdAnnotate), the real code converts them, TLC judges the comments",
    "P22": "TLA+ state machine of the builder (XsdCustom.tla): TLC simulates sequences of calls over schemas, replayed on the real builder; TLC judges the generated code",
    "P23": "TLA+ model of WSDL documents (WsdlModel.tla): TLC enumerates small definitions and simulates authoring of larger ones; TLC judges what the real library tells of them",
    "P24": "TLA+ order of values (Order.tla, over the lexical semantics of Lexical.tla): TLC enumerates pairs of texts and checks the order's laws; the real types compare them; TLC judges the answers",
    "P20": "TLA+ state machine of an XML reader (Xml.tla): TLC enumerates faults in schemas; the real parse() verdicts are judged against the reader's",
}
for p in ("P11", "P12", "P13", "P14"):
    TECH[p] = "TLA+ lexical semantics (Lexical.tla): TLC enumerates texts and values of each type; the real types parse, print and convert them; TLC judges against the specification"
NOTE = ("Bounded: every input in the scopes written in the specification (and simulated larger ones, by seed) is run through the real code and judged by TLC. "
        "Trusts TLC, the projection of the generated code in harness/ (syn) and the rendering of abstract documents in bin/.")
WHY = json.load(open(os.path.join(ROOT, "bin", "not_applicable.json"))) if os.path.exists(os.path.join(ROOT, "bin", "not_applicable.json")) else {}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "python3 bin/check.py %s --thorough" % p,
                 "technique": TECH.get(p, XSD), "level": "model_checking", "level_note": NOTE} for p in props if p in check.CHECKS],
     "not_applicable": [{"property": p, "reason": WHY.get(p, "check not built yet")} for p in props if p not in check.CHECKS],
     "notes": "No hooks: the checks use the public interface of the crates only. Known findings: known_findings.txt. Design: DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
