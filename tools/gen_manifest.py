#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
TECH = {
 "C01": "runtime monitor: hostile and mutated inputs, panic and stall detection, full accessor walk of every statement",
 "C02": "runtime monitor: render and re-parse of generated statements, content dumps compared",
 "C03": "runtime monitor: generated definition statements, accessors compared with what the generator wrote",
 "C04": "runtime monitor: generated INSERT/UPDATE, pairing compared with what the generator wrote",
 "C05": "runtime monitor: generated SELECT/DELETE, clauses compared with what the generator wrote",
 "C06": "runtime monitor: grammar-wide inputs, every written part must be in the output or an error reported",
 "C07": "runtime monitor: generated literals through every position, value and round-trip oracle",
 "C08": "runtime monitor: metamorphic relations over statement lists, layout and broken inputs",
 "C09": "race detector and runtime monitor: sequential reference against reused and concurrent parsers",
 "C10": "runtime monitor: bound query against the same query with literals in place, hostile parameters",
 "C11": "runtime monitor: scalar functions and operators against reference arithmetic over all numeric types",
 "C12": "runtime monitor: every route of name resolution, resolved functions identified by behaviour",
 "C13": "runtime monitor: random row histories against a reference aggregation, order and reset included",
 "C14": "runtime monitor: aggregate sets and aggregate result sets against a reference grouping",
 "C15": "runtime monitor: random advance/read histories against a cursor model",
 "C16": "runtime monitor: all views of result rows against source rows, source snapshots compared",
 "C17": "runtime monitor: random alteration histories against a list model, sibling schemas watched",
 "C18": "runtime monitor: typed conversions against exact arithmetic, copies watched for aliasing",
 "C19": "race detector and linearizability checker (porcupine) over recorded registry histories with injected delays",
 "C20": "race detector and runtime monitor: recorded reads against writes, close counting with injected faults",
 "C21": "runtime monitor: metadata queries evaluated on rows, re-parsed and analysed; results read back",
 "C22": "runtime monitor: provoked errors against the published error values, code table against the published list",
 "C23": "runtime monitor: type names and definitions through every route and back",
 "C24": "runtime monitor: lookups and derived views against a plain scan of the list",
 "C25": "runtime monitor: parsed statements rebuilt from their parts with the constructors, content and text compared",
}
NOTE = {
 "C09": "Exploration under the Go race detector: shows the property on the generated texts and the schedules that occurred; data races are detected on the accesses executed, whatever their timing.",
 "C19": "Exploration under the Go race detector: every recorded history is decided by a linearizability checker; schedules are sampled with injected yields, not enumerated.",
 "C20": "Exploration under the Go race detector: schedules are sampled; reads and close counts of every run are decided.",
}
DEFAULT = "Exploration: the property is decided by an oracle on every generated case (seeded, replayable); nothing is claimed for inputs outside the generators described in DESIGN.md. Trusts the oracle and the Go toolchain."
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "exploration", "level_note": NOTE.get(p, DEFAULT)})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks are needed in /repo: everything is observed at the public API. Known findings: known_findings.txt."},
          open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
