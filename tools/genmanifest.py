#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/genmanifest.py)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
built = {p["id"] for p in props if os.path.exists(f"{root}/harness/checks/{p['id'].lower()}.go")}
RACE = {"C07", "C11"}
TECH = {
 "C01": "online monitor: responses against a reference interpreter of the Go data",
 "C02": "hostile workloads under a crash, hang and memory monitor, with probes of well-formed requests",
 "C03": "online monitor: strict JSON checker over every response, errors against returned errors",
 "C04": "monitored resolvers: recorded arguments against the values the generator chose",
 "C05": "monitored resolvers: variables against the literals they stand for",
 "C06": "monitored resolvers under injected misfit values and boundary controls",
 "C07": "Go race detector with unsafe pointer checks; retained values re-examined after later requests",
 "C08": "differential monitor: history on one schema against fresh schemas",
 "C09": "differential monitor cache on/off, memory and time monitors",
 "C10": "differential monitor: family of copies against the original",
 "C11": "Go race detector; outcome monitor over concurrent histories with measured overlap",
 "C12": "online monitor: reference interpreter and metamorphic document rewritings",
 "C13": "online monitor: reference interpreter and metamorphic document rewritings",
 "C14": "monitored resolvers: recorded calls against the requested operation",
 "C15": "trace checker: order, number and overlap of recorded resolver calls",
 "C16": "fault injection in resolvers and documents; errors, paths and data against the reference interpreter",
 "C17": "boundary sweep of limits and depths under a response monitor",
 "C18": "value sweeps decoded by independent readers",
 "C19": "differential monitor: HTTP entry point against direct resolving",
 "C20": "model conformance monitor of introspection, round trip of generated queries",
 "C21": "trace checker over tracing records against the reference interpreter and measured times",
 "C22": "round-trip monitor: decoded parser output against the generated document",
 "C23": "monitored resolvers under injected syntax faults",
 "C24": "exposure monitor: name probes against the reference model of the Go types",
 "C25": "fault injection in schema definitions under a panic and error monitor",
 "C26": "monitored resolvers: context, values and path seen against those supplied",
 "C27": "round-trip monitor of random enum registrations",
 "C28": "online monitor: reference interpreter over random interface values",
 "C29": "monitored file lookups and resolvers against the uploaded files",
 "C30": "differential monitor: helper verdicts against a model of the schema",
 "C31": "differential monitor: helper verdicts against independent predicates",
 "C32": "differential monitor: schemas with and without introspection types on the same requests, and the reference interpreter",
 "C33": "trace monitor: histories of renames, parses and requests against a model of the name table",
 "C34": "differential monitor: diffs applied by an independent patcher and reports read back",
 "C35": "resource monitor: live heap and goroutines over windows of doubling length of never repeating requests",
 "C36": "differential monitor: the reference interpreter over changing data, and deep snapshots around every request",
 "C37": "differential monitor: appended bytes read back by independent readers",
 "C38": "resource monitor: CPU time of requests at four lengths",
 "C39": "trace monitor: histories of definitions, one process each, against a model of every schema",
 "C40": "differential monitor: requests served inside of resolvers of other requests against the same served alone",
}
NOTE = "Held on every execution of this run (randomised workloads from VERIF_SEED, counts in the evidence file); says nothing about inputs and schedules that were not run. Trusts the harness (reference interpreter, JSON reader, generators), Go's reflect package and runtime%s, and the limits of the claim written in DESIGN.md."
checks = []
for p in props:
    i = p["id"]
    if i not in built: continue
    checks.append({"property": i, "quick_cmd": f"bash bin/check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash bin/check.sh {i}",
        "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
        "level_note": NOTE % (" and race detector" if i in RACE else "")})
na = [{"property": p["id"], "reason": "its check is not built yet"} for p in props if p["id"] not in built]
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks: the checks use the public API only, of the packages as they are in /repo's working tree (replace directive in harness/go.mod)."},
  open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
