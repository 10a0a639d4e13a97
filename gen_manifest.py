#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "F01": "stateful property-based testing against a reference multimap",
    "F02": "stateful property-based testing against a space model, exact-size buffers under AddressSanitizer",
    "F03": "property-based testing against set-definition oracles",
    "F04": "round-trip property and fault injection on generated streams",
    "F05": "round-trip property, structure-aware text fuzzing",
    "F06": "differential property-based testing against C conversions",
    "F07": "metamorphic property: equal contents by different histories",
    "F09": "property-based testing of generated tables against a model of the table",
    "E01": "differential testing against a reference evaluator on generated expressions",
    "E02": "round-trip and metamorphic property on generated expressions",
    "E03": "grammar-aware fuzzing under AddressSanitizer with an acceptance oracle",
    "M01": "stateful property-based testing against a model of the allocated buffers, under AddressSanitizer",
    "M02": "round-trip property over generated typed buffers, mutation fuzzing of the imported form, under AddressSanitizer",
    "I01": "stateful property-based testing of generated message histories against a queue model",
    "B01": "stateful property-based testing against a model registry, with concurrent processes",
    "C01": "grammar-based generation of configurations, differential against the generating model and round trip",
    "C02": "mutation fuzzing of valid configurations with an acceptance oracle, over an invariant of the stored configuration",
    "X01": "round-trip property of generated requests and replies through a running domain",
    "X02": "stateful property-based testing of asynchronous call histories against a model of outstanding descriptors",
    "X03": "model-based testing of generated call and forward plans in a running domain",
    "X04": "stateful property-based testing of advertisement histories in several servers against a service table model",
    "X05": "stateful property-based testing of valid and invalid calls against a model of the error state",
    "X06": "generated configurations booted and stopped, invariant over processes and IPC objects",
    "X07": "stateful property-based testing of time limits against a model, with measured delays",
    "X08": "stateful property-based testing of generated domains whose hooks succeed, fail or die, against a model of who serves what, with an invariant over the recorded history",
    "T01": "model-based testing of generated call sequences against the TX state machine with a recording resource manager",
    "T02": "round-trip property and stateful model-based testing of the transaction table with concurrent processes",
    "T03": "model-based testing of generated distributed transactions with recording and failing resource managers, invariant over the recorded history",
    "A01": "model-based testing of generated domains and advertisement histories, administrative answers compared with the model",
    "U01": "property-based testing of generated log calls from processes and threads, invariant over the log file",
    "V01": "grammar-based generation of view files, oracle: the generated header is compiled against the model of the view",
    "G01": "property-based testing of generated builds, the built programs are run in a domain and compared with the model of their options",
    "D01": "differential property-based testing: the request received by a recording service against the generated input",
}
DEF = "property-based testing of generated histories against a reference model"
NOTES = {}
NOTE = "Generated-input search with an explicit oracle; absence of violations is shown for the explored cases only."
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
done = lambda i: os.path.exists("%s/harness/%s.cpp" % (V, i)) and i not in HOLD
HOLD = set()
checks, na = [], []
try:
    exec(open(V + "/manifest_notes.py").read())
except FileNotFoundError:
    pass
for p in props:
    i = p["id"]
    if done(i):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, DEF), "level": "exploration", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
