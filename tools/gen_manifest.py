#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from plan import PLAN
NOTES = {
    "text": "generated ids, gtids, stids, seqnos and their text forms, against independent parser and printer; round trips and orderings",
    "value": "generated value types (buffers, keys, flags, xids, exceptions, views, thread utilities) against reference models",
    "options": "generated option strings and operations on provider_options against a reference parser and map",
    "report": "generated histories of reports and progress with injected file faults; every published file is parsed and compared with a reference",
    "tx": "stateful generation of sessions, statements, remote write sets, aborts, faults and thread interleavings on one node, driven through the real client/transaction/server state against a model DBMS, provider and reference history",
    "cluster": "the same with two or three nodes connected by a model group (total order, certification, snapshots, crashes, partitions), final states compared with a sequential reference",
    "iso": "generated interleavings of total order isolation, non blocking operations, rolling schema upgrade, desync and pause with faulty providers, against a reference automaton",
    "srv": "generated event histories of one server state (connects, views, state transfers, disconnects, waiters) with thread interleavings, against a reference automaton",
    "apply": "generated write sets and failures through server_state::on_apply with recording services, against a reference of routing and error voting",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "no check is registered for it yet"})
        continue
    es = []
    for e in PLAN[i]:
        if e[0] not in es:
            es.append(e[0])
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": ("stateful model-based property testing with schedule and fault generation" if set(es) & {"tx", "cluster", "iso", "srv", "apply"} else "property-based testing against a reference model") + " (engines " + ", ".join(es) + ")",
        "level": "exploration",
        "level_note": "; ".join("%s: %s" % (e, NOTES[e]) for e in es) + ". Random search: no violation found within the generated cases; trusts the models and reference oracles described in DESIGN.md.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. check.py builds the library sources of /repo's working tree (debug+ASan+UBSan and NDEBUG variants) into /verif/build."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
