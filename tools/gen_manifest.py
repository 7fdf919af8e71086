#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    props[p["id"]] = p
implemented = re.findall(r'"(C\d+)" c', open(os.path.join(here, "harness/src/checks/mod.rs")).read())
tech = {
 "C01": "runtime monitoring: delivered sets vs independent reference matcher",
 "C02": "runtime monitoring: copy counts and byte equality of recorded deliveries",
 "C03": "runtime monitoring: QoS and in-flight identifier monitor over delivery traces",
 "C04": "runtime monitoring: per-publisher sequence checker over concurrent traces, injected preemption",
 "C05": "runtime monitoring: sequential subscription model vs probes",
 "C06": "runtime monitoring: request/answer automaton over pipelined traces",
 "C07": "runtime monitoring: interval history checker over concurrent churn, injected preemption",
 "C08": "runtime monitoring: QoS 2 handshake model vs delivery trace",
 "C09": "runtime monitoring: transcript equality under controlled TCP segmentation",
 "C10": "runtime monitoring: strict stream decoder on raw bytes under slow and tiny reads",
 "C11": "runtime monitoring: violation catalogue and mutants judged by a strict decoder",
 "C12": "runtime monitoring: extreme legal packets, connection-survival monitor",
 "C13": "runtime monitoring: byte fuzzing of the running broker, panic/exit monitor, canary clients",
 "C14": "runtime monitoring: CONNECT automaton over first packets",
 "C15": "runtime monitoring: takeover race histories, old-closed/new-works monitor",
 "C16": "runtime monitoring: session model vs connect/end histories",
 "C17": "runtime monitoring: interval oracle on an accelerated clock",
 "C18": "runtime monitoring: /proc descriptor, memory and CPU monitor over churn",
 "C19": "runtime monitoring: healthy round trips beside stalled readers, backlog checker",
 "C20": "runtime monitoring: SIGINT fault injection, exit-status monitor",
 "C21": "runtime monitoring: descriptor exhaustion and accept fault injection",
 "C23": "runtime monitoring: request and delivery progress under sustained floods",
 "C24": "runtime monitoring: process memory, address space and CPU meters against linear bounds",
 "C25": "runtime monitoring: start-up fault injection, bind and exit-status monitor",
 "C26": "runtime monitoring: sequential model of one connection's program vs answers and observed messages",
 "C22": "sanitizers: Miri, ThreadSanitizer and AddressSanitizer on the whole broker",
}
note = "Held on the executions of the run (counts in the evidence file); says nothing about inputs and schedules it did not drive. Trusts the harness's own codec and model, and the shim."
checks, na = [], []
for i, p in props.items():
    if i in implemented:
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "technique": tech[i],
            "level": "exploration",
            "level_note": note,
        })
    elif i >= "C30":
        na.append({"property": i, "reason": "The tree does not implement this feature: there is no behaviour to monitor (see DESIGN.md)."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
 "version": 1,
 "setup_cmd": "./run.sh --setup",
 "hooks": {
  "guard": "cfg(miri)",
  "enable": "set by Miri itself (cargo +nightly miri run); no other build has the hook",
  "source_commits": ["3b98a7d"],
 },
 "checks": checks,
 "not_applicable": na,
 "notes": "Repairs of genuine defects are listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
