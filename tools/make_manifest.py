#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that has a module in fmon/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "runtime monitoring: independent reference oracle over observed executions"
HIST = "runtime monitoring: offline checker over the recorded solver history"
META = "runtime monitoring: differential monitor over paired executions"
TECH = {
    "C01": REF, "C02": "runtime monitoring: monitors on generated objects and on the global generator state",
    "C03": "runtime monitoring: fault injection at the constructors, monitored for the documented refusal",
    "C04": "runtime monitoring: fault injection at the validators, monitored for the documented refusal",
    "C05": REF, "C06": REF, "C07": META, "C08": REF, "C09": REF, "C10": REF,
    "C11": "runtime monitoring: offline checker over recorded stackings (independent LP certificate)",
    "C12": REF, "C13": REF, "C14": REF, "C15": REF, "C16": META,
    "C17": HIST, "C18": HIST, "C19": HIST,
    "C20": "runtime monitoring: online recording of every linear solve, offline checker over the event log",
    "C21": META, "C22": REF, "C23": HIST, "C24": REF, "C25": REF, "C26": REF,
    "C27": "runtime monitoring: model-based checker over recorded assignment histories",
    "C28": "runtime monitoring: before/after snapshots and mutation probes around every public call",
    "C29": "runtime monitoring: invariant monitors on degenerate pipelines",
    "C30": META, "C32": META,
    "C33": "runtime monitoring: model-based checker over recorded processes, displays and clicks, with injected failures",
    "C34": "runtime monitoring: recorded output streams and warnings, with injected solver faults",
    "C35": "runtime monitoring: write / read-back monitor on exported objects",
    "C36": "runtime monitoring: real programs run with recorders in place of windows, their figures, bodies and files checked against the recorded computation",
    "C37": META,
    "C38": "runtime monitoring with fault injection: interruptions at executed lines of the real code, failing user functions and refused inputs; snapshots of inputs and process-wide settings compared, calls repeated",
    "C39": "runtime monitoring of concurrent executions: threads with injected switches at executed lines of the real code, results compared bit for bit with those of the same calls alone",
    "C40": META,
    "C41": "runtime monitoring: conservation and monotonicity checker over recorded compactions",
    "C42": META, "C43": META, "C44": META,
    "C31": "runtime monitoring: monitors on recorded draw calls and linear solves",
}
LEVEL = ("Exploration: the property is judged on every execution of a seeded, diversified workload of the real code (counts and bounds in "
         "the evidence file); inputs outside the families generated are not covered. Trusts numpy, scipy, pandas%s and the oracle in fmon/checks/%s.py. ")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
import sys
sys.path.insert(0, V)
import ast
for p in props:
    i = p["id"]
    f = os.path.join(V, "fmon/checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    assume = []
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == "ASSUMPTIONS":
            assume = ast.literal_eval(node.value)
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "technique": TECH[i], "level": "exploration",
        "level_note": LEVEL % (", VTK" if i in ("C24", "C25", "C26", "C35", "C36", "C37", "C38", "C39", "C43") else "", i.lower()) +
        ("Assumes: " + "; ".join(assume) + "." if assume else ""),
    })
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every observation point is a public call or a callback argument."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
