#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the model checker has."""
import json, subprocess
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
have = {l.split("\t")[0] for l in
        subprocess.run(["/verif/target/debug/mc", "list"], capture_output=True, text=True).stdout.split("\n") if l}
LOCK = ("Every execution drives the real filter code, compiled natively against a scripted stand-in for the proxy-wasm "
        "host, in lockstep with an explicit-state reference model; all event orders, replies and faults within the "
        "bounds are enumerated, none is sampled. Trusted: the host stand-in, the reference model, the bounds.")
ENUM = ("Every element of a bounded input/configuration/history space is run through the real filter code, compiled "
        "natively against a scripted stand-in for the proxy-wasm host, and compared with an independent reference "
        "function. Trusted: the host stand-in, the reference function, the bounds.")
ENUMERATED = {"C11", "C12", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": ("bounded exhaustive enumeration of inputs and histories on the real code against a reference model"
                          if i in ENUMERATED else
                          "stateless exhaustive exploration of the real code's event orders, in lockstep with a reference model"),
            "level": "model_checking",
            "level_note": ENUM if i in ENUMERATED else LOCK,
        })
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo: the filter is built natively with the proxy-wasm crate replaced by pwstub. See DESIGN.md.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
