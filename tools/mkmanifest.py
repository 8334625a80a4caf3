#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
TECH = {
    "C13": "runtime monitoring: offline comparison of recorded results of several interpreters (hash seeds, locales, orders)",
    "C14": "runtime monitoring: per-diagram results of interleaved and multi-threaded runs compared with isolated runs; forced thread switches",
    "C20": "runtime monitoring: step-budget (progress) and all-pairs box monitor on laid out diagrams",
    "C30": "runtime monitoring: interpreter audit hook (files, processes, sockets) and process-state snapshots around every operation",
    "C31": "runtime monitoring with fault injection: damaged input files, an independent parser decides which are invalid, the import must refuse them",
    "C32": "runtime monitoring: wrapped drawing functions and the artists on an off-screen canvas compared with the diagram",
    "C33": "runtime monitoring: complete normal forms of the object before export and after import compared over chains of conversions",
    "C29": "runtime monitoring with fault injection: directory-tree snapshots around exports under injected write, space and permission faults",
}
checks = []
for ln in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(ln)
    m = importlib.import_module("bpmnmon.props." + p["id"])
    level = getattr(m, "LEVEL", "exploration")
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH.get(p["id"], "runtime monitoring: executions of the real code under generated workloads watched by a reference-model oracle"),
        "level": level,
        "level_note": "Held on every execution observed; nothing is claimed for inputs not generated. " + m.RULE.split(". ")[0].strip()
                      + ". Assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", [])) + ".",
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: monitors attach from outside (sys.monitoring, wrapped calls, snapshots of documented fields). "
                    "Checks import /repo's working tree directly, so there is nothing to build. Known findings: known_findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
