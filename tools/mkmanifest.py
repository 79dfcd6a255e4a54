#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = open(os.path.join(here, "driver/specs.go")).read()
claimed = set(re.findall(r'^\t"(C\d\d)": \{', specs, re.M))
NA = {
    "C20": "pure functions of their arguments: no concurrency, time, I/O, randomness or second party for a schedule or fault to act on, so a simulated run adds nothing to calling the function; the arithmetic is exercised as part of C01-C03, C12 and C19 but not decided here",
}
NOTE = ("seeded search: the property held in every simulated run made (counts in the evidence file), not a proof over all runs; "
        "the oracle is an independent reference model, and a failure comes with a minimised plan and decision trace that replays exactly. "
        "Trusts the patched Go runtime of the overlay to schedule only possible interleavings, and the reference format code in sim/refcrypt.go.")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "hooks": {
        "guard": "none needed: /repo carries no hooks; all seams are added at build time with go build -overlay",
        "enable": "check.sh builds an overlay (patched runtime/net/os/syscall sources, yield points inserted into copies of /repo's files, harness as an extra package) from /repo's working tree",
        "source_commits": [],
    },
    "checks": [], "not_applicable": [],
    "notes": "known-findings.txt lists defects found: those repaired in /repo by fix: commits and those recorded.",
}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash /verif/check.sh {i} quick",
            "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection, seeded search over schedules and faults",
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
