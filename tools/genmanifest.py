#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the checks present."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "seeded schedule search, refinement of the one-thread run",
    "C02": "seeded schedule search, refinement of the one-thread run",
    "C03": "seeded schedule search, refinement of the one-thread run",
    "C04": "seeded schedule search, bitwise refinement of the one-thread run",
    "C05": "seeded schedule search, conservation identities between independent tallies",
    "C06": "seeded schedule search, conservation (cell balance) oracle",
    "C07": "seeded schedule search, executable model of the iteration protocol over the recorded history",
    "C08": "seeded output-fault injection, comparison with the healthy disk",
    "C09": "seeded input-fault injection, comparison with the undisturbed run",
    "C10": "seeded allocation-failure injection, comparison with the undisturbed run",
    "C11": "seeded signal injection, history-prefix oracle",
    "C12": "seeded crash and write-fault injection, durability and exactly-once model",
    "C13": "seeded log-fault injection, screen/log refinement",
    "C14": "seeded clock perturbation (frozen, jumping), refinement and report consistency",
    "C15": "seeded scheduling with stalled threads, team-size and bounded-liveness oracle",
    "C16": "seeded multi-run histories with crashes on one simulated disk, refinement of a clean run",
    "C24": "seeded schedule search, conservation and superposition oracle",
    "C25": "seeded perturbation of memory content, memory layout and environment, bitwise refinement",
    "C26": "seeded schedule and iteration-strategy search, agreement of converged solutions",
    "C23": "seeded schedule search, agreement of accelerated and plain solves",
}
NA = {
    "C17": "A pure function of the input (ray tracing is sequential set-up): no schedule, clock, I/O or fault to search over; simulation would only be example-based testing.",
    "C18": "A pure function of the input with no concurrency, time or I/O to depend on.",
    "C19": "A pure arithmetic identity of sequential code; no schedule, time or I/O dependence for simulation to search over.",
    "C20": "Pure geometry on a single point and direction; no schedule, time or I/O dependence.",
    "C21": "A property of the input language alone: no schedule or fault is involved; deciding it needs grammar-based input search, not simulation.",
    "C22": "An algebraic identity of a pure function; no schedule, time or I/O dependence.",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
        continue
    if not os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    lvl = "exploration"
    cmd = "/usr/local/bin/python3-vt /verif/check.py " + pid
    checks.append(dict(
        property=pid, quick_cmd="VERIF_TIER=quick " + cmd,
        thorough_cmd="VERIF_TIER=thorough " + cmd,
        evidence_file="/verif/evidence/%s.json" % pid,
        technique="deterministic simulation: " + TECH[pid], level=lvl,
        level_note="sampled by seed, not exhaustive; sequentially consistent "
                   "interleavings; small problems; library code not preempted"))
man = dict(
    version=1, setup_cmd="/usr/local/bin/python3-vt /verif/lib/build.py",
    hooks=dict(guard="none", enable="no hooks: every seam is at link level",
               source_commits=[]),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. Checks compile /repo's working tree into /verif/build "
          "(content-addressed) and run it inside the simulator in /verif/sim.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
