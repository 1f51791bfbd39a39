#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = json.load(open(os.path.join(V, "tools", "runs.json")))
T = "seeded deterministic simulation of the real code with fault injection; "
tech = {
 "C01": T + "kill and power loss at sampled system calls, torn crash images, old-or-new history oracle",
 "C02": T + "power loss after and between successful runs, un-synced writes dropped, durable-history oracle",
 "C03": T + "failing and short system calls, allocations and regex calls, differential oracle against the undisturbed run",
 "C04": T + "restore into disturbed file systems, reference model of the backed-up tree",
 "C05": T + "random histories with interruptions, recorded past compared after every step",
 "C06": T + "random histories and policy changes, refinement against a reference model",
 "C07": T + "random configurations, trees and enumeration orders, independent selection model",
 "C08": T + "garbage, interruptions and failures of gc, reference-set oracle",
 "C09": T + "injected storage damage, exact set of damaged paths as oracle",
 "C10": T + "injected metadata corruption executed under AddressSanitizer",
 "C11": T + "seeded schedules of 2-4 processes, kills, mutual exclusion and serialisability checks",
 "C12": T + "source mutations between system calls, recorded moments of every path as oracle",
 "C13": T + "recorded mutations of every run confined to allowed paths, failures, read-only repositories",
 "C14": T + "repetition in changed environments, byte-identity oracle",
 "C15": T + "masked hashes forcing collisions, one-object-per-content oracle",
 "C16": T + "interrupted and failed restores repeated, undisturbed restore as oracle",
 "C17": T + "printed changes parsed and compared with the reference model's and the actual difference",
 "C18": T + "same plan in two environments with clock jumps, differential oracle",
 "C19": T + "sequences of interruptions followed by an undisturbed run, bounded progress and cleanliness",
 "C22": T + "damaged and replaced configurations, independent parser with line numbers as oracle, nothing-touched comparison",
 "C23": T + "random configurations, trees and histories, expected warnings from the reference model",
 "C24": T + "limits on open files, memory and disk space as faults, differential oracle against the unlimited run",
 "C25": T + "random command lines in random directories, differential oracle against the plain form of the request",
 "C20": T + "interrupted repository synchronisation, restores and integrity of the copy as oracle",
}
NA = {
 "C21": "Pure functions of one number: no schedule, time, I/O, randomness or fault can influence them, so a simulator adds nothing to plain testing or proof.",
}
checks = []
for p in sorted(runs):
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p, "technique": tech[p], "level": "exploration",
        "level_note": "Seeded search: the property held on every simulated run of this seed; each run executes the unmodified program code on a simulated kernel. It trusts the simulated file system, durability and lock semantics, the reference model and the harness; it is no proof for the runs not drawn."})
pend = [p for p in tech if p not in runs]
m = {"version": 1, "setup_cmd": "python3 tools/build.py plain asan", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()] + [{"property": p, "reason": "Check not built yet."} for p in pend],
     "notes": "No hooks in /repo: every libc symbol of the compiled code is redirected to the simulator with objcopy. A violation's replay file is executed with: <build/plain|asan>/nbsim.* replay FILE (python3 tools/build.py prints the path)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
