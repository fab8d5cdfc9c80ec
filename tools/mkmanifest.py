#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = {
 "C01": ("reference-model monitor over loaded journals and reports", "Balances, totals and report lines of the real code are compared with an independent exact reference on every load step, in unoptimised and optimised builds."),
 "C02": ("reference-model monitor of elided amounts", "Every elided amount is compared with the exact negated sum from the reference model, for all signs, sizes, positions and costs generated."),
 "C03": ("reference-model monitor of loaded structure", "Transactions, postings, dates, payees and accounts are compared one by one with the generating model, over 1-4 load steps."),
 "C04": ("reference-model monitor of amounts, refusal monitor", "Every written amount is compared exactly; every unreadable number of the catalogue must be refused."),
 "C05": ("online history checker of the account tree", "Pointer identity, names, lookups and tree order are checked against a set model along random histories."),
 "C06": ("online history checker of the commodity pool", "Pointer and index stability and lookups are checked against a map model along random histories and loads."),
 "C07": ("reference-model monitor of costs", "Every written or implied cost is compared with the exact (or 28-digit) reference."),
 "C08": ("reference-model monitor of recorded prices (hooked state)", "The complete price history, read through a guarded hook, is compared with the model's map after every step."),
 "C09": ("offline checker of price lookups against all shortest chains", "All ordered pairs of random price graphs are looked up and compared with an exhaustive search for shortest chains."),
 "C10": ("reference-model monitor of exchanges", "Every field of the breakdown and the price on offer are compared with exact arithmetic."),
 "C11": ("AddressSanitizer, Miri, and link monitors under hostile workloads", "ASan and Miri watch valid, hostile and API workloads; a monitor checks every link against the live objects of the journal. Miri runs without an aliasing model (see DESIGN.md)."),
 "C12": ("reference-model monitor of notes, differential run without comments", "Notes are compared with the model; the journal with and without comments must be the same."),
 "C13": ("differential monitor over deliveries of the same text", "One text is delivered through strings, files, includes and readers in pieces with interruptions; all resulting journals must be identical."),
 "C14": ("differential monitor over interleavings, Miri data-race detection", "Snapshots of the same journal loaded alone, between others, after queries and by concurrent threads must be identical; Miri watches threaded runs for races."),
 "C15": ("differential and reference-model monitor of commands", "run, run_command and the real program are compared with each other and with the reference report; failing commands must fail."),
 "C16": ("exact-arithmetic reference monitor", "All operations are compared with independent exact integer arithmetic."),
 "C17": ("fault injection into readers, refusal monitor", "Readers fail at every offset of small texts and at chosen offsets of large ones; what was complete must be loaded as if alone, nothing else."),
 "C18": ("differential and reference-model monitor of journals assembled through the API", "Journals assembled through the API in random orders, alone and mixed with loads, are compared with the loaded journal and the reference model; every link is followed."),
}
CLAIM = sorted(ALL)
checks = []
for p in CLAIM:
    t, n = ALL[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "runtime monitoring: " + t,
        "level": "fault_enumeration" if p == "C17" else "exploration",
        "level_note": n + " Assumes the reference model and covers the generated inputs, not all.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "cfg(verif_hooks)",
        "enable": "RUSTFLAGS='--cfg verif_hooks' (set by check.py)",
        "source_commits": ["15d4c43", "@PARENT@"],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "See DESIGN.md. known_findings.txt lists the defects found and repaired.",
}
import subprocess
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hooks: "], capture_output=True, text=True).stdout.split()
if h:
    m["hooks"]["source_commits"] = h[::-1]
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
