#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences; "
CHECKS = {
 "C01": "results of every operation against an array model, many interleaved clients and reopenings in one store",
 "C02": "roots against an independent merkleization after every step of every schedule",
 "C03": "results of every packed operation against an array model, widths 1 to 96 bytes",
 "C04": "reachability invariant of the store after every step, with sharing, clones, grafts and drops",
 "C05": "conservation invariant: store contents equal what live roots reach, after every step",
 "C06": "store calls fail at arbitrary points, acknowledgements are lost, disks fill up; retries against the model",
 "C07": "crash between any two store calls, restart from the surviving store, before-or-after oracle",
 "C08": "raw-tree histories with failing calls against a reference tree",
 "C09": "sessions end and restart from durable metadata or root hash, with failing reopenings",
 "C10": "out-of-range and over-capacity operations in every history; no effect on tree, root or store",
 "C11": "recorded sessions with faults, suspension and foreign writers, replayed by verifiers from the proof alone",
 "C12": "lossy, duplicating, reordering, tampering network between prover and verifiers",
 "C13": "values written and read on failing stores against an independent ssz reference",
 "C14": "nodes lost and found again; true value or error, handle unchanged",
 "C15": "several partial views, flushes that fail half way, against the plain value",
 "C18": "values, bounded vectors and compact proofs on byte streams that are torn, damaged, interrupted and retransmitted",
 "C19": "trees with altered nodes, lengths and variants, grafts and losses, decoded, reopened and accessed against an independent reading of the format",
 "C20": "store calls of every attempt counted against the depth, and every single read recorded as a proof, on short and very long sequences, raw trees and views with failing calls",
 "C16": "lock-step runs on five stacks of backends with aligned faults",
}
NOTE = ("Seeded sampling of executions of the real code, not proof: a clean run says no violation was found in the runs reported in the evidence file. "
        "Every run is a pure function of its plan; a violation is minimised and replayed in a fresh process before it is reported. "
        "Trusts the oracle models of sim/src, SHA-256 and the standard library, and that single store calls are atomic.")
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [{"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"bash check.sh {p}", "evidence_file": f"evidence/{p}.json",
             "technique": TECH + t, "level": "exploration", "level_note": NOTE} for p, t in CHECKS.items()],
 "not_applicable": [
  {"property": "C17", "reason": "pure integer arithmetic on indices: no schedule, time, I/O, fault or second party for the property to depend on, so a simulator decides nothing a plain test would not"},
 ],
 "notes": "No hooks in /repo: the store traits are the seam. Replay a reported file with: bash replay.sh FILE",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
