#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
NOTES = {
 "C01": "Seeded search over histories of up to 4 clients with growth, failing growth, relocation, panics and restarts; bounds, address, guard-cell and proof oracles after each operation, in debug, release and no_std builds; plus bent clients (programs that must not be admitted), simulated if they are.",
 "C02": "Seeded search over growth histories with allocation failure and panics; model contents and an exactly-once drop ledger.",
 "C03": "Seeded search over vetting and cursor histories with offsets up to usize::MAX against an integer model of the current length.",
 "C04": "Seeded search over schedules of workers splitting, stealing, crashing and rejoining; disjoint-cover invariant after every step.",
 "C05": "Seeded search over interleaved client histories compared after each operation with a plain vector.",
 "C06": "Seeded search over scans whose predicate is answered, interrupted or made to panic by the simulator; decided by the logged answers.",
 "C07": "Seeded search over sorts under panicking, lying, stuck and incomparable comparisons; conservation, guard and drop oracles.",
 "C08": "Seeded search over faulty phases followed by a fault-free one that must finish within a comparison bound, sorted and stable; includes an adaptive worst-case adversary.",
 "C09": "Seeded search over merges under panicking and contradictory comparisons; conservation over data and buffer, interleaving and stability oracles.",
 "C10": "Seeded search over searches judged by the answers they were given, with logarithmic bound; zero-sized elements with pointer ranges are listed known findings.",
 "C11": "Seeded search over interleaved twin operations and faulty lock-step sorts; plus bent clients (programs that must not be admitted), simulated if they are.",
 "C12": "Seeded search over interleavings of real threads released one at a time at comparisons, callbacks and operations and, in the traced build, between any two memory accesses of the library, with panics and stalls, against the same programs run alone; plus bent clients (programs that must not be admitted), simulated if they are.",
 "C13": "Seeded search over interleaved pointer-particle histories against the index model; zero-sized elements with pointer ranges are listed known findings; plus bent clients (programs that must not be admitted), simulated if they are.",
 "C14": "Seeded search over pairwise traversals with a crash at the k-th pair; zero-sized pointer ranges are listed known findings.",
 "C17": "Seeded search over histories of clients sharing hash maps, ordered maps, queues and sorted lists keyed by particles, with colliding and panicking hashers and growth, against the same collections keyed by plain positions.",
}
TECH = "deterministic simulation with fault injection (seeded schedule and fault search against a reference model)"
NA = {
 "C15": "A statement about which programs compile. No execution, schedule or fault bears on it, so simulation has nothing to vary; the type checker decides it.",
 "C16": "A statement about which programs compile. No execution, schedule or fault bears on it, so simulation has nothing to vary; the type checker decides it.",
}
m = dict(
    version=1,
    setup_cmd="./check.sh setup",
    checks=[dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
                 evidence_file="evidence/%s.json" % p, technique=TECH, level="exploration",
                 level_note=n + " Sampling: assurance is for the schedules and fault sequences drawn from the seed; trusts the simulator's model, rustc, std and the user-side contract of the unsafe storage traits.")
            for p, n in NOTES.items()],
    not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
    notes="No hooks in /repo: all seams are existing generics, traits and closures. Replay a violation with ./check.sh replay <file>. Known findings and repairs: known_findings.txt.",
)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
