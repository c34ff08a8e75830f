#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
BASE = "Evidence, not proof: seeded search over simulated runs of the real crate, built from /repo's working tree; one seed is one repeatable run. "
MODEL = "Trusts the reference model (sim/src/model.rs) and the specification code names (sim/golden.txt). "
NOTE = {
 "C01": "Every capture lies in its own mapping with unmapped memory directly behind or in front of it; a stray access is a fault, returned slices are range-checked. Unaligned single-byte over-reads inside the placement's page padding on the far side are covered by the opposite placement. Two builds (checked; plain without std).",
 "C02": "Any panic, abort, signal or hang during a library call on captured data. Two builds: overflow checks and debug assertions on with std; off without std.",
 "C03": "Every iterator is stepped past its end in every run, against the number of items its bytes can hold; a per-run processor-time limit catches a call that never returns.",
 "C04": MODEL + "Walks, skips, clones and restarts are compared item by item with the model's framing of the captured bytes.",
 "C05": MODEL + "Captured regions of all sizes with damage, decoys and truncation.",
 "C06": "Metamorphic: the walk over a cut capture against the walk over the full one, both by the real code; also against the model.",
 "C07": "Metamorphic: the walk over a capture with one damaged structure against the undamaged one, both by the real code; also against the model.",
 "C08": MODEL, "C09": MODEL, "C10": MODEL, "C11": MODEL, "C12": MODEL,
 "C13": MODEL + "Also metamorphic: same formatted areas with different surroundings must give the same non-text values.",
 "C14": "Interleavings are decided by the scheduler at every library call and inside formatter, hasher and iterator callbacks; in the variant fine also at every branch, load and store of library code. Each client is repeated alone, in a quarter of the runs in a fork of a process that never called the library, and must observe the same. Suspensions are sequentially consistent; weak-memory reorderings are not simulated.",
 "C15": "Sinks fail at a chosen call or byte, keep failing or recover; compared with the full text.",
 "C16": "The global allocator refuses every request while the library runs; each client's history is compared with the same client run again with memory, in a quarter of the runs in a fresh process. Two builds: with std; without.",
 "C17": MODEL + "Lists are stepped by next, nth, clone, count, last, fold, take in any mixture.",
 "C18": MODEL + "Own bit fields of all widths and the library's, stepped in any mixture.",
 "C19": "Same bytes decoded again at other addresses, after kills and restarts; equality, hash and text compared.",
 "C20": MODEL,
 "C21": MODEL,
}
NA = {
 "N01": "A fixed table from code to text: a pure function of one byte with no fault, schedule or history in it. Enumerating 256 codes against the specification's wording is table testing, not simulation. (Which code a stored byte decodes to, after faults, is covered by C09 to C12.)",
 "N02": "A build-time fact about dependencies and compiler versions; nothing executes. (C16 runs the library without std and without memory.)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    else:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection (seeded search over captures, faults and client schedules)",
                       "level": "exploration", "level_note": BASE + NOTE[i]})
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the public interface (buffers, formatters, hashers, iterators) and the allocator. Replay a reported violation with: bash check.sh replay FILE. Determinism of the simulator: bash determinism.sh. Minimal repairs are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
