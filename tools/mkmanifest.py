#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
LIB = "deterministic simulation with fault injection: seeded schedules of real threads running the real library under a simulated OS and allocator"
UPD = "deterministic simulation with fault injection: the real generator under a simulated OS (files, pipes, child processes, threads, crashes), seeded schedules and fault plans"
note = {
 "C01": "Seeded search over interleavings at every branch, memory access and allocation of the real library (sequentially consistent), each result compared with an executable model or the same call in a fresh process. Sampled, not exhaustive.",
 "C02": "Answers are values of a free algebra that count their copies, so a skipped, repeated or cached answer shows; closures panic at seeded callbacks and other threads evaluate meanwhile. Sampled.",
 "C03": "Panics injected at seeded callbacks (closure, Logic operation, iterator, sink); everything afterwards on all threads is compared with the model or fresh-process answers, and live answers and memory are counted. Sampled.",
 "C04": "Seeded library calls made from inside callbacks of library calls, up to three levels at random and in chains of up to 90; inner and outer results compared with the model or fresh-process answers. Sampled.",
 "C05": "Seeded pauses, interleavings, hand-overs between threads and cancellations of token streams and predicate listings, over good and damaged texts, compared with uninterrupted streams. Sampled.",
 "C06": "Sinks that fail, panic, or call the library at seeded writes. Sampled.",
 "C07": "Deep and long texts on threads with 256 KiB of stack; executed branches and allocated bytes counted against a linear bound. Sampled sizes up to about 200 KB.",
 "C08": "Allocation failures injected at seeded allocations (the process may abort, a wrong answer is a violation) and long histories with an exact count of the library's live memory. Sampled.",
 "C09": "The same calls under seeded environments, clocks with jumps, randomness, CPU counts, addresses, histories and memory reuse, compared with answers under reference surroundings. Sampled.",
 "C10": "Seeded failures of every compiler query and of the README read, under seeded schedules of the real generator; all files compared before and after. Sampled.",
 "C11": "Seeded compiler worlds, benign and hard faults; the table produced is read back and compared with the world. Sampled.",
 "C12": "The README and table are examined after every file operation of every simulated run, and kills are injected at seeded steps and mid-write. Sampled.",
 "C13": "Kills and faults at seeded points, followed by a fault-free rerun whose files must equal those of an undisturbed run. Sampled.",
 "C14": "The same world and README under seeded schedules, child timings, chunkings and surroundings: the files must be byte-identical. Sampled.",
 "C15": "Seeded child output sizes, chunkings, pipe capacities and timings; deadlocks are detected exactly, progress is bounded in steps, queries and reaped children are counted. Sampled.",
}
NA = {
 "C16": "which texts the grammar accepts is a pure function of the text: no schedule, time, I/O or fault can matter to it, so simulation decides nothing here",
 "C17": "how a predicate is classified is a pure function of the text",
 "C18": "error spans and messages are a pure function of the text (that they do not change under faults and schedules is decided by C01, C06 and C09)",
 "C19": "the contents of the committed table are data, not behaviour (that the generator produces it correctly is decided by C11 and C14)",
 "C20": "matching a predicate against a target description is a pure function",
 "C21": "matching against a target_lexicon::Triple is a pure function",
 "C22": "the Logic implementations for bool and Option<bool> are finite pure functions",
 "C23": "original() and equality are pure functions of the text",
}
claimed = [p["id"] for p in props if p["id"] in note]
if not os.path.isdir(os.path.join(root, "sim/updsim")):
    for k in [c for c in claimed if c >= "C10"]:
        claimed.remove(k); NA[k] = "not built yet"
m = {
 "version": 1,
 "setup_cmd": "./check setup",
 "checks": [{
   "property": k,
   "quick_cmd": f"./check {k}",
   "thorough_cmd": f"./check {k} --thorough",
   "evidence_file": f"evidence/{k}.json",
   "technique": LIB if k < "C10" else UPD,
   "level": "exploration",
   "level_note": note[k],
 } for k in claimed],
 "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] not in claimed],
 "notes": "No hooks in /repo: the compiler's coverage instrumentation (RUSTC_WRAPPER) and link-time interposition of system calls provide the seams. `./check replay FILE` replays a recorded violation. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(claimed), "claimed")
