#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IMG = "seeded simulation of the extractor's worker threads (every memory access a preemption point), delivered team sizes, nested teams and memory contents; oracle: "
CLAIMED = {
 "C01": IMG + "independent union-find component tree",
 "C02": IMG + "independent union-find component tree",
 "C03": IMG + "the image itself (each region checked for connectedness, maximality, size, box, nesting)",
 "C04": IMG + "independent union-find component tree, over histories of extractions, cache clears and setting changes on one object",
 "C05": IMG + "independent union-find component tree, several application threads",
 "C06": IMG + "reference model of the pool of results, every free and access checked",
 "C07": IMG + "live-memory accounting over repeated rounds",
 "C22": IMG + "independent 8-connected component tree",
 "C08": "seeded simulation of logging threads racing flag and filter changes, console write faults; every record delivered once, whole, in each thread's order",
 "C09": "seeded simulation of logging threads over a simulated disk (open, write, close and removal faults, full disk, process crashes); file contents compared with what was acknowledged, at every removal and truncation and after the crash",
 "C11": "seeded simulation of file buffers over a simulated disk (open, read, write, seek, close faults, full disk, files cut or grown meanwhile); byte-array reference model",
 "C17": "seeded simulation of saving and loading JSON documents over a simulated disk (write and read faults, full disk, files cut, missing or damaged, process crashes while saving); reference document compared value by value",
 "C12": "seeded simulation of saving and loading matrices of every depth, shape and layout over a simulated disk (write and read faults, full disk, files cut, missing or damaged, crashes while saving); element-by-element reference model",
 "C13": "seeded simulation of threads that copy, view, assign and drop handles of shared matrices on a checked heap; element-by-element reference model, release accounting",
 "C14": "seeded simulation of threads that make and drop matrices while the cache is switched and resized, on a checked heap; ownership patterns in every live buffer, identity and accounting of every block",
 "C15": "seeded simulation of threads creating, listing, deleting, copying and moving directory trees on a simulated file system and shell with failing calls; the whole tree compared with what each call's outcome allows",
 "C16": "seeded simulation of threads using timers under simulated clocks that are stepped and skewed; every cost compared with the true elapsed time",
 "C18": "seeded simulation of threads that compute on shared and private matrices, every memory access a preemption point, on a checked and poisoned heap; element-by-element reference definitions",
 "C19": "seeded simulation of threads, each recording a history of matrix computations in an engine of its own and asking for derivatives in between, on a checked and poisoned heap; reverse accumulation over local derivatives as the reference",
 "C23": "seeded simulation of threads drawing from a simulated system generator (extreme values injected) on a checked heap; interval, repetition and distribution oracles",
 "C24": "seeded simulation of threads that extract, copy, draw and bound components of generated images with reused results and failing allocations, on a checked and poisoned heap; a flood fill and sets of points as the reference",
 "C25": "seeded simulation of threads that detect edges and strokes with reused, copied and cleared detectors, shared gradients and failing allocations, on a checked and poisoned heap; the definitions written anew as the reference",
 "C26": "seeded simulation of threads that extract with changing masks on reused extractors, on a checked and poisoned heap with every memory access a preemption point; component tree of the admitted pixels, extremality and equal masks as the oracles",
 "C27": "seeded simulation of single and repeated extractions by the OpenCV 3, VLFeat and original extractors on a checked and poisoned heap with reused state; their published rules applied to an independent component tree as the oracle",
 "C20": "seeded simulation of threads that sort, collect, optimise and store, of producers whose arrivals the scheduler orders, and of failing allocations, on a checked and poisoned heap; brute force over the recorded history",
 "C21": "seeded simulation of threads that use the text helpers under the locale of a simulated environment, with failing allocations, on a checked and poisoned heap; independent references, unchanged process settings",
 "C10": "seeded simulation of threads; every memory access is a preemption point; linearizability of the reported totals",
}
NA = {
}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "hooks": {"guard": "none", "enable": "No hooks in /repo: the checks compile /repo's sources with compiler instrumentation (-fsanitize=thread, simulator's own runtime) and interpose libc, OpenMP and pthread at link time.", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
          "technique": "deterministic simulation with fault injection: " + CLAIMED[i], "level": "exploration",
          "level_note": "Seeded search over schedules, faults and inputs; every violation is reported with a minimised replay file that reproduces it exactly. Nothing outside the explored runs is decided."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check yet (work in progress).")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
