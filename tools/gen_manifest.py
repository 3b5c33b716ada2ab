#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import plans
IL = "stateless model checking of the real code: all thread interleavings under a controlled scheduler (mcrt), happens-before race detection"
EN = "bounded exhaustive exploration of the real code against a reference model"
T = {
 "P01": (EN + ": all shapes, orders, value pairs per depth position, offsets lattice; five back ends in full, MSA and 32-bit SSE in part", "Every configuration of the stated finite space is executed on each back end and every element compared with an independent 64-bit sum. Shapes beyond the listed bounds and arbitrary joint contents are not covered. ARM, MIPS and 32-bit x86 run under qemu."),
 "P02": (EN + ": all stage compositions x parameter lattice x accumulator lattice x element positions", "Accumulator values and stage parameters from boundary lattices, every register-block position; back ends run as in the test configurations, ARM under qemu."),
 "P03": (EN + ": all placements against inaccessible pages, shapes, orders, strides", "Any read or write outside the given memory within the enumerated shapes faults or changes a canary."),
 "P04": (EN + ": all settings of a cache-parameter lattice x shapes", "Bit-identical results over the whole lattice; block-size invariants checked on a larger lattice."),
 "P05": (EN + " (every task order, every thread count) plus " + IL, "Task orders up to 4-5 tasks completely, interleavings up to the stated preemption bound."),
 "P06": (IL, "All schedules of the listed pool histories up to the stated preemption bound (small ones without bound), spurious wake-ups included; sequential consistency with race detection."),
 "P07": (IL + ", stale reads of atomics enumerated", "All schedules without preemption bound for up to 3 decrementing threads; bounded stale reads model weaker orderings."),
 "P08": (EN + ": all argument lattices and call histories of the legacy interface", "All histories up to the stated length over the stated alphabet."),
 "P09": (IL, "Two or three client threads with one or two calls each, all interleavings up to the stated preemption bound."),
 "P10": (EN + ": all histories of products and settings up to a length", "Every history up to the stated length over the stated alphabet compared with fresh contexts."),
 "P11": (EN + ": all operation sequences of the allocator up to a depth, all allocation-failure points", "Explicit-state exploration of the real allocator against a reference model."),
 "P12": (EN + ": all 8/16-bit operands, boundary lattices of 32-bit operands", "Exhaustive for 8- and 16-bit operands; 32-bit by lattices (quick) and all single operands (thorough)."),
 "P13": (EN + ": all 16-bit inputs of every format, dense 32-bit grids", "Exhaustive for 16-bit formats; 32-bit on the stated grid."),
 "P14": (EN + ": lane-wise comparison of SIMD and scalar arithmetic", "All 16-bit operands for unary functions, boundary lattices for pairs, every lane position."),
 "P15": (EN + ": all kernel formats of a family x all shapes", "Formats enumerated at compile time from the stated family."),
 "P16": (EN + ": all m,n,k remainder classes of the NEON meta kernels", "Runs under qemu; 64-bit kernels in both tiers, 32-bit kernels through the legacy interface in both and completely in the thorough tier."),
 "P17": (EN + ": all counts and 8-bit values of the NEON meta transforms", "64-bit and 32-bit ARM under qemu."),
 "P18": (IL + " of the profiler, all thread-specific-data destructor orders", "Small programs of instrumented threads, all interleavings up to the stated preemption bound."),
 "P20": (IL + ", every pair of product kinds on two contexts", "Two or three application threads, one or two products each, all interleavings up to the stated preemption bound; x86 back ends only (races inside NEON assembly are not instrumented)."),
 "P19": (EN + " (histories of products and settings with interposed allocation and thread creation) plus " + IL, "Thread and byte accounting over all histories up to the stated length."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in plans.PLANS:
        checks.append(dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=T[p][0], level="model_checking", level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         hooks=dict(guard="GEMMLOWP_VERIF_BUSYWAIT_NOPS", enable="mcrt/build.sh compiles with -DGEMMLOWP_VERIF_BUSYWAIT_NOPS=<n> (length of busy waits)",
                    source_commits=["9d21c7b"]),
         checks=checks, not_applicable=na,
         notes="Every check rebuilds what it needs from /repo's working tree in a temporary directory. Violations are confirmed by replay before they are reported.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
