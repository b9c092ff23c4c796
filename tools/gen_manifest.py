#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
NOTE={
"C01":("deterministic simulation: seeded thread schedules of the multithreaded build, compared with the sequential build",
 "Seeded search, not exhaustive: samples inputs, pool sizes, contexts, stealing orders and preemptions at single memory accesses. Oracle: the same call in the sequential build, run alone. Sequentially consistent memory assumed; values compared up to rounding (exactly for crop and nearest scaling)."),
"C02":("deterministic simulation: seeded fair schedules, deadlock detection and step bound",
 "Seeded search over pool sizes from 1, nested contexts and several callers. A run in which no thread can run is a deadlock; one that exceeds its step budget under a fair scheduler has no end. The budget is far above the longest run seen, so it is a bound on progress, not a time limit."),
"C03":("deterministic simulation: seeded interleavings of concurrent callers, each compared with its call run alone",
 "Seeded search over sets of calls of all public operations and their interleavings at memory accesses, allocations and system calls, in all three builds. Sequentially consistent memory assumed."),
"C04":("deterministic simulation: seeded histories with injected failures, each call compared with the same call in a fresh process",
 "Seeded search over histories with rejected, panicking and storage-faulted calls before; every later call is compared bit for bit with a fresh process."),
"C05":("deterministic simulation: callback failures injected at seeded points, checked against a reference model of the image",
 "Seeded search over images, methods, failing invocations and histories. Oracle: a model of the image (allowed old/new values per element)."),
"C06":("deterministic simulation: seeded histories with rejected accesses and concurrent readers against a reference store",
 "Seeded search over histories of reads, writes, rejected accesses and conversions with simulated concurrent readers; refinement against a flat array of pixels."),
"C07":("deterministic simulation: CPU feature answers injected per question, compared with the build without fast path",
 "Seeded search over images, arguments and sequences of feature answers. Oracle: the same call in a build without the SIMD feature. x86-64 with AVX2 needed to run the fast path itself."),
"C08":("deterministic simulation: the same call under different simulated environments must agree bit for bit",
 "Seeded search over heap contents and placement, hash seeds, CPU and worker counts, clocks and schedules, all supplied by the simulator."),
"C09":("deterministic simulation: storage faults injected into writes; file judged by a reference decoder",
 "Seeded search over images, formats and fault sequences on a simulated disk. Errors of close() are not injected: neither std nor the library can see them. Durability is against process death, not power loss (no sync is promised)."),
"C10":("deterministic simulation: storage faults, cut-off and damaged files injected into reads; judged by a reference decoder",
 "Seeded search over files, fault sequences and interleavings of the decoder's threads. The image crate's own decoder, run alone on the undamaged bytes, is the reference."),
"C11":("deterministic simulation: transfers split and interrupted at seeded points, with concurrent I/O; round trip compared exactly",
 "Seeded search over images, formats, splittings and interruptions."),
"C12":("deterministic simulation: refused writes on a simulated disk with and without further faults; directory compared",
 "Seeded search over refused images and destinations, prior files and storage faults; every byte of the simulated disk is compared afterwards."),
"C13":("deterministic simulation: storage faults at seeded points; open descriptors and all files audited after each call",
 "Seeded search; the simulated kernel counts descriptors per calling thread and records all modifying operations."),
"C14":("deterministic simulation: process crash injected before, inside or after a seeded storage operation, then recovery by a fresh process",
 "Seeded search over crash points, including inside a transfer. Only the process dies; what it wrote survives (the library promises no durability against power loss)."),
"C15":("deterministic simulation: simulated heap with guard areas, unmapped neighbours, poison and access checking; results compared with a plain heap",
 "Seeded search over images, layouts, sizes and heap placements. Accesses of the library are checked by compiled-in callbacks, vector loads and stores by guard areas and unmapped pages."),
"C16":("deterministic simulation: failing pixels injected into multithreaded operations under seeded schedules with concurrent calls",
 "Seeded search; failures arise in the library itself from images with too little data. Outcome compared with the same calls alone."),
}
pure="A pure function of its arguments: no schedule, clock, fault, stored state or other party takes part in it, so there is nothing for a simulator to control; deciding it would be plain input generation, which is another technique. (That the result is the same on every run, thread, build and environment is claimed separately: C01, C03, C04, C07, C08, C15.)"
m={"version":1,"setup_cmd":"bash /verif/build.sh",
"hooks":{"guard":"cfg(imgproc_sim)","enable":"rustc --cfg imgproc_sim, added by sim/rustc-wrap.sh (RUSTC_WRAPPER) when a check builds /repo","source_commits":["37659af"]},
"checks":[dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",technique=t,level="exploration",level_note=n) for p,(t,n) in NOTE.items()],
"not_applicable":[dict(property=f"N{k:02}",reason=pure) for k in range(1,10)],
"notes":"check.sh builds the simulator from /repo's working tree and searches; replay.sh FILE repeats a reported violation. See DESIGN.md."}
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+"\n")
