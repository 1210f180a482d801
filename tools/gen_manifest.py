#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: "
TECH = {
 "C01": (T + "seeded scheduler over every memory access of real library code, happens-before race monitor, solo-run oracle", "Random-walk, PCT and conflict-directed schedules of 2-5 callers. Memory is sequentially consistent between scheduling points; weak-memory effects show only as races."),
 "C02": (T + "seeded signal-like interruptions at memory accesses and calls, nested, solo-run oracle", "Interruptions land between memory accesses, calls and allocations of instrumented code, not between arbitrary machine instructions."),
 "C03": (T + "seeded schedules with threads stopped for ever, deadlock and step-bound monitors", "The step bound is 20 times the solo run plus a constant. Locks inside uninstrumented libraries are not seen."),
 "C04": (T + "seeded plans of failing allocations, retry, leak and argument accounting, solo-run oracle", "Every allocation made on behalf of a call passes the simulated heap; plans fail single, several or all allocations."),
 "C05": (T + "calls while every simulated allocation fails, solo-run oracle", "Operations, texts and predicates are sampled by seed; failure is total, so no plan can be worse."),
 "C06": (T + "torn and damaged deliveries in exact, guard-paged and read-only buffers under AddressSanitizer", "Stores inside an argument taken as writable and reads inside the caller's own neighbouring memory beyond redzones are not seen. Trusts AddressSanitizer and page protection."),
 "C07": (T + "seeded cuts of text streams, differential oracle on the complete characters and a reference decoder", "Texts and cuts are sampled; every operation is run on each cut text."),
 "C08": (T + "seeded fragmentation and damage of a UTF-8 stream feeding a retrying reader, reference decoder", "Streams, fragmentations and damages are sampled."),
 "C09": (T + "seeded corruption faults on text in transit, cross-operation agreement with a reference classification", "Damage kinds: flip, overwrite, loss, repetition, swap, splice, cut. Classes the documentation leaves open are judged by agreement only."),
 "C10": (T + "seeded relay chains of conversions with cuts, conservation of characters checked at the end", "Chains of 1-8 hops; wide strings are 32 bits here."),
 "C11": (T + "real generator under a trapped file system with seeded open/read/write/close faults, renderer as oracle", "System calls are trapped with seccomp; a kernel that loses data after a successful close is outside the property."),
 "C12": (T + "real generator under a trapped file system with seeded faults, call and output bounds", "Termination is judged by a bound on system calls, output and processor time."),
 "C13": (T + "simulated start-up and tear-down in seeded orders of translation units, solo-run oracle", "Static initialisers and destructors of library objects are run by the simulator; released heap blocks are overwritten, but the bytes of a destroyed object itself stay as they were."),
 "C14": (T + "seeded histories with reused buffers, failed calls and ambient changes, solo-run oracle", "Ambient state: locale, environment, errno, clock, random numbers, heap and stack contents, addresses, rounding mode. The 8-bit locale is simulated at the C library's character functions."),
 "C15": (T + "repeated seeded histories with failing allocations, live-block accounting per repetition", "Growth is judged over the second half of 5-8 (sometimes up to 300) repetitions."),
 "C16": (T + "long extreme inputs on a guarded 64 KiB stack", "Lengths up to tens of thousands of units; compiled with -O2."),
 "C24": (T + "real make.py and configure.py over a seam of file operations and programs with seeded crashes, torn writes and failures, model of every target's effect", "cmake, ctest, makensis and git are stand-ins; Windows file semantics (locked files, case) are not simulated. Commands run one at a time."),
 "C25": (T + "real make, sh and file utilities under trapped system calls with seeded crashes, torn writes, signals and failures, model of every target's effect", "cmake, ctest and sudo are stand-ins. Package targets and macOS are not simulated. Commands run one at a time, without -j; the order of file times within one command is the machine's."),
}
PURE = "pure function of one input: no concurrency, time, I/O, history or fault for a simulator to vary, so a simulated run would be plain input sampling"
NA = {
 "C17": PURE + " (C07, C09 and C10 decide conversions under faults)",
 "C18": PURE, "C19": PURE, "C20": PURE, "C21": PURE,
 "C22": PURE + " (trimming under failing allocations and cut text is in C04 and C07)",
 "C23": PURE,
}
m = {"version": 1, "setup_cmd": "python3 vrun.py build",
     "checks": [{"property": p, "quick_cmd": "python3 vrun.py check " + p, "thorough_cmd": "VERIF_TIER=thorough python3 vrun.py check " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": "Seeded exploration, no proof. " + n} for p, (t, n) in sorted(TECH.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: instrumentation is done by compiler flags, objcopy and interposition from /verif. Every check rebuilds all library sources of /repo's working tree for all Unicode versions."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
