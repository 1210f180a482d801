#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
S = "source/string.cxx"; I = "interface/string.hxx"; D = "source/string_decode_utf8.cxx"
H = "source/string_internal.hxx"; L = "source/string_tolower.cxx"; U = "source/string_toutf8.cxx"
P = "source/encoding_check_predicate.cxx"; J = "interface/string_splitjoin.hxx"; T = "interface/string_trim.hxx"
B = "source/bitsN/char_is_unicode.cxx"; W = "source/bitsN/char_to_lower.cxx"; M = "mkUnicodeTestData/mkUnicodeTestData.cxx"
DH = "interface/internal/string_decode_utf8.hxx"
LIB = [S, D, L, U, P, H, B, W, I, J, T]

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

out = [
p("C01", "Concurrent callers each get the result they would get alone",
  "Any number of threads may call any operations of the library at the same time, without locking and even sharing the same read-only arguments. Every call returns exactly what it returns when it is made alone in a fresh process, in every interleaving, and no two calls make conflicting unsynchronised accesses to the same memory.",
  ["schedules", "inputs", "configurations"],
  "Every interleaving, down to single memory accesses, of any calls with any arguments on any number of threads, for each supported Unicode version.",
  "The unit tests are single threaded: they run one interleaving of nothing.",
  LIB, [("no mutable state outliving a call: tables are only read, results are built in locals", "source/*.cxx, interface/*.hxx"),
        ("lookup tables with static storage, never written", S + ": rangeTypeToRangeFlag; " + P + ": encodingTypeToEncodingFlag; " + U + ": cp125280_9F, cp125080_FF")],
  ["every public function's return value"],
  [("rangeTypeToRangeFlag, encodingTypeToEncodingFlag", "file-scope tables that are not const but must never be written", S + ", " + P)]),
p("C02", "A call may be interrupted anywhere and the checks re-entered",
  "A call of any operation may be interrupted at any instant on its own thread (as by a signal handler), and the interrupting code may itself call validity checks, length counts, character predicates and the single-character UTF-8 decoder, nested to any depth. Both the interrupting calls and the interrupted call return exactly what they return when made alone.",
  ["schedules", "inputs", "configurations"],
  "Every instant of every call as interruption point, every nested check and arguments, nesting included.",
  "No test interrupts a call.",
  LIB, [("checks keep all state in locals and arguments", S + ": isUtf8, isUtf16, isUcs2, isUcs4, unicodeLength; " + D + ": decodeUtf8; " + P)],
  ["return values of the interrupted and of the interrupting calls"]),
p("C03", "A stalled or killed caller never blocks the other callers",
  "Once each operation has been used, threads may be stopped for any time, or for ever, at arbitrary points inside calls of the library. Every call on every other thread still completes, with its correct result, within a bounded number of its own steps.",
  ["schedules", "crash_points", "inputs"],
  "Every set of stalled callers and stall points inside any operations, every call by the remaining threads.",
  "No test stops a thread inside a call.",
  LIB, [("no locks, no waiting on other calls", "source/*.cxx, interface/*.hxx")], ["completion and result of the calls of the threads that still run"]),
p("C04", "Running out of memory leaves nothing half done",
  "Whichever memory allocations inside a call fail, the call either still returns its correct result or throws std::bad_alloc and nothing else. When it throws, its arguments, including a string passed for trimming in place, are as they were and no memory is leaked, and the same call made again once memory is available returns its correct result.",
  ["fault_sequences", "inputs", "histories"],
  "Every allocation (any one, any subset, all from some point on) failing in every operation, anywhere in a history of calls.",
  "The unit tests never make an allocation fail.",
  [S, L, U, J, T, H], [("results are built in local strings and vectors and returned by value", S + "; " + J),
                       ("in-place trims allocate everything before they change the argument", T + ": trimWhiteSpace")],
  ["exception type, argument values, live memory, result of the retry"]),
p("C05", "Checks, counts and predicates answer even when there is no memory",
  "Validity checks, length counts, character predicates (built, combined, compared and applied) and the single-character UTF-8 decoder return their normal answer while every memory allocation fails; they never throw and never terminate the process.",
  ["fault_sequences", "inputs", "configurations"],
  "Every argument and every check, with every allocation failing.",
  "The unit tests never make an allocation fail.",
  [S, D, P, I, B], [("checks scan the caller's buffer in place", S + ": isUtf8, isUtf16, isUcs2, isUcs4, unicodeLength"), ("predicates are two integers", P)],
  ["return values while every allocation fails"]),
p("C06", "Calls touch only the memory they were given",
  "Whatever bytes a buffer holds after a short, torn or corrupted delivery, no call reads or writes outside it: not beyond the terminator of a terminated string, not beyond the stated length of a string given with a length, and not before its start. No call ever writes to an argument it takes as read-only, not even temporarily, and none uses memory after freeing it.",
  ["inputs", "fault_sequences", "configurations"],
  "Every content (well-formed, cut anywhere, corrupted anywhere, arbitrary values), buffers that end exactly at inaccessible memory or lie in read-only memory, every operation.",
  "Tests use string literals in readable surroundings, where reading a byte too many goes unnoticed; the shipped code did read past the stated length.",
  LIB, [("sequence length checked against what is left before decoding", S + ": isUtf8, unicodeLength"), ("decoder stops at the terminator inside a sequence", D + ": decodeUtf8")],
  ["memory accesses outside the argument or to read-only pages"]),
p("C07", "Text cut off at any point is treated as its complete characters",
  "When well-formed UTF-8, UTF-16 or UCS-4 text ends early, after any number of code units, a character left incomplete by the cut is ignored: validity checks accept it for every target range the whole text fits (with a predicate, they answer as for the complete characters), and conversions, lower-casing and (for UTF-8) Unicode white-space trimming return exactly what they return for the complete characters before the cut. A count with an explicit length returns exactly the number of complete characters, and a count without one never returns more.",
  ["crash_points", "inputs"],
  "Every well-formed text (also characters written as escaped UTF-16 pairs in UTF-8, and values up to 0x7FFFFFFF where the encoding allows them), every cut position, every operation and target.",
  "Tests cut four sample strings; a text with no complete character before the cut was counted as 4294967295.",
  [S, D, L, T, I], [("decoder returns 0 and stays on the terminator when a sequence is incomplete", D + ": decodeUtf8"), ("explicit-length scans stop before an incomplete sequence", S + ": isUtf8, unicodeLength"),
                ("loops stop at the incomplete pair", S + ": isUtf16, toUtf8, toUcs4")],
  ["isUtf8/isUtf16/isUcs4, toXxx, toLower, trimWhiteSpace, unicodeLength of the cut text"]),
p("C08", "Text may be read in fragments of any size",
  "A reader that receives well-formed UTF-8 in fragments of any sizes, decodes character by character what has arrived and retries a character whose bytes have not all arrived obtains exactly the characters sent, in order, none lost, repeated or altered. At every step the explicit-length check accepts what is buffered and the explicit-length count equals the number of complete characters buffered. If the stream is damaged, the decoder reports it at the first broken character and every character before it is delivered.",
  ["histories", "fault_sequences", "inputs"],
  "Every text, every fragmentation, every damage position.",
  "Tests call the decoder on whole characters only.",
  [D, DH, S], [("three distinguishable outcomes: character, ran out of bytes, broken", DH + ": decodeUtf8"), ("explicit-length scans", S + ": isUtf8, unicodeLength")],
  ["decodeUtf8 return value and pointer, isUtf8/unicodeLength with explicit length"]),
p("C09", "Damaged text is rejected by every operation or by none",
  "After code units of a text have been flipped, overwritten, lost, repeated, swapped or spliced in transit, the operations agree on the outcome. If the result is not well-formed (or has a value the target cannot hold), the validity check for that target is false, with or without a predicate, the conversion to it is empty, lower-casing malformed UTF-8 or UTF-16 gives the empty string and counts of malformed text are 0; otherwise the check is true, the conversion is complete, and its output is itself accepted and converts back to exactly the text received.",
  ["fault_sequences", "inputs"],
  "Every well-formed text in UTF-8, UTF-16 or UCS-4 and every sequence of such damages that leaves no terminator inside, for every source and target encoding.",
  "Tests check chosen malformed strings one function at a time; a lone low surrogate was converted into ill-formed UTF-8 although the check rejected it.",
  [S, D, H, I], [("is-functions and to-functions each decode and check on their own and must agree", S), ("strict decoder", D)],
  ["isUtf8/isUtf16/isUcs2/isUcs4 with targets, toUtf8/toUcs2/toUtf16/toUcs4, unicodeLength, wide-string variants"]),
p("C10", "Relayed text arrives intact or as a clean prefix",
  "Text passed along any chain of conversions between UTF-8, UTF-16, UCS-4, UCS-2 (where it fits) and wide strings arrives unchanged. If the text is cut at any hops on the way, what arrives is the prefix of it made of exactly the whole characters that no cut reached; no chain of conversions and cuts ever delivers anything else.",
  ["histories", "fault_sequences", "inputs"],
  "Every text, every path of conversions, every combination of cuts along the path.",
  "Tests convert single strings once.",
  [S, D, H, I], [("lossless re-encoding", S + ": toUtf8, toUtf16, toUcs2, toUcs4"), ("wide-string adapters", I)],
  ["the text at the end of the chain"]),
p("C11", "The Unicode test-data generator exits 0 only with a complete output file",
  "Whatever open, read, write or close errors, short transfers, interrupted system calls or damaged input lines the generator meets, exit status 0 means that the output file holds the complete array for every character line of the input file. In every other case the status is not 0.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every sequence of I/O faults and every damage of the input.",
  "The generator has no tests; it returned 0 on a full disk and when neither file could be opened.",
  [M, J], [("status codes 1 to 4", M + ": main"), ("stream state after reading and writing", M + ": process")], ["exit status, output file"]),
p("C12", "The Unicode test-data generator always stops",
  "For every input file, including one cut off at any byte, damaged, or failing to read part way, and whatever output errors occur, the generator ends without crashing and writes no more than a fixed multiple of its input.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every truncation point, damage and I/O fault sequence.",
  "The generator has no tests; it looped for ever, filling the disk, when the input lacked its last newline or a read failed.",
  [M, J], [("line loop", M + ": process")], ["termination, bytes written, signals"]),
p("C13", "The library works before main and after static destruction",
  "Every operation returns its normal result when called while static objects of the program are still being constructed or already being destroyed, in every order of construction and destruction of the program's translation units.",
  ["schedules", "configurations", "inputs"],
  "Every order of initialisers and finalisers and every position of the call among them, for each supported Unicode version.",
  "Tests call everything inside main; the reported Unicode version was empty before the library's own initialiser had run.",
  LIB, [("constant-initialised tables", "source/*.cxx"), ("reported version", "source/bitsN/char_is_unicode.cxx: supportedUnicodeVersion")],
  ["return values during start-up and shut-down"]),
p("C14", "Results depend only on the arguments",
  "The result of a call is determined by the values of its arguments alone: not by earlier calls, successful, rejected or failed for lack of memory, on the same or reused buffers, nor by the process locale, environment variables, errno, time, random numbers, the previous contents of stack and heap or the addresses of the arguments.",
  ["histories", "fault_sequences", "configurations", "inputs"],
  "Every history of calls and every ambient state before each call.",
  "Each test makes a handful of calls in one process in one fixed ambient state.",
  LIB, [("no state kept between calls, no locale-dependent functions", "source/*.cxx, interface/*.hxx")], ["every public function's return value"]),
p("C15", "No history of calls makes memory grow",
  "Repeating any history of calls, whether they succeed, reject their input or fail for lack of memory, on any thread, never makes the memory held by the process grow from one repetition to the next; every block is released exactly once.",
  ["histories", "fault_sequences", "inputs"],
  "Every history of calls with allocation failures, repeated any number of times.",
  "The unit tests do not track memory and make no allocation fail.",
  LIB, [("only value types own memory", "source/*.cxx, interface/*.hxx")], ["live blocks and bytes after each repetition"]),
p("C16", "Stack use does not depend on the input",
  "Every operation completes on a small fixed stack (64 KiB) whatever the length and content of its input.",
  ["inputs", "configurations", "fault_sequences"],
  "Every length and content, called on threads with small stacks.",
  "Tests use short strings on the main thread's large stack.",
  LIB, [("iterative scanners without large local arrays", "source/*.cxx, interface/*.hxx")], ["stack limit not overrun"]),
# ---- pure functions of their input: stated, not claimed with this technique
p("C17", "Conversions map every character to the standard encoding of it",
  "For every undamaged text the conversions produce the standard UTF-8, UTF-16, UCS-2 and UCS-4 encodings of exactly the same characters, and a text accepted by a validity check for a target always converts to it.",
  ["inputs"], "Every text.", "Tests sample texts.", [S, D, H], [("encoders and decoders", H + ": encodeUtf8, rawEncodeUtf16, rawDecodeUtf8")]),
p("C18", "Lower-casing follows UnicodeData for every character and version",
  "For every character and supported Unicode version, lower-casing maps it to its simple lower-case mapping of that version and to itself if there is none, and in the Turkic languages dotted and dotless I follow Turkic rules.",
  ["inputs", "configurations"], "Every code point, language code and version.", "Tests sample characters per version.", [L, W], [("mapping code", W)]),
p("C19", "Assigned, private, control and white-space classes follow the standard",
  "For every code point and supported Unicode version, the classes reported by predicates agree with that version of the standard.",
  ["inputs", "configurations"], "Every code point and version.", "Tests check assigned code points, not every class.", [B, P], [("classification code", B)]),
p("C20", "Code page 1252 and 1250 conversions follow the code page tables",
  "Every single-byte string in CP1252 or CP1250 converts to the UTF-8 of the characters the code page assigns, and to the empty string if it holds an unassigned byte.",
  ["inputs"], "Every byte string.", "Tests sample strings.", [U], [("tables", U)]),
p("C21", "Split and join are inverse of each other",
  "Splitting a non-empty string at a delimiter yields the maximal delimiter-free pieces in order, and joining them with the same delimiter gives back the string.",
  ["inputs"], "Every string, element list and delimiter, for every character type.", "Tests sample strings.", [J], [("split, join", J)]),
p("C22", "Trimming removes exactly the blanks at both ends",
  "Trimming removes the longest run of trim characters at each end and nothing else.",
  ["inputs"], "Every string and trim set.", "Tests sample strings.", [T], [("trim", T)]),
p("C23", "Combined predicates mean the conjunction of their parts",
  "A predicate built from conditions accepts exactly the characters that satisfy every one of them, and a string check with it accepts exactly the strings all of whose characters it accepts, in every encoding.",
  ["inputs"], "Every combination of conditions, every string.", "Tests sample combinations.", [P, S], [("mask and value", P)]),
p("C24", "make.py reports success only when all it was asked to do is done",
  "On Windows, when make.py all, test, install, package, uninstall, clean, scrub, cmake-install or cmake-uninstall ends with status 0, its effect is complete for the current sources and the configuration in force, whatever earlier commands did, failed at or were stopped in. No command ever removes or changes a source file or a file it did not install, and once nothing fails any more the same command succeeds.",
  ["crash_points", "fault_sequences", "histories"], "Every sequence of configure.py and make.py commands, source edits, failures of file operations and programs, and stops at any point.", "The build front ends have no tests.",
  ["make.py", "configure.py", "project.py"], [("steps of each target", "make.py: Maker.all, test, install, uninstall, package, clean, scrub"), ("configuration", "configure.py: main")], ["contents of build, prefix, cmake root and checkout after each command"]),
p("C25", "make on Unix reports success only when all it was asked to do is done",
  "On Linux, MinGW and Cygwin, when make all, test, install, uninstall, clean, scrub, cmake-install or cmake-uninstall ends with status 0, its effect is complete for the current sources and the configuration in force, and configure reports success only when its settings take effect in full, whatever earlier commands did, failed at or were stopped in. No command ever writes outside the checkout, the prefix and cmake's modules or removes or changes a source file or a file it did not install, and once nothing fails any more the same command succeeds.",
  ["crash_points", "fault_sequences", "histories"], "Every sequence of configure and make commands, source edits, failures of system calls and programs, signals, and stops at any point.", "The build front ends have no tests.",
  ["Makefile", "configure"], [("recipes", "Makefile: all, test, install, uninstall, cmake-install, cmake-uninstall, clean, scrub"), ("configuration", "configure: config.make and build/deps")], ["contents of build, prefix, cmake root and checkout after each command"]),
]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
