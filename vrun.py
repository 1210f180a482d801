#!/usr/bin/env python3
"""Driver of the simulator: builds it from /repo's working tree, runs seeded searches, confirms and reports.

  vrun.py check <property>             (VERIF_SEED, VERIF_TIER=quick|thorough)
  vrun.py build <property> [...]       build only
  vrun.py replay <case file>           replay a violation
Exit status: 0 the property held, 1 it is violated (VIOLATION line), 2 the check itself is in error.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
SIM = os.path.join(VERIF, "sim")
JOBS = os.cpu_count() or 4

FLAVOUR = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C13", "C14", "C15"): FLAVOUR[p] = "tsan"
FLAVOUR["C06"] = "asan"
for p in ("C07", "C08", "C09", "C10"): FLAVOUR[p] = "plain"
FLAVOUR["C16"] = "mixed"
for p in ("C11", "C12"): FLAVOUR[p] = "tool"
FLAVOUR["C24"] = "make"
FLAVOUR["C25"] = "unix"
FLAVOUR["C26"] = "find"

# runs per Unicode version in the quick tier (in all for the tool); the thorough tier runs until its time is used up
QUICK_RUNS = json.load(open(os.path.join(SIM, "budget.json")))
QUICK_WALL = 120.0
CHUNKS = 4
THOROUGH_WALL = float(os.environ.get("VERIF_WALL", "1500"))


class CheckError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-3000:]))
    return r.stdout


# ------------------------------------------------------------------ build
REDEFINE = {}
for f in ("memcpy memmove mempcpy memset memcmp memchr strlen wcslen wmemcpy wmemmove wmemset wmemchr wmemcmp strcpy strncpy strcat "
          "strcmp strncmp strchr strtok pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock "
          "pthread_mutex_init pthread_mutex_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_rwlock_wrlock "
          "pthread_rwlock_trywrlock pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_unlock pthread_once pthread_cond_wait "
          "pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast sched_yield usleep nanosleep clock_nanosleep atexit "
          "isspace isalpha isupper islower isprint isblank iscntrl ispunct isalnum isgraph tolower toupper towlower towupper iswspace setlocale").split():
    REDEFINE[f] = "sim_" + f
REDEFINE.update({"__ctype_b_loc": "sim_ctype_b_loc", "__ctype_tolower_loc": "sim_ctype_tolower_loc", "__ctype_toupper_loc": "sim_ctype_toupper_loc", "__ctype_get_mb_cur_max": "sim_ctype_get_mb_cur_max",
                 "__cxa_guard_acquire": "sim_cxa_guard_acquire", "__cxa_guard_release": "sim_cxa_guard_release", "__cxa_guard_abort": "sim_cxa_guard_abort",
                 "__cxa_atexit": "sim_cxa_atexit", "__cxa_thread_atexit": "sim_cxa_thread_atexit"})


def versions():
    v = sorted(int(os.path.basename(d)[4:]) for d in glob.glob(os.path.join(REPO, "source", "bits*")) if re.fullmatch(r"bits\d+", os.path.basename(d)))
    if not v:
        raise CheckError("no Unicode versions found under %s/source" % REPO)
    return v


def lib_sources(v):
    return sorted(glob.glob(os.path.join(REPO, "source", "*.cxx"))) + sorted(glob.glob(os.path.join(REPO, "source", "bits%d" % v, "*.cxx")))


def lib_flags(v):
    return ["-std=gnu++11", "-fno-operator-names", "-w", "-g1", "-I" + os.path.join(REPO, "interface"), "-I" + os.path.join(REPO, "source"), "-I" + os.path.join(REPO, "source", "bits%d" % v)]


FLAV_FLAGS = {
    "tsan": ["-fsanitize=thread", "-O1"],
    "asan": ["-fsanitize=address", "-O1", "-fno-omit-frame-pointer"],
    "plain": ["-O2"],
    "mixed": ["-O2"],       # every other Unicode version without optimisation, as in a debugging build
}


def objcopy_instrumented(obj):
    args = ["objcopy"]
    for a, b in REDEFINE.items():
        args += ["--redefine-sym", "%s=%s" % (a, b)]
    secs = set(re.findall(r"\s(\.init_array(?:\.\d+)?)\s", run(["objdump", "-h", obj])))
    for s in secs:
        if s != ".init_array.00099":
            args += ["--rename-section", "%s=sim_init,alloc,load,data,contents" % s]
    run(args + [obj])


def build(flavour):
    """Returns {version: executable} for library flavours, {0: executable} for the tool."""
    t0 = time.time()
    if flavour == "make":       # Python: nothing to build, the scripts are taken from /repo as they are
        return {0: os.path.join(SIM, "winmake.py")}, 0.0
    out = os.path.join(BUILD, flavour)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if flavour in ("unix", "find"):
        run(["gcc", "-O2", "-shared", "-fPIC", "-o", os.path.join(out, "unixtrap.so"), os.path.join(SIM, "unixtrap.c")])
        run(["g++", "-O2", "-o", os.path.join(out, "stub"), os.path.join(SIM, "unixstub.cpp")])
        ENV["VERIF_UNIXTOOLS"] = out
        return {0: os.path.join(SIM, flavour + "make.py")}, time.time() - t0
    jobs = []          # (source, object, command, postprocess)
    exes = {}
    if flavour == "tool":
        vmax = versions()[-1]
        srcs = []
        for t in sorted(glob.glob(os.path.join(REPO, "mkUnicodeTestData", "*.cxx"))):
            srcs.append((t, "tool_" + os.path.basename(t) + ".o", ["g++"] + lib_flags(vmax) + ["-O1", "-Dmain=tool_main"]))
        for t in lib_sources(vmax):
            srcs.append((t, "lib_" + os.path.basename(t) + ".o", ["g++"] + lib_flags(vmax) + ["-O1"]))
        srcs += [(os.path.join(SIM, "tool.cpp"), "tool.o", ["g++", "-std=c++14", "-O1", "-g1", "-I" + SIM]),
                 (os.path.join(SIM, "rt_plain.cpp"), "rt_plain.o", ["g++", "-std=c++14", "-O1", "-g1", "-I" + SIM, "-DNO_LIBRARY"]),
                 (os.path.join(SIM, "common.cpp"), "common.o", ["g++", "-std=c++14", "-O2", "-g1", "-I" + SIM])]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda s: run(s[2] + ["-c", s[0], "-o", os.path.join(out, s[1])]), srcs))
        exe = os.path.join(out, "sim")
        run(["g++", "-o", exe] + [os.path.join(out, s[1]) for s in srcs] + ["-ldl", "-lpthread"])
        return {0: exe}, time.time() - t0
    fl = FLAV_FLAGS[flavour]
    common = [("common.cpp", ["-std=c++14", "-O2"])]
    common += [("rt.cpp", ["-std=c++14", "-O2"]), ("props_sched.cpp", ["-std=c++14", "-O1"])] if flavour == "tsan" else \
              [("rt_plain.cpp", ["-std=c++14", "-O1"] + (["-DASAN_FLAVOUR"] if flavour == "asan" else [])), ("props_text.cpp", ["-std=c++14", "-O1"] + (["-DASAN_FLAVOUR"] if flavour == "asan" else []))]
    cobj = []
    for s, f in common:
        o = os.path.join(out, s.replace(".cpp", ".o"))
        san = ["-fsanitize=address"] if flavour == "asan" else []
        cobj.append(o)
        jobs.append((["g++"] + f + san + ["-g1", "-I" + SIM, "-c", os.path.join(SIM, s), "-o", o], None))
    vobj = {}
    unoptimised = set(versions()[::2]) if flavour == "mixed" else set()

    def flags_of(v):
        return ["-O0"] if v in unoptimised else fl
    for v in versions():
        d = os.path.join(out, "u%d" % v)
        os.makedirs(d)
        vobj[v] = []
        srcs = lib_sources(v)
        for s in srcs:
            o = os.path.join(d, "lib_" + os.path.basename(s) + ".o")
            vobj[v].append(o)
            jobs.append((["g++"] + lib_flags(v) + flags_of(v) + ["-c", s, "-o", o], o if flavour == "tsan" else None))
        # the adapters see only the interface; they are the same for all versions
        exes[v] = os.path.join(d, "sim")
    v0 = versions()[0]
    for s in ["ops.cpp"] + (["strinst.cpp"] if flavour == "tsan" else []):
        for group in (set(vobj) - unoptimised, unoptimised):
            if group:
                o = os.path.join(out, s.replace(".cpp", "_O0.o" if group is unoptimised else ".o"))
                jobs.append((["g++"] + lib_flags(v0) + ["-I" + SIM] + flags_of(min(group)) + ["-c", os.path.join(SIM, s), "-o", o], o if flavour == "tsan" else None))
                for v in group:
                    vobj[v].insert(0, o)

    def one(j):
        run(j[0])
        if j[1]:
            objcopy_instrumented(j[1])
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))

    def link(v):
        run(["g++"] + (["-fsanitize=address"] if flavour == "asan" else []) + ["-o", exes[v]] + vobj[v] + cobj + ["-ldl", "-lpthread"])
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, sorted(exes)))
    return exes, time.time() - t0


# ------------------------------------------------------------------ running
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:handle_sigbus=0:detect_stack_use_after_return=0:allocator_may_return_null=1:strict_string_checks=0"
ENV["LC_ALL"] = "C"
ENV["VERIF_REPO"] = REPO
ENV.pop("LANG", None)


def worker(exe, prop, seed, first, count, wall, v, out, scratch, minwall):
    os.makedirs(scratch, exist_ok=True)
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--first", str(first), "--count", str(count), "--wall", "%.1f" % wall, "--unicode", str(v),
           "--scratch", scratch, "--replaydir", REPLAYS, "--out", out, "--minwall", "%.1f" % minwall]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    data = None
    if r.returncode in (0, 1) and os.path.exists(out):
        data = json.load(open(out))
    return r.returncode, r.stdout, data


def replay(exe, path, v, scratch):
    os.makedirs(scratch, exist_ok=True)
    r = subprocess.run([exe, "--replay", path, "--unicode", str(v), "--scratch", scratch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    return r.returncode, r.stdout


def head(path):
    h = {}
    for l in open(path, errors="replace"):
        m = re.match(r"# (property|unicode|seed|class|detail|hash) (.*)", l)
        if m:
            h.setdefault(m.group(1), m.group(2).strip())
        if l.startswith("# ---"):
            break
    return h


def known_findings(prop):
    """Lines 'known: property=<id> unicode=<v|*> class=<c> match=<regex> :: text'. Only these suppress anything."""
    k = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                k.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return k


REAL = {
    "tsan": ["every library source of /repo/source and /repo/interface for each Unicode version", "libstdc++ basic_string (instantiated and instrumented here)", "libstdc++ containers and exceptions"],
    "asan": ["every library source of /repo/source and /repo/interface for each Unicode version", "libstdc++", "AddressSanitizer run time and kernel page protection as monitors"],
    "mixed": ["every library source of /repo/source and /repo/interface for each Unicode version, every other version without optimisation", "libstdc++"],
    "plain": ["every library source of /repo/source and /repo/interface for each Unicode version", "libstdc++"],
    "make": ["/repo/make.py, project.py and configure.py", "Python's shutil, pathlib, argparse and buffered files", "scratch files on the real file system"],
    "unix": ["/repo/Makefile and /repo/configure", "make, sh, cp, mv, rm, rmdir, mkdir, touch, echo, find, xargs, grep, awk, sed as installed", "scratch files on the real file system"],
    "find": ["/repo/FindANSAK.cmake", "cmake as installed", "scratch files on the real file system"],
    "tool": ["/repo/mkUnicodeTestData/mkUnicodeTestData.cxx", "libstdc++ file streams", "scratch files on the real file system"],
}
STUB = {
    "tsan": ["thread scheduler", "heap (deterministic addresses, contents, reuse and failures)", "mutex, rwlock, spin, once, condition and static-guard primitives", "start-up and tear-down of static objects", "clock, random numbers and environment seen by library code"],
    "asan": ["delivery of text (exact buffers, guard pages, read-only pages)"],
    "plain": ["delivery, relay and damage of text"],
    "mixed": ["the calling thread's stack (64 KiB, guarded)"],
    "make": ["file operations as seen by the scripts (faults over the real calls, Windows separators)", "cmake, ctest, makensis, git and cmd (write products that name the sources they were made of)", "clock of the file system"],
    "unix": ["system calls that change files, in all programs (faults over the real calls)", "cmake, ctest, sudo, git, uname, dpkg-deb, rpm and debtap (write products that name the sources and settings they were made of)", "clock of the file system between commands"],
    "find": ["system calls of cmake that change files (faults over the real calls)", "the installer (files arrive one by one)", "platform variables of cmake on Windows"],
    "tool": ["open, read, write, close and stat as seen by the tool (faults over the real calls)"],
}
FAULTS_OF = {
    "C01": "preemption conflict_preemption waits shared_argument_calls kept_predicate_calls", "C02": "interruption nested_interruption", "C03": "thread_stopped_for_ever preemption conflict_preemption waits",
    "C04": "allocation_failure allocations_granted retry", "C05": "allocation_failure", "C06": "guard_page_call read_only_argument exact_heap_buffer cut damage_flip damage_overwrite damage_loss damage_repeat damage_swap damage_splice",
    "C07": "cut torn_character", "C08": "fragment retry damaged_stream", "C09": "damage_flip damage_overwrite damage_loss damage_repeat damage_swap damage_splice cut",
    "C10": "hop cut torn_character", "C11": "open_failure short_read short_write eintr read_error write_error close_error stat_failure input_cut input_damage",
    "C12": "open_failure short_read short_write eintr read_error write_error close_error stat_failure input_cut input_damage",
    "C13": "calls_before_initialisation calls_after_destruction static_initialisers_run static_destructors_run", "C14": "ambient_change buffer_reuse allocation_failure",
    "C15": "history_repetition allocation_failure thread_local_destructors", "C16": "small_stack_call long_input",
    "C26": "file_installed unreadable_installation uninstall crash torn_write interrupt terminate eacces enospc eio",
    "C25": "crash torn_write interrupt terminate failing_program eacces enospc eio source_edit foreign_file",
    "C24": "crash torn_write crash_during_a_program failing_program missing_program eacces enospc eio source_edit foreign_file",
}
RULES = {
    "C01": "2-5 simulated threads with 1-4 calls each (same or different operations, shared or own arguments); random-walk, PCT or conflict-directed schedule. Non-trivial: at least one preemption inside a library call.",
    "C02": "1-3 calls with 1-12 interruptions at seeded steps, each making a check/count/predicate/decoder call, nested up to 4 deep. Non-trivial: at least one interruption hit inside library code.",
    "C03": "2-4 threads after one warm-up of each operation; all but at least one may be stopped for ever at a seeded step inside a call. Non-trivial: a thread was stopped or preempted inside library code.",
    "C04": "1-6 calls, each under a seeded plan of failing allocations, three times, then retried with memory. Non-trivial: at least one allocation failed.",
    "C05": "2-8 checks, counts, predicates or decodings while every allocation fails. Non-trivial: a non-empty text was examined.",
    "C06": "texts valid, cut, damaged or random in exact heap blocks, against guard pages on either side and on read-only pages. Non-trivial: a non-empty buffer.",
    "C07": "well-formed text cut at a seeded code unit; every operation compared with the complete characters. Non-trivial: the cut tore a character or the text is non-empty.",
    "C08": "well-formed UTF-8 (sometimes damaged) delivered in seeded fragments to a retrying reader. Non-trivial: at least one character was split between fragments or damaged.",
    "C09": "text damaged by 1-3 seeded faults, every check, count and conversion compared with the model and each other. Non-trivial: the damage changed the text.",
    "C10": "a chain of 1-8 hops between encodings, cut at seeded hops and units. Non-trivial: at least one hop with non-empty text.",
    "C11": "seeded input files and plans of open/read/write/close/stat faults. Non-trivial: at least one fault was injected or the input was damaged or cut.",
    "C12": "as C11, with cuts and damage of the input at every kind of place. Non-trivial: at least one fault was injected or the input was damaged or cut.",
    "C13": "calls before, between and after the static initialisers in a seeded order of translation units, then between and after the destructors. Non-trivial: at least one call in such a phase.",
    "C14": "histories of 4-80 calls on reused buffers, with siblings of earlier calls, failing allocations, and changes of locale, environment, errno, clock, random numbers, heap and stack contents. Non-trivial: at least one call.",
    "C15": "a history of 1-12 calls with failing allocations, repeated 5-8 (sometimes up to 300) times on the main or on fresh threads. Non-trivial: at least one call.",
    "C16": "every operation with long inputs of extreme shapes on a guarded 64 KiB stack. Non-trivial: an input of more than 1000 units.",
    "C26": "2-14 events: a file of an installation arrives, an installation becomes unreadable, readable, or goes, cmake configures one of up to three consumers of FindANSAK.cmake with up to two faults (crash, torn write, signal, failing system call); Linux or Windows layouts, root given by variable, environment or prefix path; then all is completed and every consumer is configured again. Non-trivial: a fault hit or cmake ran on at least three states.",
    "C25": "1-8 runs of configure and make on a simulated Linux, MinGW or Cygwin with edits of sources, other configurations and files of others in between, and up to two faults per run (crash, torn write, SIGINT or SIGTERM to all, failing system call or program); then the last wishes again without faults. Non-trivial: at least one fault hit.",
    "C24": "1-8 runs of configure.py and make.py with edits of sources between them, files of others under the prefix, and up to two faults per run (crash, torn write, failing file operation, failing, missing or killed program); then the last wishes again without faults. Non-trivial: at least one fault hit.",
}


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    flavour = FLAVOUR[prop]
    for d in (EVID, REPLAYS):
        os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(REPLAYS, prop + "-*.case")):
        os.remove(f)
    exes, tb = build(flavour)
    work = os.path.join(BUILD, "work-%s" % prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    vs = sorted(exes)
    known = known_findings(prop)
    # every version gets the same number of runs, in CHUNKS blocks of consecutive run numbers
    chunks = JOBS * 4 if len(vs) == 1 else CHUNKS
    if tier == "quick":
        n, deadline, minwall = max(1, QUICK_RUNS[prop] // chunks), t0 + QUICK_WALL, 20.0
    else:
        n, deadline, minwall = 10 ** 6, t0 + THOROUGH_WALL, 60.0
    tasks = [(v, (i * chunks + c) * 10 ** 7, c) for c in range(chunks) for i, v in enumerate(vs)]
    slot = max(2.0, (THOROUGH_WALL - tb) * JOBS / len(tasks))
    results, errors, confirmed, unconfirmed, stop = [], [], [], [], []

    def go(k):
        v, first, _ = tasks[k]
        left = deadline - time.time()
        if stop or left < 1:
            return
        scratch = os.path.join(work, "s%d" % k)
        rc, text, data = worker(exes[v], prop, seed, first, n, left if tier == "quick" else min(left, slot), v, os.path.join(work, "out%d.json" % k), scratch, minwall)
        if data is None:
            errors.append("worker for version %d ended with %d: %s" % (v, rc, text[-1500:]))
            return
        results.append((v, data))
        path = data["violation"]
        if path:
            h = head(path)
            rc, text = replay(exes[v], path, v, scratch)
            m = re.search(r"REPLAY violated class=(\S+) hash=(\S+) again=(\S+)", text)
            if rc == 1 and m and m.group(1) == h.get("class") and m.group(2) == h.get("hash") and m.group(3) == "same":
                confirmed.append((v, path, h))
                if not any(c == h.get("class") and rx.search(h.get("detail", "")) for c, rx, _ in known):
                    stop.append(1)
            else:
                unconfirmed.append((path, text[-500:]))
        shutil.rmtree(scratch, ignore_errors=True)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(go, range(len(tasks))))
    if errors and not confirmed:
        raise CheckError("\n".join(errors))
    confirmed.sort()
    reported, seen_known = [], set()
    for v, path, h in confirmed:
        hit = None
        for c, rx, text in known:
            if c == h.get("class") and rx.search(h.get("detail", "")):
                hit = text
        if hit:
            seen_known.add(hit)
        else:
            reported.append((v, path, h))
    for text in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    wall_s = time.time() - t0
    tot = lambda k: sum(d[k] for _, d in results)
    stats = {}
    for _, d in results:
        for k, n_ in d["stats"].items():
            stats[k] = stats.get(k, 0) + n_
    search = max([d["wall"] for _, d in results] + [0.001])
    samples = []
    for v, d in sorted(results, key=lambda x: -x[0]):
        for s in d["samples"]:
            if len(samples) < 4:
                samples.append("unicode %s %s" % (v, s))
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"), "distinct_nontrivial": tot("distinct_nontrivial"), "rule": RULES[prop], "samples": samples,
            "simulated_runs": tot("runs"), "one_seed_per_run": "run i of version v uses H(VERIF_SEED, property, i, v)",
            "runs_per_hour": int(tot("runs") / search * 3600),
            "simulated_steps": tot("steps"), "simulated_time": "%d scheduling steps (memory accesses and calls of library code); the library has no clock" % tot("steps") if flavour == "tsan" else "%d file operations and program starts over %d simulated seconds" % (tot("steps"), stats.get("simulated_seconds", 0)) if flavour in ("make", "unix", "find") else "%d operations; no clock in the code under test" % stats.get("operations", 0),
            "faults_injected": {k: stats.get(k, 0) for k in FAULTS_OF[prop].split()},
            "all_event_counts": {k: n_ for k, n_ in sorted(stats.items()) if n_},
            "distinct_interleavings": tot("distinct_interleavings"), "interleaving_measure": "hash of the sequence of switches / fault positions / cuts actually taken in a run",
            "oracle_runs_alone": tot("solo_runs"), "oracle_runs_broken": tot("solo_broken"),
            "determinism_rechecks": tot("determinism_rechecks"), "determinism_mismatches": tot("mismatches"),
            "unicode_versions": vs if vs != [0] else [], "real_code": REAL[flavour], "stubs": STUB[flavour],
            "build_s": round(tb, 1), "minimisation_runs": tot("minimise_runs"), "unreproduced_violations": len(unconfirmed),
        },
        "assumptions": ["seeded search, not exhaustive", "sequentially consistent memory between scheduling points", "compiler and libstdc++ trusted"],
        "wall_s": round(wall_s, 1), "violations": len(reported),
    }
    json.dump(evid, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s seed %d: %d runs (%d distinct non-trivial), %d distinct interleavings, %.1f s (build %.1f s), determinism rechecks %d mismatches %d" %
          (prop, tier, seed, tot("runs"), tot("distinct_nontrivial"), tot("distinct_interleavings"), wall_s, tb, tot("determinism_rechecks"), tot("mismatches")))
    if reported:
        for v, path, h in reported:
            print("unicode %s class %s: %s" % (v, h.get("class"), h.get("detail", "")[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unconfirmed:
        for p, t in unconfirmed:
            print("not reproduced: %s %s" % (p, t))
        raise CheckError("a violation could not be reproduced")
    if tot("runs") == 0 or tot("distinct_nontrivial") == 0:
        raise CheckError("nothing was explored")
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "check":
        return check(a[1])
    if a[0] == "build":
        for f in sorted({FLAVOUR[p] for p in (a[1:] or FLAVOUR)}):
            exes, t = build(f)
            print("%s: %d executables, %.1f s" % (f, len(exes), t))
        return 0
    if a[0] == "replay":
        h = head(a[1])
        exes, _ = build(FLAVOUR[h["property"]])
        v = int(h["unicode"])
        rc, text = replay(exes[v], os.path.abspath(a[1]), v, os.path.join(BUILD, "replay-scratch"))
        print(text.strip())
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (h["property"], a[1]))
        return rc
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
