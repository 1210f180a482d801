#!/usr/bin/env python3
"""Simulated consumer machine for FindANSAK.cmake (property C26).

Same command line as the C++ simulators. The installed cmake configures a small project that uses FindANSAK.cmake, as an
unprivileged user in a scratch tree, while installations arrive file by file, become unreadable for a while or go away;
unixtrap.c traps cmake's system calls that change files, for crashes and failures in the middle of a run.
"""
import os, re, shutil, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import winmake as wm
import unixmake as um
from winmake import NOBODY, T0, Violation, HarnessError, digest, read

CMAKE = shutil.which("cmake") or "cmake"
ROOTS = {"one": "one", "two": "two words"}
ARCHDIRS = {"x64": ["x64", "Win64", "x86_64", "x86-64", "amd64"], "Win32": ["Win32", "x86", "i386"], "ARM64": ["ARM64"], "ARM": ["ARM"]}
CONFIGS = ["Debug", "Release", "RelWithDebInfo", "MinSizeRel"]
PARTS = ["string", "ansak", "sqlite"]
LIBS = {"string": ("libansakString.a", "ansakString.lib"), "ansak": ("libansak.a", "ansak.lib"), "sqlite": ("libansakSqlite.a", "ansakSqlite.lib")}
HDRS = {"string": "string.hxx", "ansak": "runtime_exception.hxx", "sqlite": "sqlite_exception.hxx"}

CONSUMER = """cmake_minimum_required(VERSION 3.10)
project(consumer NONE)
if(SIM_PLATFORM)
    unset(UNIX)
    set(WIN32 1)
    set(CMAKE_FIND_LIBRARY_PREFIXES "" "lib")
    set(CMAKE_FIND_LIBRARY_SUFFIXES ".lib")
    set(CMAKE_GENERATOR "Visual Studio 17 2022")
    set(CMAKE_GENERATOR_PLATFORM ${SIM_PLATFORM})
endif()
list(INSERT CMAKE_MODULE_PATH 0 "${CMAKE_CURRENT_SOURCE_DIR}/modules")
find_package(ANSAK)
get_directory_property(dirs INCLUDE_DIRECTORIES)
file(WRITE "${CMAKE_BINARY_DIR}/result.txt" "found=${ANSAK_FOUND}
ansak=${ANSAK_LIB_FOUND}
sqlite=${ANSAK_SQLITE_FOUND}
include=${ANSAK_INCLUDE}
stringlib=${ANSAK_STRING_LIB}
ansaklib=${ANSAK_LIB}
sqlitelib=${ANSAK_SQLITE_LIB}
dirs=${dirs}
end=
")
"""


class World(wm.World):
    def __init__(self, root):
        self.root, self.src = root, os.path.join(root, "consumer")
        self.now, self.ver, self.foreign = T0, {}, {}
        for d in ("consumer/modules", "home", "build", "install"):
            os.makedirs(os.path.join(root, d))
        shutil.copy(os.path.join(wm.REPO, "FindANSAK.cmake"), os.path.join(self.src, "modules/FindANSAK.cmake"))
        with open(os.path.join(self.src, "CMakeLists.txt"), "w") as f:
            f.write(CONSUMER)
        for r, d, f in os.walk(root):
            for n in d + f:
                os.chown(os.path.join(r, n), NOBODY, NOBODY)
        os.chown(root, NOBODY, NOBODY)

    def srcdigest(self, files): return ""


def gen(r):
    platform = r.pick(["", "", "", "x64", "x64", "Win32", "ARM64", "ARM"])
    lines = ["machine %s" % (platform + " dir=" + r.pick(ARCHDIRS[platform]) if platform else "unix")]
    n = r.range(1, 3)
    for i in range(n):
        lines.append("project %d root=%s via=%s sqlite=%d isolate=%d" % (i, r.pick(sorted(ROOTS)), r.pick(["var", "var", "env"] if platform else ["var", "env", "prefix"]), r.chance(1, 2), r.chance(1, 4)))
    hurried = r.chance(1, 3)            # everything is there before the first run
    if hurried:
        for x in sorted(ROOTS):
            for p in PARTS[:r.range(1, 3)]:
                for k in ("lib", "hdr"):
                    lines.append("put %s %s %s" % (x, p, k))
    for _ in range(r.range(2, 14)):
        k = r.below(12)
        if k <= 4:
            lines.append("put %s %s %s" % (r.pick(sorted(ROOTS)), r.pick(PARTS + ["string"]), r.pick(["lib", "hdr"])))
        elif k == 5:
            lines.append("deny %s %s" % (r.pick(sorted(ROOTS)), r.pick(["lib", "hdr", "all"])))
        elif k == 6:
            lines.append("allow %s" % r.pick(sorted(ROOTS)))
        elif k == 7 and r.chance(1, 3):
            lines.append("uninstall %s" % r.pick(sorted(ROOTS)))
        elif k == 7:
            lines.append("fresh %d" % r.below(n))
        else:
            l = "cmake %d" % r.below(n)
            for _ in range(r.pick([0, 0, 0, 1, 1, 2])):
                f = r.pick(["crash", "crash", "torn", "int", "term", "eacces", "enospc", "eio"])
                if f == "torn":
                    f += str(r.pick([0, 1, 30, 50, 70, 99, 100]))
                l += " %s@%d" % (f, 1 + r.below(r.pick([8, 40])))
            lines.append(l)
    return lines


def execute2(lines, root, stats, follow):
    w = World(root)
    events, inter, steps, hits = [], [], 0, 0
    platform, archdir = "", ""
    projects = {}                       # number -> (root, via, sqlite, isolate)
    have = {x: set() for x in ROOTS}    # what has been installed: (part, "lib" or "hdr")
    denied = {x: False for x in ROOTS}
    hurt = set()                        # build directories in which cmake has met a fault

    def add(k, n=1): stats[k] = stats.get(k, 0) + n
    def bad(cls, text): raise Violation(cls, text)
    def at(x, *more): return os.path.join(w.root, "install", ROOTS[x], *more)
    def libdirs(x): return [at(x, "lib", archdir, c) for c in CONFIGS] if platform else [at(x, "lib")]

    def put(x, part, kind):
        for d in libdirs(x) if kind == "lib" else [at(x, "include", "ansak")]:
            p = os.path.join(d, LIBS[part][bool(platform)] if kind == "lib" else HDRS[part])
            os.makedirs(d, exist_ok=True)
            with open(p, "w") as f:
                f.write(part)
        have[x].add((part, kind))

    def permit(x, what, mode):
        for k, d in (("lib", at(x, "lib")), ("hdr", at(x, "include"))):
            if what in (k, "all") and os.path.isdir(d):
                os.chmod(d, mode)
                denied[x] = denied[x] or mode == 0

    def judge(name, x, sqlite, isolate, out, hit, before, result):
        got = dict(l.split("=", 1) for l in result.splitlines() if "=" in l)
        whole = "end" in got
        complete = {("string", "lib"), ("string", "hdr")} <= have[x]
        yes = lambda v: v.upper() in ("1", "ON", "TRUE", "YES", "Y")
        if out == 0 and not complete:
            bad("false-success", "%s succeeded although the string library is not installed: %s" % (name, " ".join(sorted(p + "-" + k for p, k in have[x]))))
        if out != 0:
            if complete and not hit and not denied[x]:
                bad("not-found", "%s failed although the string library is installed" % name)
            return
        if not whole:
            if not hit and not before:
                raise HarnessError("no result")
            return
        if not yes(got["found"]):
            bad("not-found", "%s succeeded without ANSAK_FOUND although the string library is installed" % name)
        for p in ("ansak", "sqlite"):
            there = {(p, "lib"), (p, "hdr")} <= have[x] and (p != "sqlite" or sqlite)
            if yes(got[p]) and not there:
                bad("false-success", "%s reported the %s component, which is not installed" % (name, p))
            if there and not yes(got[p]) and not denied[x]:
                bad("not-found", "%s did not report the %s component, which is installed" % (name, p))
        for p, v in (("string", got["stringlib"]),) + tuple((p, got[p + "lib"]) for p in ("ansak", "sqlite") if yes(got[p])):
            wantlib = at(x, "lib", archdir, "$<CONFIG>", LIBS[p][1]) if platform else at(x, "lib", LIBS[p][0])
            if v != wantlib:
                bad("wrong-path", "%s set the %s library to '%s'" % (name, p, v))
        if got["include"] != at(x, "include"):
            bad("wrong-path", "%s set ANSAK_INCLUDE to '%s'" % (name, got["include"]))
        if (at(x, "include") in got["dirs"].split(";")) == isolate or len(got["dirs"].split(";")) > 1:
            bad("wrong-path", "%s left the include directories '%s'" % (name, got["dirs"]))

    def cmake(n, faults):
        nonlocal steps, hits
        x, via, sqlite, isolate = projects[n]
        b = os.path.join(w.root, "build", str(n))
        res = os.path.join(b, "result.txt")
        if os.path.exists(res):
            os.unlink(res)
        argv = ["env"] + (["ANSAK_DIR=" + at(x)] if via == "env" else []) + [CMAKE, "-S", ".", "-B", b]
        argv += ["-DANSAK_DIR=" + at(x)] if via == "var" else ["-DCMAKE_PREFIX_PATH=" + at(x)] if via == "prefix" else []
        argv += ["-DSIM_PLATFORM=" + platform] if platform else []
        argv += ["-DSQLite3_FOUND=1"] if sqlite else []
        argv += ["-DANSAK_ISOLATE=1"] if isolate else []
        name = "cmake for %s%s" % (via + " " + ROOTS[x], " (%s)" % platform if platform else "")
        out, t, _ = um.run(w, argv, faults, "Linux")
        t = [re.sub(r"(\.tmp|CMakeScratch/|CMakeTmp/)[\w.-]+", r"\1", l.replace(w.root, "@")) for l in t]
        events.extend(t)
        events.append("%s -> %s" % (name, out))
        steps += sum(1 for l in t if re.match(r"\d+ ", l))
        hit = False
        for i, l in enumerate(t):
            if l.startswith("hit "):
                hits, hit = hits + 1, True
                add(l[4:])
                inter.extend(t[max(0, i - 1):i + 1])
        inter.append("%s %s %s" % (sorted(have[x]), denied[x], out))
        add("operations")
        before = n in hurt
        if hit:
            hurt.add(n)
        try:
            judge(name, x, sqlite, isolate, out, hit, before, (read(res) or b"").decode())
        except Violation:
            if not before:
                raise
            if not hit:
                # cmake does not always recover from its own half-written files: the user starts afresh
                add("fresh_start")
                shutil.rmtree(b, ignore_errors=True)
                hurt.discard(n)
                return cmake(n, faults)
        return out

    for l in lines:
        x = l.split()
        k = x[0] if x else ""
        w.now += 60
        if k == "machine" and len(x) == 3:
            platform, archdir = x[1], x[2][4:]
        elif k == "project":
            m = re.search(r"(\d+) root=(\w+) via=(\w+) sqlite=(\d) isolate=(\d)", l)
            if m and m.group(2) in ROOTS:
                projects[int(m.group(1))] = (m.group(2), m.group(3), m.group(4) == "1", m.group(5) == "1")
        elif k == "put" and len(x) == 4 and x[1] in ROOTS and x[2] in PARTS:
            put(*x[1:])
            add("file_installed")
        elif k == "deny" and len(x) == 3 and x[1] in ROOTS:
            permit(x[1], x[2], 0)
            add("unreadable_installation")
        elif k == "allow" and len(x) == 2 and x[1] in ROOTS:
            permit(x[1], "all", 0o755)
            denied[x[1]] = False
        elif k == "uninstall" and len(x) == 2 and x[1] in ROOTS:
            # what cmake has found once it does not look for again: those build directories go too
            shutil.rmtree(at(x[1]), ignore_errors=True)
            have[x[1]].clear()
            denied[x[1]] = False
            for n, p in projects.items():
                if p[0] == x[1]:
                    shutil.rmtree(os.path.join(w.root, "build", str(n)), ignore_errors=True)
                    hurt.discard(n)
            add("uninstall")
        elif k == "fresh" and len(x) == 2 and x[1].isdigit():
            shutil.rmtree(os.path.join(w.root, "build", x[1]), ignore_errors=True)
            hurt.discard(int(x[1]))
        elif k == "cmake" and len(x) >= 2 and x[1].isdigit() and int(x[1]) in projects:
            cmake(int(x[1]), wm.faults_of(l))
    if follow:
        # the faults have stopped and the installations are completed
        for x in ROOTS:
            permit(x, "all", 0o755)
            denied[x] = False
        for p in PARTS:
            for x in ROOTS:
                put(x, p, "lib")
                put(x, p, "hdr")
            for n in sorted(projects):
                cmake(n, {})
    add("simulated_seconds", w.now - T0)
    return digest(*events), digest(*inter), hits > 0 or len(inter) > 2, steps


if __name__ == "__main__":
    um.LIBC.prctl(36, 1, 0, 0, 0)
    wm.PROP, wm.execute2, wm.gen, wm.usable, wm.prepare = "C26", execute2, gen, um.usable, um.prepare
    sys.exit(wm.main())
