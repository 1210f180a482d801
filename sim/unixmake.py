#!/usr/bin/env python3
"""Simulated Unix build machine for Makefile and configure (property C25).

Same command line as the C++ simulators. Real make, sh, cp, rm, mkdir, find and so on run in a scratch tree as an
unprivileged user; unixtrap.c, loaded into each of them, traps the system calls that change files. cmake, ctest,
sudo, git, uname and the package builders are stand-ins (unixstub.cpp).
"""
import ctypes, os, re, shutil, signal, subprocess, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import winmake as wm
from winmake import NOBODY, T0, Violation, HarnessError, digest, read

TOOLDIR = os.environ.get("VERIF_UNIXTOOLS", "")
REPO = wm.REPO
HEADERS = sorted(f for f in os.listdir(os.path.join(REPO, "interface")) if f.endswith("hxx"))
LIBSRC = ["CMakeLists.txt", "packaging.cmake"] + ["interface/" + f for f in HEADERS] + ["interface/internal/string_decode_utf8.hxx", "source/string.cxx", "source/string_internal.hxx", "source/bits16/char_is_unicode.cxx"]
TESTSRC = ["test/unit/a_test.cxx", "test/unit/CMakeLists.txt", "mkUnicodeTestData/mkUnicodeTestData.cxx"]
OTHERSRC = ["FindANSAK.cmake", "submods/googletest/CMakeLists.txt", "README.md"]
EDITS = ["interface/string.hxx", "source/string.cxx", "source/string_internal.hxx", "source/bits16/char_is_unicode.cxx", "CMakeLists.txt", "test/unit/a_test.cxx", "FindANSAK.cmake", "packaging.cmake", "interface/string_trim.hxx", "mkUnicodeTestData/mkUnicodeTestData.cxx"]
FOREIGN = ["prefix/include/ansak/other.hxx", "prefix/include/zlib.h", "prefix/lib/libz.a", "prefix/readme.txt", "cmakeroot/Modules/FindOther.cmake", "home/include/mine.h", "home/lib/libmine.a", "home/include/ansak/other.hxx", "home/notes", "src/notes.txt"]
DIRS = ["home/include", "home/lib", "prefix/share"]
TARGETS = ["all", "test", "install", "install", "install", "uninstall", "uninstall", "clean", "clean", "scrub", "cmake-install", "cmake-uninstall"]
GUESS = {"all": 9, "test": 16, "install": 26, "uninstall": 8, "clean": 8, "scrub": 10, "cmake-install": 4, "cmake-uninstall": 2}


class World(wm.World):
    def __init__(self, root):
        self.root = root
        self.src, self.cmroot = os.path.join(root, "src"), os.path.join(root, "cmakeroot")
        self.now, self.ver, self.foreign, self.dirs = T0, {}, {}, []
        for d in ("src", "prefix", "home", "cmakeroot/Modules", "src/interface/internal", "src/source/bits16", "src/test/unit", "src/mkUnicodeTestData", "src/submods/googletest"):
            os.makedirs(os.path.join(root, d))
        for f in ("Makefile", "configure"):
            shutil.copy(os.path.join(REPO, f), os.path.join(self.src, f))
            os.chmod(os.path.join(self.src, f), 0o755)
        for f in LIBSRC + TESTSRC + OTHERSRC:
            self.edit(f)
        for r, d, f in os.walk(root):
            for n in d + f:
                os.chown(os.path.join(r, n), NOBODY, NOBODY)
        os.chown(root, NOBODY, NOBODY)
        self.settle()

    def put_dir(self, rel):
        p = os.path.join(self.root, rel)
        if not os.path.isdir(p):
            os.mkdir(p)
            os.chown(p, NOBODY, NOBODY)
            self.dirs.append(rel)


NAMES = ["cmake", "ctest", "sudo", "git", "uname", "dpkg-deb", "rpm", "debtap"]


def usable(d):
    """Programs can be started from there."""
    return os.access(d, os.W_OK) and not os.statvfs(d).f_flag & os.ST_NOEXEC


def prepare(scratch):
    """The tools, where an unprivileged user can reach them."""
    global TOOLDIR
    t = os.path.join(scratch, "tools")
    os.mkdir(t)
    for f in ("stub", "unixtrap.so"):
        shutil.copy(os.path.join(TOOLDIR, f), os.path.join(t, f))
        os.chmod(os.path.join(t, f), 0o755)
    for n in NAMES:
        os.symlink("stub", os.path.join(t, n))
    TOOLDIR = t


LIBC = ctypes.CDLL(None)


def run(w, argv, faults, uname):
    """Runs one command as the user would. Returns (exit status or 'stopped', trace lines, what ctest passed)."""
    sim = os.path.join(os.path.dirname(w.root), "sim")
    os.makedirs(sim, exist_ok=True)
    os.chmod(sim, 0o777)
    for n, t in (("plan", "".join("%s@%d\n" % (k, i) for i, k in sorted(faults.items()))), ("count", "0"), ("trace", ""), ("tested", ""), ("libdigest", w.srcdigest(LIBSRC)), ("testdigest", w.srcdigest(LIBSRC + TESTSRC))):
        with open(os.path.join(sim, n), "w") as f:
            f.write(t)
        os.chmod(os.path.join(sim, n), 0o666)
    env = {"PATH": TOOLDIR + ":/usr/bin:/bin", "HOME": os.path.join(w.root, "home"), "LC_ALL": "C", "SIM_ROOT": w.root, "SIM_DIR": sim, "SIM_UNAME": uname, "LD_PRELOAD": os.path.join(TOOLDIR, "unixtrap.so")}

    def before():
        os.setsid()
        os.umask(0o022)
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    p = subprocess.Popen(argv, cwd=w.src, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=before)
    try:
        rc = p.wait(30)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise Violation("hang", "'%s' did not end" % " ".join(argv))
    # what outlives the leader of a stopped group is on its way out
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    while True:
        try:
            os.waitpid(-1, 0)
        except ChildProcessError:
            break
    t = (read(os.path.join(sim, "trace")) or b"").decode(errors="replace").splitlines()
    for l in t:
        if l.startswith("VIOLATE "):
            m = w.anon(l).split(" ", 2)
            raise Violation(m[1], "'%s': %s" % (" ".join(argv).replace(w.root, "@"), m[2]))
    if rc in (97, 126):
        raise HarnessError("the trap could not be set")
    tested = (read(os.path.join(sim, "tested")) or b"").decode()
    # how make reports a signal that hit its whole group is a race of its own
    if rc < 0 or (rc != 0 and any(l in ("hit interrupt", "hit terminate") for l in t)):
        rc = "stopped"
    return rc, t, tested


def gen(r):
    lines = ["machine %s" % r.pick(["Linux", "Linux", "Linux", "MINGW64_NT-10.0", "CYGWIN_NT-10.0"])]

    def fault(text, maxop):
        for _ in range(r.pick([0, 0, 1, 1, 1, 2])):
            k = r.pick(["crash", "crash", "crash", "torn", "torn", "int", "term", "eacces", "enospc", "eio"])
            if k == "torn":
                k += str(r.pick([0, 1, 30, 50, 70, 99, 100]))
            text += " %s@%d" % (k, 1 + r.below(maxop))
        return text

    def conf(): return "configure unicode=%d prefix=%s cxx=%s" % (r.range(7, 16), r.pick(["prefix", "prefix", "home"]), r.pick(["g++", "g++", "clang++", ""]))
    lines.append(conf())
    focus = [r.pick(TARGETS) for _ in range(r.range(1, 3))]
    for _ in range(r.range(1, 8)):
        k = r.below(12)
        if k == 0:
            lines.append(fault(conf(), r.pick([17, 17, 24])))
            if r.chance(1, 2):
                lines.append("make " + r.pick(["all", "install", "test"]))
        elif k <= 2:
            lines.append("edit " + r.pick(EDITS))
        elif k == 3:
            lines.append("foreign " + r.pick(FOREIGN))
        elif k == 4:
            lines.append("dir " + r.pick(DIRS))
        else:
            t = [r.pick(focus if r.chance(2, 3) else TARGETS)]
            if r.chance(1, 6):
                t.append(r.pick(TARGETS))
            if r.chance(1, 20):
                t = []
            lines.append(fault("make " + " ".join(t), sum(GUESS[x] for x in t or ["all"])))
            if "@" in lines[-1] and r.chance(1, 3):     # what was left half done meets new sources
                lines.append("edit " + r.pick(EDITS))
                lines.append("make " + r.pick(["all", "install", "test"]))
    return lines


def execute2(lines, root, stats, follow):
    w = World(root)
    events, inter, steps, hits, uname = [], [], 0, 0, "Linux"
    cands = [None]                      # configurations (unicode, prefix, compiler) that may be in force
    used = set()                        # prefixes ever configured
    tested = ""

    def add(k, n=1): stats[k] = stats.get(k, 0) + n
    def bad(cls, text): raise Violation(cls, text)

    def do(argv, faults):
        nonlocal steps, hits, tested
        before = {f: read(os.path.join(w.src, f)) for f in list(w.ver) + ["Makefile", "configure"]}
        name = " ".join(argv).replace(w.root, "@")
        out, t, passed = run(w, argv, faults, uname)
        w.settle()
        events.extend(x.replace(w.root, "@") for x in t)
        events.append("%s -> %s" % (name, out))
        steps += sum(1 for x in t if re.match(r"\d+ ", x))
        for i, x in enumerate(t):
            if x.startswith("hit "):
                hits += 1
                add(x[4:])
                inter.extend(t[max(0, i - 1):i + 1])
        if passed:
            tested = passed
        for f, c in w.foreign.items():
            if read(os.path.join(w.root, f)) != c:
                bad("foreign-file", "'%s' %s %s, which it did not install" % (name, "removed" if read(os.path.join(w.root, f)) is None else "changed", f))
        for f in w.dirs:
            if f.split("/")[0] not in used and not os.path.isdir(os.path.join(w.root, f)):
                bad("foreign-file", "'%s' removed the directory %s, which it did not make" % (name, f))
        for f, c in before.items():
            if read(os.path.join(w.src, f)) != c:
                bad("source-file", "'%s' %s %s" % (name, "removed" if read(os.path.join(w.src, f)) is None else "changed", f))
        return out

    def configure(u, prefix, cxx, faults):
        used.add(prefix)
        out = do(["./configure", "--prefix", os.path.join(w.root, prefix), "--unicode-version", str(u)] + (["--compiler", cxx] if cxx else []), faults)
        c = (u, prefix, cxx or "g++")
        if out == 0:
            cands[:] = [c]
        elif c not in cands:
            # stopped or failed: the old configuration, the new one, or none
            cands.append(c)
        if out != 0 and None not in cands:
            cands.append(None)
        return out

    def want(path, content, why):
        c = read(path)
        if c != content:
            bad("not-done", "%s: %s %s" % (why, os.path.relpath(path, w.root), "is missing" if c is None else "is cut off" if content.startswith(c) else "is not the current one"))

    def gone(path, why):
        if os.path.lexists(path):
            bad("not-done", "%s: %s is still there" % (why, os.path.relpath(path, w.root)))

    def judge(l, out):
        if out != 0:
            return
        for c in list(cands):
            try:
                if c is not None or not set(wm.targets_of(l) or ["all"]) & {"all", "test", "install"}:
                    judge_as(l, c)
                    continue
                bad("not-done", "'make %s' reported success with no configuration" % " ".join(wm.targets_of(l)))
            except Violation:
                if len(cands) == 1:
                    raise
                cands.remove(c)

    def judge_as(l, c):
        ts = wm.targets_of(l) or ["all"]
        why = "'make %s' reported success" % " ".join(ts)
        # make does its goals in order; what a later one undoes is not asked for
        if len(ts) == 2 and ts[0] != ts[1]:
            last, both = ts[1], set(ts)
            if last in ("scrub", "clean") and ts[0] in ("all", "test", "clean", "scrub"):
                ts = [last]
            elif both in ({"install", "uninstall"}, {"cmake-install", "cmake-uninstall"}) or ts[0] in ("clean", "scrub"):
                ts = [last]
            # with 'clean all' make looks at the files before clean runs; that is make's own meaning of it
            if both & {"clean", "scrub"} and last in ("all", "test", "install"):
                return
        cache = "cache unicode=%s generator=Unix Makefiles cxx=%s end" % (c[0], c[2]) if c else ""
        lib = ("lib %s %s\n" % (cache, w.srcdigest(LIBSRC)) * 60).encode()
        B = os.path.join(w.src, "build")
        later = ts[-1] in ("clean", "scrub")
        for t in ts:
            if t in ("all", "test", "install") and not later:
                want(os.path.join(B, "libansakString.a"), lib, why)
            if t == "test" and tested != "%s %s" % (w.srcdigest(LIBSRC + TESTSRC), cache):
                bad("not-done", "%s: the tests have not passed on the current sources" % why)
            if t == "install":
                for h in HEADERS:
                    want(os.path.join(w.root, c[1], "include/ansak", h), read(os.path.join(w.src, "interface", h)), why)
                want(os.path.join(w.root, c[1], "lib/libansakString.a"), lib, why)
            if t == "uninstall" and c:
                for h in HEADERS:
                    gone(os.path.join(w.root, c[1], "include/ansak", h), why)
                gone(os.path.join(w.root, c[1], "lib/libansakString.a"), why)
            if t == "clean":
                for f in ("libansakString.a", "ansakStringTest", "all.touch", "test.touch", "CMakeCache.txt"):
                    gone(os.path.join(B, f), why)
            if t == "scrub":
                gone(B, why)
                gone(os.path.join(w.src, "config.make"), why)
            if t == "cmake-install":
                want(os.path.join(w.cmroot, "Modules/FindANSAK.cmake"), read(os.path.join(w.src, "FindANSAK.cmake")), why)
            if t == "cmake-uninstall":
                gone(os.path.join(w.cmroot, "Modules/FindANSAK.cmake"), why)

    def scrubbed(t, out):
        if "scrub" in t:
            if out == 0:
                cands[:] = [None]
            elif None not in cands:
                cands.append(None)

    for n, l in enumerate(lines):
        w.now += wm.step(n, l)
        x = l.split()
        k = x[0] if x else ""
        if k == "machine" and len(x) == 2:
            uname = x[1]
        elif k == "edit" and len(x) == 2 and x[1] in w.ver:
            w.edit(x[1])
            add("source_edit")
        elif k == "foreign" and len(x) == 2:
            w.put_foreign(x[1])
            add("foreign_file")
        elif k == "dir" and len(x) == 2:
            w.put_dir(x[1])
            add("foreign_file")
        elif k == "configure":
            m = re.search(r"unicode=(\d+) prefix=(\w+) cxx=(\S*)", l)
            if m:
                configure(int(m.group(1)), m.group(2), m.group(3), wm.faults_of(l))
                add("operations")
        elif k == "make":
            t = wm.targets_of(l)
            out = do(["make"] + t, wm.faults_of(l))
            add("operations")
            judge(l, out)
            scrubbed(t, out)
            events.append(w.snapshot())
    if follow:
        # the faults have stopped: the same wishes are now granted
        w.now += 10
        wishes = [wm.targets_of(l) for l in lines if l.startswith("make")]
        for t in wishes[-2:] + [["install"], "edit", ["install"], ["uninstall"]]:
            if t == "edit":             # and what changes from now on is noticed
                w.now += 1
                w.edit(EDITS[w.now % len(EDITS)])
                continue
            if None in cands or len(cands) > 1:
                w.now += 10
                if configure(16, "prefix", "", {}) != 0:
                    bad("stuck", "configure still fails once nothing is wrong any more")
            if set(t) & {"clean", "scrub"} and len(t) == 2 and t[0] in ("clean", "scrub"):
                t = t[:1]
            w.now += 10
            l = "make " + " ".join(t)
            out = do(["make"] + t, {})
            add("operations")
            if out != 0:
                bad("stuck", "'%s' still fails once nothing is wrong any more: %s" % (l, " | ".join(events[-4:])))
            judge(l, out)
            scrubbed(t, out)
            events.append(w.snapshot())
    add("simulated_seconds", w.now - T0)
    return digest(*events), digest(*inter), hits > 0, steps


if __name__ == "__main__":
    LIBC.prctl(36, 1, 0, 0, 0)          # PR_SET_CHILD_SUBREAPER: orphans of a stopped command are waited for here
    wm.PROP, wm.execute2, wm.gen, wm.usable, wm.prepare = "C25", execute2, gen, usable, prepare
    sys.exit(wm.main())
