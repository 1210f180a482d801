#!/usr/bin/env python3
"""Simulated Windows build machine for make.py and configure.py (property C24).

Same command line as the C++ simulators. The real scripts run in a forked, unprivileged child in a scratch
tree; every file operation and every program they start passes a seam that fails, tears or crashes it on the
orders of the case. cmake, ctest, makensis, git and cmd are stand-ins working on the same tree.
"""
import argparse, builtins, errno, fnmatch, gettext, hashlib, locale, pathlib, io, itertools, json, os, re, shutil, signal, stat, subprocess, sys, tempfile, time

REPO = os.environ.get("VERIF_REPO", "/repo")
CONFIGS = ("Release", "Debug", "RelWithDebInfo", "MinSizeRel")
ARCHS = ("Win32", "x64")
NOBODY = 65534
PROP = "C24"
T0 = 10 ** 9
LIMIT_OPS = 5000


# ------------------------------------------------------------------ PRNG and hashing, as in sim.h
class Rng:
    M = (1 << 64) - 1

    def __init__(self, s): self.s = s & self.M

    def next(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & self.M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & self.M
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & self.M
        return z ^ (z >> 31)

    def below(self, n): return self.next() % n if n else 0
    def range(self, a, b): return a + self.below(b - a + 1)
    def chance(self, a, b): return self.below(b) < a
    def pick(self, l): return l[self.below(len(l))]


def digest(*parts): return hashlib.sha256("\0".join(str(p) for p in parts).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ the world
SCRIPTS = ("make.py", "project.py", "configure.py", "choosep3.py")


def read(p):
    try:
        with REAL["open"](p, "rb") as f:
            return f.read()
    except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
        return None


REAL = {"open": io.open}


def anon(t, root):
    if root[:9] in t:
        for n in range(len(root), 8, -1):
            t = t.replace(root[:n], "@" if n == len(root) else "@%d" % n)
    return t


class World:
    """The tree of one history: src (the checkout), prefix, cmakeroot."""

    def __init__(self, root):
        self.root = root
        self.src, self.prefix, self.cmroot = (os.path.join(root, d) for d in ("src", "prefix", "cmakeroot"))
        self.now = T0
        self.ver = {}
        for d in (self.src, self.prefix, os.path.join(self.cmroot, "Modules")):
            os.makedirs(d)
        for d in ("interface/internal", "source", "source/bits16", "test/unit", "mkUnicodeTestData", "NSIS", "submods/googletest"):
            os.makedirs(os.path.join(self.src, d))
        for s in SCRIPTS:
            if os.path.exists(os.path.join(REPO, s)):
                shutil.copy(os.path.join(REPO, s), os.path.join(self.src, s))
        iface = sorted(f for f in os.listdir(os.path.join(REPO, "interface")) if f.endswith("hxx"))
        nsis = sorted(os.listdir(os.path.join(REPO, "NSIS")))
        self.libsrc = ["CMakeLists.txt"] + ["interface/" + f for f in iface] + ["interface/internal/string_decode_utf8.hxx", "source/string.cxx", "source/string_internal.hxx", "source/bits16/char_is_unicode.cxx"]
        self.testsrc = ["test/unit/a_test.cxx", "test/unit/CMakeLists.txt", "mkUnicodeTestData/mkUnicodeTestData.cxx"]
        self.pkgsrc = ["NSIS/" + f for f in nsis] + ["FindANSAK.cmake"]
        self.headers = ["interface/" + f for f in iface]
        for f in self.libsrc + self.testsrc + self.pkgsrc + ["submods/googletest/CMakeLists.txt", "README.md"]:
            self.edit(f)
        self.foreign = {}
        for r, d, f in os.walk(root):
            for n in d + f:
                os.chown(os.path.join(r, n), NOBODY, NOBODY)
        os.chown(root, NOBODY, NOBODY)
        self.tests = {}         # arch -> digest of the sources whose tests passed last
        self.settle()

    def edit(self, f):
        self.ver[f] = self.ver.get(f, 0) + 1
        p = os.path.join(self.src, f)
        body = "%s version %d\n" % (f, self.ver[f])
        if f == "CMakeLists.txt":
            body = "cmake_minimum_required(VERSION 3.0)\nproject(ansakString VERSION 2.0.%d)\n" % self.ver[f] + body
        body += "".join("%s %d %d\n" % (f, self.ver[f], i) for i in range(40))
        with REAL["open"](p, "w") as o:
            o.write(body)
        os.chown(p, NOBODY, NOBODY)
        os.utime(p, (self.now, self.now))

    def put_foreign(self, rel):
        p = os.path.join(self.root, rel)
        d = os.path.dirname(p)
        made = []
        while not os.path.isdir(d):
            made.append(d)
            d = os.path.dirname(d)
        for d in reversed(made):
            os.mkdir(d)
            os.chown(d, NOBODY, NOBODY)
        if os.path.exists(p):
            return
        with REAL["open"](p, "w") as o:
            o.write("somebody else's " + rel)
        os.chown(p, NOBODY, NOBODY)
        self.foreign[rel] = read(p)

    def settle(self):
        """Files written by a run carry the time of the machine; give them the simulated time."""
        for r, _, f in os.walk(self.root):
            for n in f:
                p = os.path.join(r, n)
                if os.stat(p).st_mtime > 1.5e9:
                    os.utime(p, (self.now, self.now))

    def srcdigest(self, files): return digest(*[read(os.path.join(self.src, f)) for f in files])

    def anon(self, t):
        """Keeps the scratch directory's name, whole or torn, out of hashes."""
        return anon(t, self.root)

    def snapshot(self):
        out = []
        for r, d, f in os.walk(self.root):
            d.sort()
            out.append(os.path.relpath(r, self.root) + "/")
            for n in sorted(f):
                p = os.path.join(r, n)
                c = read(p)
                out.append("%s %s" % (os.path.relpath(p, self.root), digest(self.anon(c.decode(errors="replace")) if c else c)))
        return digest(*out)


# ------------------------------------------------------------------ stand-ins for the programs make.py starts
def libtext(w, cache, arch, config): return "lib %s %s %s %s\n" % (arch, config, cache, w.srcdigest(w.libsrc)) * 60
def pdbtext(w, cache, arch, config): return "pdb %s %s %s %s\n" % (arch, config, cache, w.srcdigest(w.libsrc)) * 60


def cachetext(unicode_version, generator, arch): return "cache unicode=%s generator=%s arch=%s" % (unicode_version, generator, arch)


def nsistext(d, unicode_version):
    parts = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for n in sorted(fs):
            if not n.endswith("-setup.exe"):
                parts += [os.path.relpath(os.path.join(r, n), d), read(os.path.join(r, n))]
    return "setup %s\n" % digest(*parts) * 200


class Tools:
    def __init__(self, w, case): self.w, self.case = w, case

    def write(self, p, text, torn):
        b = text.encode()
        with REAL["open"](p, "wb") as f:
            f.write(b[:len(b) * torn // 100] if torn >= 0 else b)

    def run(self, args, cwd, torn=-1):
        """Returns (exit status, output). torn >= 0: the program is killed after writing that share of its product."""
        w = self.w
        a = [str(x) for x in args]
        if a[0].lower().endswith("cmd.exe") or a[0].lower() == "cmd":
            a = a[2:]
        name = os.path.basename(a[0].replace("\\", "/")).lower()
        here = os.path.join(w.src, (cwd or ".").replace("\\", "/"))
        if name in ("cmake", "cmake.exe"):
            if a[1] == "--help":
                return 0, "Generators\n* Visual Studio 17 2022        = Generates\n  Visual Studio 16 2019 [arch] = Generates\n  Ninja = x\n"
            if a[1] == "--system-information":
                return 0, 'Avoid ctest truncation\nCMAKE_ROOT "%s"\nOTHER "x"\n' % w.cmroot
            if a[1] == "--build":
                d = os.path.join(w.src, a[2].replace("\\", "/"))
                opt = dict(zip(a[3::2], a[4::2]))
                cache = read(os.path.join(d, "CMakeCache.txt"))
                if cache is None or not cache.endswith(b"end"):
                    return 1, "no cache"
                cache = cache.decode()[:-3]
                arch, config, target = os.path.basename(d), opt.get("--config", "Debug"), opt.get("--target", "ALL_BUILD")
                out = os.path.join(d, config)
                if not os.path.isdir(out):
                    os.mkdir(out)
                if target.lower() == "ansakstring":
                    self.write(os.path.join(out, "ansakString.lib"), libtext(w, cache, arch, config), torn)
                    if torn < 0 and config in ("Debug", "RelWithDebInfo"):
                        self.write(os.path.join(out, "ansakString.pdb"), pdbtext(w, cache, arch, config), torn)
                elif target.lower() == "ansakstringtest":
                    self.write(os.path.join(out, "ansakStringTest.exe"), "test %s %s\n" % (cache, w.srcdigest(w.libsrc + w.testsrc)), torn)
                else:
                    return 1, "no such target"
                return 0, ""
            if not os.path.isfile(os.path.join(here, a[1].replace("\\", "/"), "CMakeLists.txt")):
                return 1, "no CMakeLists.txt"
            u = [x for x in a if x.startswith("-DANSAK_UNICODE_SUPPORT=")]
            g = a[a.index("-G") + 1] if "-G" in a else "?"
            ar = a[a.index("-A") + 1] if "-A" in a else "?"
            self.write(os.path.join(here, "CMakeCache.txt"), cachetext(u[0].split("=")[1] if u else "?", g, ar) + "end", torn)
            return 0, ""
        if name in ("ctest", "ctest.exe"):
            exe = read(os.path.join(here, "Release", "ansakStringTest.exe"))
            cache = read(os.path.join(here, "CMakeCache.txt"))
            want = "test %s %s\n" % (cache.decode()[:-3] if cache else "", w.srcdigest(w.libsrc + w.testsrc))
            if exe is None or torn >= 0:
                return 8, "no tests"
            if exe.decode() == want:
                trace("tested %s %s" % (os.path.basename(here), digest(want)))
            return 0, ""
        if "makensis" in name:
            if a[1] == "/VERSION":
                return 0, "v3.08\n"
            v = read(os.path.join(here, "ansakVersion.nsh"))
            m = re.search(rb"ANSAK_UNICODE_SUPPORT (\S+)", v or b"")
            if not m or read(os.path.join(here, a[1])) is None:
                return 1, "no script"
            u = m.group(1).decode()
            self.write(os.path.join(here, "ansak-string-u%s-setup.exe" % u), nsistext(here, u), torn)
            return 0, ""
        if name in ("rmdir", "rd"):
            p = os.path.join(here, a[-1].replace("\\", "/"))
            if torn >= 0:
                for r, _, f in list(os.walk(p))[:1]:
                    for n in sorted(f):
                        REAL["unlink"](os.path.join(r, n))
                return 0, ""
            if not inside(p):
                violate("escape", "rmdir of " + p)
            shutil.rmtree(p)
            return 0, ""
        if name in ("git", "git.exe"):
            return 0, ""
        return 9009, "not found"


# ------------------------------------------------------------------ the seam, inside the child
REALPATH = {}
REAL["realpath"] = os.path.realpath
ROOT = None
TRACE_FD = -1
OPS = 0
FAULTS = {}
BUSY = False


def trace(s): REAL["write"](TRACE_FD, (s.replace(ROOT, "@").replace("\n", "\\n") + "\n").encode())


def violate(cls, detail):
    trace("VIOLATE %s %s" % (cls, detail))
    os._exit(77)


def tr(p):
    """Windows' idea of a path, as one of the scratch tree."""
    if isinstance(p, int) or p is None:
        return p
    p = os.fspath(p)
    return p.replace(b"\\", b"/") if isinstance(p, bytes) else p.replace("\\", "/")


def inside(p):
    d = os.path.dirname(os.path.join(os.getcwd(), tr(p))) or "."
    r = REALPATH.get(d)
    if r is None:       # the scripts have no way to make links, so this does not change
        r = REALPATH[d] = REAL["realpath"](d)
    return r == ROOT or r.startswith(ROOT + "/")


def seam(kind, what):
    """One operation; returns the fault that hits it, if it is not a crash."""
    global OPS
    if BUSY:
        return None
    OPS += 1
    if OPS > LIMIT_OPS:
        violate("endless", "more than %d operations" % LIMIT_OPS)
    trace("%d %s %s" % (OPS, kind, what))
    f = FAULTS.get(OPS)
    if f is None:
        return None
    if f == "crash":
        trace("hit crash at %s" % kind)
        os._exit(78)
    return f


def oserror(f, p):
    e = {"eacces": errno.EACCES, "enospc": errno.ENOSPC, "eio": errno.EIO}.get(f, errno.EIO)
    trace("hit %s" % f)
    return OSError(e, os.strerror(e), str(p))


class Raw(io.RawIOBase):
    def __init__(self, path, mode, opener=None):
        super().__init__()
        self.f = REAL["open"](path, mode, buffering=0, **({"opener": opener} if opener else {}))
        self.path, self.w = path, any(c in mode for c in "wax+")
        self.name = path

    def readable(self): return self.f.readable()
    def writable(self): return self.f.writable()
    def seekable(self): return self.f.seekable()
    def seek(self, *a): return self.f.seek(*a)
    def tell(self): return self.f.tell()
    def truncate(self, *a): return self.f.truncate(*a)
    def fileno(self): return self.f.fileno()
    def readinto(self, b): return self.f.readinto(b)

    def write(self, b):
        b = bytes(b)
        f = seam("write", "%s %d" % (self.path, len(b)))
        if f and f.startswith("torn"):
            self.f.write(b[:len(b) * int(f[4:]) // 100])
            trace("hit torn write")
            os._exit(78)
        if f == "enospc" or f == "eio":
            self.f.write(b[:len(b) // 2])
            raise oserror(f, self.path)
        return self.f.write(b)

    def close(self):
        if not self.closed:
            super().close()
            self.f.close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errs=None, newline=None, closefd=True, opener=None, errors=None):
    if isinstance(file, int) or BUSY:
        return REAL["open"](file, mode, buffering, encoding, errs or errors, newline, closefd, opener)
    p = tr(file)
    writing = any(c in mode for c in "wax+")
    if writing and not inside(p):
        violate("escape", "open for writing of %s" % p)
    if writing or (inside(p) and not str(p).endswith((".py", ".pyc"))):
        f = seam("open-" + ("w" if writing else "r"), p)
        if f and (writing or f in ("eacces", "eio")) and not f.startswith("torn"):
            raise oserror(f, p)
    raw = Raw(p, "".join(c for c in mode if c in "rwax+") + "b", opener)
    buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw) if writing else io.BufferedReader(raw)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errs or errors, newline)
    t.mode = mode
    return t


def wrap(name, kind, npaths=1, faults=("eacces", "eio", "enospc")):
    real = getattr(os, name)
    REAL[name] = real

    def f(*a, **k):
        a = list(a)
        for i in range(min(npaths, len(a))):
            a[i] = tr(a[i])
        if kind and not BUSY:
            for i in range(min(npaths, len(a))):
                if not isinstance(a[i], int) and not k.get("dir_fd") and not inside(a[i]):
                    violate("escape", "%s of %s" % (kind, a[i]))
            hit = seam(kind, " ".join(str(x) for x in a[:npaths]))
            if hit and not hit.startswith("torn"):
                raise oserror(hit if hit in faults else faults[0], a[0])
        return real(*a, **k)
    setattr(os, name, f)


class Sorted:
    def __init__(self, it): self.l = iter(sorted(it, key=lambda e: e.name))
    def __iter__(self): return self.l
    def __next__(self): return next(self.l)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass


class SimPopen:
    """Stands in for subprocess.Popen."""
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, text=None, encoding=None, errors=None, **k):
        global BUSY
        self.args = args
        if isinstance(args, str):
            args = args.split()
        args = [os.fspath(a) for a in args]
        cwd = tr(cwd) if cwd else cwd
        f = seam("program", " ".join(str(a) for a in args) + (" in " + str(cwd) if cwd else ""))
        if cwd and not os.path.isdir(cwd):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), cwd)
        if f == "missing":
            trace("hit missing program")
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), args[0])
        BUSY = True
        try:
            if f and f.startswith("torn"):
                TOOLS.run(args, cwd, int(f[4:]))
                trace("hit crash during a program")
                os._exit(78)
            if f == "toolfail":
                TOOLS.run(args, cwd, 0)
                trace("hit failing program")
                rc, out = 1, "failed\n"
            elif f in ("eacces", "enospc", "eio", "toolnoop"):
                trace("hit failing program")
                rc, out = 2, "failed\n"
            else:
                rc, out = TOOLS.run(args, cwd)
        except OSError as e:
            rc, out = 1, str(e)
        finally:
            BUSY = False
        self.returncode = None
        self._rc = rc
        trace("rc %d" % rc)
        self.pid = 4242
        b = io.BytesIO(out.encode())
        self.stdout = (io.TextIOWrapper(b) if (text or universal_newlines or encoding) else b) if stdout == subprocess.PIPE else None
        self.stderr = None
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    poll = wait

    def communicate(self, input=None, timeout=None):
        self.wait()
        return (self.stdout.read() if self.stdout else None), None

    def kill(self): pass
    terminate = kill
    def __enter__(self): return self
    def __exit__(self, *a): self.wait(); return False


TOOLS = None


def child(w, code, argv, faults):
    """Runs one script as the user would; never returns."""
    global ROOT, FAULTS, TOOLS
    status = 1
    try:
        ROOT, FAULTS = w.root, faults
        TOOLS = Tools(w, None)
        REAL["write"] = os.write
        nul = os.open("/dev/null", os.O_RDWR)
        for i in (0, 1, 2):
            os.dup2(nul, i)
        os.chdir(w.src)
        os.umask(0o022)
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
        sys.stdout = REAL["open"](1, "w", closefd=False)
        sys.stderr = REAL["open"](2, "w", closefd=False)
        sys.dont_write_bytecode = True
        sys.path.insert(0, w.src)
        sys.argv = list(argv)
        for k in list(os.environ):
            if k not in ("PATH", "HOME"):
                del os.environ[k]
        for n in ("mkdir", "rmdir", "utime", "chmod"):
            wrap(n, n)
        for n in ("unlink", "remove"):
            wrap(n, "unlink")
        for n in ("rename", "replace"):
            wrap(n, "rename", 2)
        for n in ("stat", "lstat", "access", "chown", "truncate", "readlink"):
            wrap(n, None)
        rl, rs = os.listdir, os.scandir
        os.listdir = lambda p=".": sorted(rl(tr(p)))
        os.scandir = lambda p=".": Sorted(rs(tr(p)))
        builtins.open = sim_open
        io.open = sim_open
        for n in ("system", "popen", "execv", "execve", "execvp", "kill", "removexattr", "setxattr", "mkfifo", "mknod", "link", "symlink", "posix_spawn", "startfile"):
            if hasattr(os, n):
                setattr(os, n, lambda *a, **k: violate("escape", "a call that leaves the simulation"))
        shutil._USE_CP_SENDFILE = False
        shutil._use_fd_functions = False
        shutil._HAS_FCOPYFILE = False
        subprocess.Popen = SimPopen
        signal.alarm(30)
        g = {"__name__": "__main__", "__file__": argv[0], "__builtins__": builtins}
        try:
            exec(code, g)
            status = 0
        except SystemExit as e:
            c = e.code
            status = 0 if c is None else (c if isinstance(c, int) else 1)
            # the status of a Windows process is 32 bits wide
            status = 0 if status == 0 else 1
        except OSError as e:
            trace("exception %s %s" % (type(e).__name__, e.strerror))
            status = 1
        except Exception as e:
            trace("exception %s" % type(e).__name__)
            status = 1
        try:
            sys.stdout.flush()
        except Exception:
            pass
        trace("ended after %d operations" % OPS)
    except BaseException as e:
        try:
            trace("HARNESS %r" % (e,))
        finally:
            os._exit(79)
    os._exit(status)


CODE = {}


def run_script(w, argv, faults):
    """Returns (outcome, trace lines); outcome is an exit status or 'crash'."""
    global TRACE_FD
    if argv[0] not in CODE:
        CODE[argv[0]] = compile(read(os.path.join(w.src, argv[0])).decode(), argv[0], "exec")
    tf = os.path.join(os.path.dirname(w.root), "trace")
    TRACE_FD = os.open(tf, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    pid = os.fork()
    if pid == 0:
        child(w, CODE[argv[0]], argv, faults)
    _, st = os.waitpid(pid, 0)
    os.lseek(TRACE_FD, 0, 0)
    t = b""
    while True:
        b = os.read(TRACE_FD, 1 << 16)
        if not b:
            break
        t += b
    os.close(TRACE_FD)
    lines = t.decode(errors="replace").splitlines()
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == signal.SIGALRM:
            raise Violation("hang", "%s did not end" % " ".join(argv))
        raise HarnessError("child ended by signal %d" % os.WTERMSIG(st))
    rc = os.WEXITSTATUS(st)
    if rc == 79:
        raise HarnessError(lines[-1])
    if rc == 77:
        m = [l for l in lines if l.startswith("VIOLATE ")][0].split(" ", 2)
        raise Violation(m[1], "%s: %s" % (" ".join(argv), m[2]))
    return ("crash" if rc == 78 else rc), lines


class Violation(Exception):
    def __init__(self, cls, detail): self.cls, self.detail = cls, detail


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ cases
TARGETS = ["all", "test", "install", "install", "install", "package", "package", "uninstall", "clean", "scrub", "cmake-install", "cmake-uninstall"]
FOREIGN = ["prefix/include/ansak/other.hxx", "prefix/include/zlib.h", "prefix/lib/other.lib", "prefix/lib/Win32/Release/other.lib", "prefix/lib/x64/other.txt", "prefix/readme.txt", "cmakeroot/Modules/FindOther.cmake", "cmakeroot/other", "prefix/lib/x64/Debug/other.pdb"]
EDITS = ["interface/string.hxx", "source/string.cxx", "source/string_internal.hxx", "source/bits16/char_is_unicode.cxx", "CMakeLists.txt", "test/unit/a_test.cxx", "NSIS/ansak-string.nsi", "FindANSAK.cmake", "interface/string_trim.hxx", "mkUnicodeTestData/mkUnicodeTestData.cxx"]


def gen(r):
    lines = ["configure unicode=%d nsis=%d" % (r.range(7, 16), r.chance(3, 4))]

    def fault(text, maxop):
        # a guess of where such a command ends; only the chance to hit something depends on it
        n = r.pick([0, 0, 1, 1, 1, 2])
        for _ in range(n):
            k = r.pick(["crash", "crash", "torn", "torn", "eacces", "enospc", "eio", "missing", "toolfail", "toolnoop"])
            if k == "torn":
                k += str(r.pick([0, 1, 30, 50, 70, 99, 100]))
            c = r.below(4)
            text += " %s@%d" % (k, 1 + (r.below(maxop) if c < 2 else r.below(30) if c == 2 else max(0, maxop - 1 - r.below(16))))
        return text
    focus = [r.pick(TARGETS) for _ in range(r.range(1, 3))]
    for _ in range(r.range(1, 8)):
        k = r.below(12)
        if k == 0:
            lines.append(fault("configure unicode=%d nsis=%d" % (r.range(7, 16), r.chance(3, 4)), 9))
        elif k <= 2:
            lines.append("edit " + r.pick(EDITS))
        elif k == 3:
            lines.append("foreign " + r.pick(FOREIGN))
        else:
            t = [r.pick(focus if r.chance(2, 3) else TARGETS)]
            if r.chance(1, 5):
                t.append(r.pick(TARGETS))
            if r.chance(1, 20):
                t = []
            lines.append(fault("make " + " ".join(t), sum({"all": 15, "test": 21, "install": r.pick([103, 88]), "package": r.pick([138, 117, 123]), "uninstall": 26, "clean": 40, "scrub": 4, "cmake-install": 6, "cmake-uninstall": 2}[x] for x in t or ["all"])))
            if "@" in lines[-1] and r.chance(1, 3):     # what was left half done meets new sources
                lines.append("edit " + r.pick(EDITS))
                lines.append("make " + r.pick(["all", "install", "test"]))
    return lines


def step(n, l):
    """What passes on the clock before the n-th command: often a second only."""
    h = int(digest(n, l)[:5], 16)
    return 1 if h % 3 == 0 else 2 + h % 60 if h % 3 == 1 else 2 + (h >> 4)


def targets_of(l): return [x for x in l.split()[1:] if "@" not in x]


def faults_of(l):
    f = {}
    for x in l.split()[1:]:
        m = re.fullmatch(r"([a-z]+\d*)@(\d+)", x)
        if m:
            f[int(m.group(2))] = m.group(1)
    return f


def execute(lines, scratch, stats, follow=True):
    """Runs the case; raises Violation. Returns (hash, interleaving hash, nontrivial, steps)."""
    root = os.path.join(scratch, "w")
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    try:
        return execute2(lines, os.path.realpath(root), stats, follow)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def execute2(lines, root, stats, follow):
    w = World(root)
    events, inter, steps, hits = [], [], 0, 0
    conf = {"unicode": None}
    cands = [None]              # the configurations that may be in force; None: not configured

    def add(k, n=1): stats[k] = stats.get(k, 0) + n

    def bad(cls, text): raise Violation(cls, text)

    def do(argv, faults):
        nonlocal steps, hits
        before = {f: read(os.path.join(w.src, f)) for f in w.ver}
        out, t = run_script(w, argv, faults)
        w.settle()
        events.extend(t)
        events.append("%s -> %s" % (" ".join(argv), out))
        n = sum(1 for x in t if re.match(r"\d+ ", x))
        steps += n
        for x in t:
            if x.startswith("hit "):
                hits += 1
                add(x[4:].split(" at ")[0].replace(" ", "_"))
                inter.append(x)
                inter.append(events[-2] if events else "")
            if x.startswith("tested "):
                _, arch, d = x.split()
                w.tests[arch] = d
        # whatever happened: nobody else's files are touched
        for f, c in w.foreign.items():
            if read(os.path.join(w.root, f)) != c:
                bad("foreign-file", "'%s' %s %s, which it did not install" % (" ".join(argv), "removed" if read(os.path.join(w.root, f)) is None else "changed", f))
        for f, c in before.items():
            if read(os.path.join(w.src, f)) != c:
                bad("source-file", "'%s' changed %s" % (" ".join(argv), f))
        return out

    packs = False               # makensis has been found by the last configure.py

    def configure(u, nsis, faults):
        nonlocal packs
        nloc = "C:\\nsis\\makensis.exe" if nsis else "C:\\none\\absent.exe"
        out = do(["configure.py", "--prefix", w.prefix, "--unicode-version", str(u), "--make-nsis", nloc], faults)
        # a run that did not finish leaves the old configuration or the new one, whole, or none
        if out == 0:
            cands[:] = [u]
        else:
            cands.extend(c for c in (u, None) if c not in cands)
        packs = out == 0 and bool(nsis) and not faults
        return out

    def expected_lib(arch, config, pdb=False):
        return (pdbtext if pdb else libtext)(w, cachetext(conf["unicode"], "Visual Studio 17 2022", arch), arch, config).encode()

    def want(path, content, why):
        c = read(path)
        if c != content:
            rel = os.path.relpath(path, w.root)
            state = "is missing" if c is None else "is cut off" if content.startswith(c) else "is not the current one"
            bad("not-done", "%s: %s %s" % (why, rel, state))

    def gone(path, why):
        if os.path.lexists(path):
            bad("not-done", "%s: %s is still there" % (why, os.path.relpath(path, w.root)))

    products = [(a, c, e) for a in ARCHS for c in CONFIGS for e in (("lib", "pdb") if c in ("Debug", "RelWithDebInfo") else ("lib",))]

    def judge(l, out):
        if out != 0:
            return
        for u in list(cands):
            conf["unicode"] = u
            try:
                if u is not None or not set(targets_of(l) or ["all"]) & {"all", "test", "install", "package"}:
                    judge_as(l)
                    continue
                bad("not-done", "'make %s' reported success with no configuration" % " ".join(targets_of(l)))
            except Violation as v:
                if len(cands) == 1:
                    raise
                cands.remove(u)

    def judge_as(l):
        ts = targets_of(l) or ["all"]
        why = "'make %s' reported success" % " ".join(targets_of(l))
        # what a later target of the same command undoes is not asked for
        last = ts[-1]
        if "clean" in ts and last != "clean" and len(ts) == 2:
            ts = [t for t in ts if t != "clean"]
        elif "scrub" in ts and len(ts) == 2 and ts != ["scrub", "scrub"]:
            ts = [last]
        elif set(ts) in ({"install", "uninstall"}, {"cmake-install", "cmake-uninstall"}):
            ts = [last]
        if ts and ts[-1] == "clean" and len(ts) == 2:
            ts = [t for t in ts if t != "clean"] or ["clean"]       # clean goes first whatever the order
        B = os.path.join(w.src, "build")
        for t in ts:
            if t in ("all", "test", "install", "package"):
                for a, c, e in products:
                    want(os.path.join(B, a, c, "ansakString." + e), expected_lib(a, c, e == "pdb"), why)
            if t in ("test", "package"):
                for a in ARCHS:
                    d = digest("test %s %s\n" % (cachetext(conf["unicode"], "Visual Studio 17 2022", a), w.srcdigest(w.libsrc + w.testsrc)))
                    if w.tests.get(a) != d:
                        bad("not-done", "%s: the tests for %s have not passed on the current sources" % (why, a))
            if t == "install":
                for h in w.headers:
                    want(os.path.join(w.prefix, "include/ansak", os.path.basename(h)), read(os.path.join(w.src, h)), why)
                for a, c, e in products:
                    want(os.path.join(w.prefix, "lib", a, c, "ansakString." + e), expected_lib(a, c, e == "pdb"), why)
            if t == "uninstall":
                for h in w.headers:
                    gone(os.path.join(w.prefix, "include/ansak", os.path.basename(h)), why)
                for a in ARCHS:
                    for c in CONFIGS:
                        for e in ("lib", "pdb"):
                            gone(os.path.join(w.prefix, "lib", a, c, "ansakString." + e), why)
            if t == "package":
                n = os.path.join(B, "nsis")
                for h in w.headers:
                    want(os.path.join(n, "include/ansak", os.path.basename(h)), read(os.path.join(w.src, h)), why)
                for f in w.pkgsrc:
                    want(os.path.join(n, os.path.basename(f)), read(os.path.join(w.src, f)), why)
                for a, c, e in products:
                    want(os.path.join(n, "lib", a, c, "ansakString." + e), expected_lib(a, c, e == "pdb"), why)
                want(os.path.join(B, "ansak-string-u%s-setup.exe" % conf["unicode"]), nsistext(n, conf["unicode"]).encode(), why)
            if t == "clean":
                for d in ("Win32", "x64", "nsis", "all.touch", "test.touch", "ansak-string-u%s-setup.exe" % conf["unicode"]):
                    gone(os.path.join(B, d), why)
            if t == "scrub":
                gone(B, why)
                gone(os.path.join(w.src, "configvars.py"), why)
            if t == "cmake-install":
                want(os.path.join(w.cmroot, "Modules/FindANSAK.cmake"), read(os.path.join(w.src, "FindANSAK.cmake")), why)
            if t == "cmake-uninstall":
                gone(os.path.join(w.cmroot, "Modules/FindANSAK.cmake"), why)

    def scrubbed(t, out):
        if "scrub" in t:
            if out == 0 and t[-1] == "scrub":
                cands[:] = [None]
            elif None not in cands:
                cands.append(None)

    for n, l in enumerate(lines):
        w.now += step(n, l)
        k = l.split()[0] if l.split() else ""
        if k == "edit" and len(l.split()) == 2 and l.split()[1] in w.ver:
            w.edit(l.split()[1])
            add("source_edit")
        elif k == "foreign" and len(l.split()) == 2:
            w.put_foreign(l.split()[1])
            add("foreign_file")
        elif k == "configure":
            m = re.search(r"unicode=(\d+) nsis=(\d)", l)
            if m:
                configure(int(m.group(1)), int(m.group(2)), faults_of(l))
                add("operations")
        elif k == "make":
            out = do(["make.py"] + targets_of(l), faults_of(l))
            add("operations")
            judge(l, out)
            scrubbed(targets_of(l), out)
            events.append(w.snapshot())
    if follow:
        # the faults have stopped: the same wishes are now granted
        w.now += 10
        wishes = [targets_of(l) for l in lines if l.startswith("make")]
        for t in wishes[-2:] + [["install"], "edit", ["install"], ["uninstall"]]:
            if t == "edit":             # and what changes from now on is noticed
                w.now += 1
                w.edit(EDITS[w.now % len(EDITS)])
                continue
            # configured anew only where it is needed: what was left half done has to be made good anyway
            if None in cands or len(cands) > 1 or ("package" in t and not packs):
                w.now += 10
                if configure(16, 1, {}) != 0:
                    bad("stuck", "configure.py still fails once nothing is wrong any more")
            w.now += 10
            l = "make " + " ".join(t)
            out = do(["make.py"] + t, {})
            add("operations")
            if out != 0:
                bad("stuck", "'%s' still fails once nothing is wrong any more: %s" % (l, " | ".join(events[-4:])))
            judge(l, out)
            scrubbed(t, out)
            events.append(w.snapshot())
    add("simulated_seconds", w.now - T0)
    return digest(*events), digest(*inter), hits > 0, steps


# ------------------------------------------------------------------ worker
def attempt(lines, scratch, stats=None):
    """Returns (None or (class, detail), hash, inter, nontrivial, steps)."""
    try:
        h, i, nt, steps = execute(lines, scratch, {} if stats is None else stats)
        return None, h, i, nt, steps
    except Violation as v:
        d = anon(v.detail, os.path.join(os.path.realpath(scratch), "w"))
        return (v.cls, d), digest(v.cls, d), digest(*lines), True, 0


def minimise(lines, scratch, cls, wall):
    t0, runs = time.time(), 0

    def fails(c):
        nonlocal runs
        runs += 1
        v = attempt(c, scratch)[0]
        return v is not None and v[0] == cls
    changed = True
    while changed and time.time() - t0 < wall:
        changed = False
        for i in range(len(lines)):
            c = lines[:i] + lines[i + 1:]
            if fails(c):
                lines, changed = c, True
                break
        if changed:
            continue
        for i, l in enumerate(lines):
            ws = l.split()
            for j in range(1, len(ws)):
                if "=" in ws[j]:
                    continue
                c = lines[:i] + [" ".join(ws[:j] + ws[j + 1:])] + lines[i + 1:]
                if fails(c):
                    lines, changed = c, True
                    break
            if changed:
                break
    return lines, runs


def usable(d): return os.access(d, os.W_OK)
def prepare(scratch): pass


def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    scratch = tempfile.mkdtemp(prefix="winmake", dir="/dev/shm" if usable("/dev/shm") else None)
    os.chmod(scratch, 0o755)
    try:
        prepare(scratch)
        return work(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def body(path):
    lines, on = [], False
    for l in open(path):
        if on:
            lines.append(l.rstrip("\n"))
        if l.startswith("# ---"):
            on = True
    return lines


def work(a, scratch):
    if "--replay" in a:
        lines = body(a["--replay"])
        v, h, _, _, _ = attempt(lines, scratch)
        v2, h2, _, _, _ = attempt(lines, scratch)
        if v:
            print("REPLAY violated class=%s hash=%s again=%s detail=%s" % (v[0], h, "same" if (v, h) == (v2, h2) else "different", v[1]))
            return 1
        print("REPLAY held hash=%s again=%s" % (h, "same" if h == h2 else "different"))
        return 0
    seed, first, count, wall = int(a["--seed"]), int(a["--first"]), int(a["--count"]), float(a["--wall"])
    t0 = time.time()
    stats, seen, inters = {}, set(), set()
    res = {"runs": 0, "distinct_nontrivial": 0, "distinct_interleavings": 0, "steps": 0, "solo_runs": 0, "solo_broken": 0, "determinism_rechecks": 0, "mismatches": 0, "minimise_runs": 0, "violation": "", "samples": []}
    for i in range(first, first + count):
        if time.time() - t0 > wall:
            break
        r = Rng(int(hashlib.sha256(("%d %s %d" % (seed, PROP, i)).encode()).hexdigest()[:16], 16))
        lines = gen(r)
        v, h, inter, nt, steps = attempt(lines, scratch, stats)
        res["runs"] += 1
        res["steps"] += steps
        if nt:
            seen.add(digest(*lines))
        inters.add(inter)
        if len(res["samples"]) < 2 and nt:
            res["samples"].append("run %d: %s" % (i, " / ".join(lines)))
        if v is None and i % 37 == 0:
            res["determinism_rechecks"] += 1
            if attempt(lines, scratch)[1] != h:
                res["mismatches"] += 1
        if v:
            lines, n = minimise(lines, scratch, v[0], float(a.get("--minwall", 20)))
            res["minimise_runs"] = n
            v, h, _, _, _ = attempt(lines, scratch)
            path = os.path.join(a["--replaydir"], "%s-u0-s%d-r%d.case" % (PROP, seed, i))
            with open(path, "w") as f:
                f.write("# property %s\n# unicode 0\n# seed %d run %d\n# class %s\n# detail %s\n# hash %s\n# ---\n%s\n" % (PROP, seed, i, v[0], v[1], h, "\n".join(lines)))
            res["violation"] = path
            break
    res["distinct_nontrivial"], res["distinct_interleavings"] = len(seen), len(inters)
    res["stats"], res["wall"] = stats, time.time() - t0
    with open(a["--out"], "w") as f:
        json.dump(res, f)
    return 1 if res["violation"] else 0


if __name__ == "__main__":
    sys.exit(main())
