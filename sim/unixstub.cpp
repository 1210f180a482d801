// Stand-ins for cmake, ctest, sudo, git, uname and the package builders in C25: one program, many names.
// What they write names the sources and settings it was made of. Their system calls are trapped like all others.
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <unistd.h>
typedef std::string S;
static S slurp(const S& p)
{
    S r; FILE* f = fopen(p.c_str(), "rb");
    if (!f) return r;
    char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}
static bool put(const S& p, const S& t)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return false;
    bool ok = true; size_t half = t.size() / 2;
    ok = write(fd, t.data(), half) == ssize_t(half) && write(fd, t.data() + half, t.size() - half) == ssize_t(t.size() - half);
    return close(fd) == 0 && ok;
}
static S rep(const S& s, int n) { S r; while (n--) r += s; return r; }

int main(int argc, char** argv)
{
    S me = argv[0]; me = me.substr(me.rfind('/') + 1);
    std::vector<S> a(argv + 1, argv + argc);
    if (me == "sudo")
    {
        if (argc > 1) execvp(argv[1], argv + 1);
        return 127;
    }
    if (me == "uname") { puts(getenv("SIM_UNAME")); return 0; }
    if (me == "git") return 0;
    if (me != "cmake" && me != "ctest") return 1;
    S what = "SIM:" + me; for (auto& x : a) what += " " + x;
    if (chmod(what.c_str(), 0)) return 1;
    S dir = getenv("SIM_DIR");
    if (me == "ctest")
    {
        S exe = slurp("ansakStringTest"), cache = slurp("CMakeCache.txt"), test = slurp(dir + "/testdigest");
        if (exe.empty()) return 8;
        if (exe == "test " + cache + " " + test + "\n")
        {
            FILE* f = fopen((dir + "/tested").c_str(), "w");
            if (f) { fputs((test + " " + cache).c_str(), f); fclose(f); }
        }
        return 0;
    }
    if (a.empty()) return 1;
    if (a[0] == "--version") { puts("cmake version 3.28.3"); return 0; }
    if (a[0] == "--system-information") { printf("Avoid ctest truncation\nCMAKE_ROOT \"%s/cmakeroot\"\nCMAKE_SHARED \"no\"\n", getenv("SIM_ROOT")); return 0; }
    if (a[0] == "--build")
    {
        if (a.size() < 2) return 1;
        S d = a[1], target = "all", cache = slurp(d + "/CMakeCache.txt");
        for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == "--target" || a[i] == "-t") target = a[i + 1];
        if (cache.empty()) return 1;
        if (target == "ansakString") return !put(d + "/libansakString.a", rep("lib " + cache + " " + slurp(dir + "/libdigest") + "\n", 60));
        if (target == "ansakStringTest") return !put(d + "/ansakStringTest", "test " + cache + " " + slurp(dir + "/testdigest") + "\n");
        return 1;
    }
    S u = "?", g = "?", src = a[0], bin = ".";
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (a[i].compare(0, 24, "-DANSAK_UNICODE_SUPPORT=") == 0) u = a[i].substr(24);
        if (a[i] == "-G" && i + 1 < a.size()) g = a[i + 1];
        if (a[i] == "-S" && i + 1 < a.size()) src = a[i + 1];
        if (a[i] == "-B" && i + 1 < a.size()) bin = a[i + 1];
    }
    struct stat st;
    if (stat((src + "/CMakeLists.txt").c_str(), &st) || stat(bin.c_str(), &st)) return 1;
    // cmake keeps the compiler an existing cache names, whatever CXX says, and writes the cache beside it first
    const char* e = getenv("CXX"); S cxx = e ? e : "?", old = slurp(bin + "/CMakeCache.txt");
    size_t p = old.find("cxx=");
    if (p != S::npos) cxx = old.substr(p + 4, old.find(' ', p) - p - 4);
    S text = "cache unicode=" + u + " generator=" + g + " cxx=" + cxx + " end";
    if (!put(bin + "/CMakeCache.txt.tmp", text)) return 1;
    return rename((bin + "/CMakeCache.txt.tmp").c_str(), (bin + "/CMakeCache.txt").c_str()) ? 1 : 0;
}
