// Loaded into every program that make and configure start (property C25): system calls that change files are
// trapped, counted, checked to stay in the scratch tree, and may fail, tear or stop everything on the plan's orders.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <limits.h>
#include <signal.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#define MAGIC 0x5eed5eedL
static char root[PATH_MAX], dir[PATH_MAX];
static size_t nroot;

static long raw(long n, long a, long b, long c, long d, long e)
{
    long r;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = MAGIC;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long xopen(const char* p, int f) { return raw(SYS_openat, AT_FDCWD, (long)p, f | O_CLOEXEC, 0600, 0); }
static void xclose(long fd) { raw(SYS_close, fd, 0, 0, 0, 0); }
static void cat(char* to, size_t cap, const char* s)
{
    size_t n = strlen(to), k = strlen(s);
    if (k > cap - 1 - n) k = cap - 1 - n;
    memcpy(to + n, s, k); to[n + k] = 0;
}
static void num(char* to, size_t cap, long v) { char b[24]; int i = 23; b[i] = 0; do b[--i] = (char)('0' + v % 10); while (v /= 10); cat(to, cap, b + i); }
static void state(char* p, const char* name) { p[0] = 0; cat(p, PATH_MAX, dir); cat(p, PATH_MAX, "/"); cat(p, PATH_MAX, name); }
static void trace(const char* a, const char* b, const char* c)
{
    char l[2 * PATH_MAX + 100], f[PATH_MAX]; l[0] = 0;
    cat(l, sizeof l - 2, a); cat(l, sizeof l - 2, b); cat(l, sizeof l - 2, c);
    for (char* p = l; *p; ++p) if (*p == '\n') *p = ' ';
    cat(l, sizeof l, "\n");
    state(f, "trace");
    long fd = xopen(f, O_WRONLY | O_APPEND);
    if (fd >= 0) { raw(SYS_write, fd, (long)l, (long)strlen(l), 0, 0); xclose(fd); }
}
static void stop(int sig)
{
    raw(SYS_kill, 0, sig, 0, 0, 0);
    if (sig == SIGKILL) for (;;) raw(SYS_pause, 0, 0, 0, 0, 0);
}
// One operation. Leaves the fault that hits it in f ("" for none).
static void seam(const char* kind, const char* what, char* f)
{
    char p[PATH_MAX], b[4096], key[64]; f[0] = 0;
    state(p, "count");
    long fd = xopen(p, O_RDWR); if (fd < 0) return;
    long k = raw(SYS_pread64, fd, (long)b, 30, 0, 0);
    b[k > 0 ? k : 0] = 0;
    long n = atol(b) + 1;
    b[0] = 0; num(b, sizeof b, n); cat(b, sizeof b, "\n");
    raw(SYS_pwrite64, fd, (long)b, (long)strlen(b), 0, 0);
    xclose(fd);
    key[0] = 0; num(key, sizeof key, n); cat(key, sizeof key, " "); cat(key, sizeof key, kind); cat(key, sizeof key, " ");
    trace(key, what, "");
    if (n > 3000) { trace("VIOLATE endless ", "more than 3000 operations", ""); stop(SIGKILL); }
    state(p, "plan");
    fd = xopen(p, O_RDONLY); if (fd < 0) return;
    k = raw(SYS_read, fd, (long)b, sizeof b - 1, 0, 0);
    b[k > 0 ? k : 0] = 0;
    xclose(fd);
    key[0] = 0; cat(key, sizeof key, "@"); num(key, sizeof key, n); cat(key, sizeof key, "\n");
    char* q = strstr(b, key); if (!q) return;
    char* s = q; while (s > b && s[-1] != '\n') --s;
    size_t m = (size_t)(q - s); if (m > 31) m = 31;
    memcpy(f, s, m); f[m] = 0;
    if (!strcmp(f, "crash")) { trace("hit crash", "", ""); stop(SIGKILL); }
    if (!strcmp(f, "int")) { trace("hit interrupt", "", ""); stop(SIGINT); }
    if (!strcmp(f, "term")) { trace("hit terminate", "", ""); stop(SIGTERM); }
}
static int errorOf(const char* f) { return !strcmp(f, "eacces") ? EACCES : !strcmp(f, "enospc") ? ENOSPC : !strcmp(f, "eio") ? EIO : 0; }
// the canonical name of a path; 0 if its directory does not exist
static int canon(long at, const char* path, char* out)
{
    char d[PATH_MAX], last[PATH_MAX], l[64]; d[0] = last[0] = 0;
    cat(d, sizeof d, path);
    size_t n = strlen(d);
    while (n > 1 && d[n - 1] == '/') d[--n] = 0;
    char* s = strrchr(d, '/');
    if (!s) { cat(last, sizeof last, d); d[0] = 0; cat(d, sizeof d, "."); }
    else { cat(last, sizeof last, s + 1); if (s == d) d[1] = 0; else *s = 0; }
    long fd = raw(SYS_openat, at, (long)d, O_PATH | O_DIRECTORY | O_CLOEXEC, 0, 0);
    if (fd < 0) return 0;
    l[0] = 0; cat(l, sizeof l, "/proc/self/fd/"); num(l, sizeof l, fd);
    long k = raw(SYS_readlink, (long)l, (long)out, PATH_MAX - 1, 0, 0);
    xclose(fd);
    if (k <= 0) return 0;
    out[k] = 0;
    if (strcmp(out, "/")) cat(out, PATH_MAX, "/");
    cat(out, PATH_MAX, last);
    return 1;
}
static int exists(long at, const char* p) { struct stat s; return raw(SYS_newfstatat, at, (long)p, (long)&s, AT_SYMLINK_NOFOLLOW, 0) == 0; }
// Decides on a change of the file at a path: 0 go ahead, otherwise what the call returns
static long change(const char* kind, long at, const char* path)
{
    char p[PATH_MAX], q[PATH_MAX], f[32];
    if (!path || !canon(at, path, p)) return 0;
    if (!strncmp(p, "/dev/", 5) && strncmp(p, "/dev/shm", 8)) return 0;
    if (!strncmp(p, dir, strlen(dir)) && p[strlen(dir)] == '/') return 0;       // a stand-in's message to the simulator
    if (strncmp(p, root, nroot) || (p[nroot] != '/' && p[nroot]))
    {
        q[0] = 0; cat(q, sizeof q, kind); cat(q, sizeof q, " of "); cat(q, sizeof q, p);
        trace("VIOLATE escape ", q, "");
        return -EACCES;
    }
    q[0] = 0; cat(q, sizeof q, "@"); cat(q, sizeof q, p + nroot);
    seam(kind, q, f);
    int e = errorOf(f);
    if (e) trace("hit ", f, "");
    return -e;
}
static long doCall(long n, long a, long b, long c, long d, long e)
{
    long r = 0;
    switch (n)
    {
    case SYS_write: case SYS_pwrite64: case SYS_writev:
    {
        struct stat s; char l[64], p[PATH_MAX], f[32];
        if (raw(SYS_fstat, a, (long)&s, 0, 0, 0) || !S_ISREG(s.st_mode)) return raw(n, a, b, c, d, e);
        l[0] = 0; cat(l, sizeof l, "/proc/self/fd/"); num(l, sizeof l, a);
        long k = raw(SYS_readlink, (long)l, (long)p, PATH_MAX - 1, 0, 0);
        p[k > 0 ? k : 0] = 0;
        if (strncmp(p, root, nroot)) return raw(n, a, b, c, d, e);       // the simulator's own output files
        char* w = p + nroot - 1; *w = '@';
        seam("write", w, f);
        if (!strncmp(f, "torn", 4) || errorOf(f))
        {
            struct iovec v = { (void*)b, (size_t)c };
            const struct iovec* x = n == SYS_writev ? (const struct iovec*)b : &v;
            long m = n == SYS_writev ? c : 1, share = errorOf(f) ? 50 : atol(f + 4);
            for (long i = 0; i < m; ++i) raw(SYS_write, a, (long)x[i].iov_base, (long)x[i].iov_len * share / 100, 0, 0);
            if (!errorOf(f)) { trace("hit torn_write", "", ""); stop(SIGKILL); }
            trace("hit ", f, "");
            return -errorOf(f);
        }
        return raw(n, a, b, c, d, e);
    }
    case SYS_open: r = change("open", AT_FDCWD, (const char*)a); break;
    case SYS_creat: r = change("open", AT_FDCWD, (const char*)a); break;
    case SYS_openat: r = change("open", a, (const char*)b); break;
    case SYS_mkdir: if (!exists(AT_FDCWD, (const char*)a)) r = change("mkdir", AT_FDCWD, (const char*)a); break;
    case SYS_mkdirat: if (!exists(a, (const char*)b)) r = change("mkdir", a, (const char*)b); break;
    case SYS_unlink: if (exists(AT_FDCWD, (const char*)a)) r = change("unlink", AT_FDCWD, (const char*)a); break;
    case SYS_rmdir: if (exists(AT_FDCWD, (const char*)a)) r = change("rmdir", AT_FDCWD, (const char*)a); break;
    case SYS_unlinkat: if (exists(a, (const char*)b)) r = change(c & AT_REMOVEDIR ? "rmdir" : "unlink", a, (const char*)b); break;
    case SYS_rename: r = change("rename", AT_FDCWD, (const char*)a); if (!r) r = change("rename-to", AT_FDCWD, (const char*)b); break;
    case SYS_renameat: case SYS_renameat2: r = change("rename", a, (const char*)b); if (!r) r = change("rename-to", c, (const char*)d); break;
    case SYS_link: case SYS_symlink: r = change("link", AT_FDCWD, (const char*)b); break;
    case SYS_linkat: r = change("link", c, (const char*)d); break;
    case SYS_symlinkat: r = change("link", b, (const char*)c); break;
    case SYS_utimensat: if (b) r = change("touch", a, (const char*)b); break;
    case SYS_truncate: r = change("truncate", AT_FDCWD, (const char*)a); break;
    case SYS_chmod:
        if (!strncmp((const char*)a, "SIM:", 4))        // a stand-in program reports its start
        {
            char f[32];
            seam("program", (const char*)a + 4, f);
            if (f[0]) trace("hit failing_program", "", "");
            return f[0] ? -EIO : 0;
        }
        r = change("chmod", AT_FDCWD, (const char*)a); break;
    case SYS_fchmodat: r = change("chmod", a, (const char*)b); break;
    default: return -ENOSYS;
    }
    return r ? r : raw(n, a, b, c, d, e);
}
static void onSys(int sig, siginfo_t* si, void* ctx)
{
    (void)sig;
    ucontext_t* u = (ucontext_t*)ctx;
    greg_t* g = u->uc_mcontext.gregs;
    g[REG_RAX] = doCall(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8]);
}
__attribute__((constructor)) static void start(void)
{
    const char *r = getenv("SIM_ROOT"), *d = getenv("SIM_DIR");
    if (!r || !d) return;
    cat(root, sizeof root, r); cat(dir, sizeof dir, d); nroot = strlen(root);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSys; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART;
    sigaction(SIGSYS, &sa, NULL);
    if (prctl(PR_GET_SECCOMP) == 2 && getenv("SIM_TRAPPED")) return;      // inherited across exec
    static const int nrs[] = { SYS_write, SYS_pwrite64, SYS_writev, SYS_creat, SYS_mkdir, SYS_mkdirat, SYS_unlink, SYS_rmdir, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_symlink, SYS_linkat, SYS_symlinkat, SYS_utimensat, SYS_truncate, SYS_chmod, SYS_fchmodat, SYS_copy_file_range, SYS_sendfile, SYS_splice, SYS_openat2 };
    enum { N = sizeof nrs / sizeof nrs[0] };
    struct sock_filter f[N + 16]; unsigned i = 0;
#define ADD(...) f[i++] = (struct sock_filter)__VA_ARGS__
    ADD(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[5])));
    ADD(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, MAGIC, N + 9, 0));               // -> allow
    ADD(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
    unsigned tests = i;
    for (unsigned k = 0; k < N; ++k) ADD(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)nrs[k], 0, 0));
    unsigned o1 = i;
    ADD(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_open, 0, 2));
    ADD(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[1])));
    ADD(BPF_JUMP(BPF_JMP | BPF_JA, 2, 0, 0));
    ADD(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_openat, 0, 3));
    ADD(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2])));
    unsigned fl = i;
    ADD(BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC, 1, 0));
    unsigned allow = i;
    ADD(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    unsigned trap = i;
    ADD(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
    f[1].jt = (unsigned char)(allow - 2);
    for (unsigned k = 0; k < N; ++k) f[tests + k].jt = (unsigned char)(trap - (tests + k) - 1);
    f[o1 + 2].k = fl - (o1 + 2) - 1;
    f[o1 + 3].jf = (unsigned char)(allow - (o1 + 3) - 1);
    struct sock_fprog prog = { (unsigned short)i, f };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog) == 0) setenv("SIM_TRAPPED", "1", 1);
    else _exit(97);
}
