// C11 and C12: the real mkUnicodeTestData on scratch files, every system call of it on those files
// going through a seccomp trap where the plan of the run decides what happens.
#include "common.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <cstddef>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>

int tool_main(int argc, char* argv[]);
// the real thing may be declared with or without these parameters; it is compiled with -Dmain=tool_main

// ================================================================ system call seam
extern "C" long rawCall(long n, long a, long b, long c, long d, long e, long f);
extern "C" char rawCallEnd;
asm(R"(
    .text
    .globl rawCall
    .type rawCall, @function
rawCall:
    movq %rdi, %rax
    movq %rsi, %rdi
    movq %rdx, %rsi
    movq %rcx, %rdx
    movq %r8, %r10
    movq %r9, %r8
    movq 8(%rsp), %r9
    syscall
    .globl rawCallEnd
rawCallEnd:
    ret
)");

enum Kind { kOpen, kRead, kWrite, kClose, kStat, kOther, kKinds };
static const char* const kindNames[] = { "open", "read", "write", "close", "stat", "other" };
struct Fault { Kind kind; char side; unsigned n; bool from; int err; long shortTo; long lose; };   // side: i(n), o(ut), a(ny)
static struct Plan
{
    Fault f[64]; int nf = 0;
    long full = -1;             // no room after that many bytes of output
    char in[512], dir[512];
    char fd[256];               // what a descriptor is: i, o or 0
    unsigned count[kKinds][2];
    long written = 0; uint64_t calls = 0, cap = 0; long maxOut = 0;
    int over = 0;
} P;

static char sideOfPath(const char* p)
{
    if (!strcmp(p, P.in)) return 'i';
    size_t n = strlen(P.dir);
    return !strncmp(p, P.dir, n) ? 'o' : 0;
}
static const Fault* decide(Kind k, char side)
{
    unsigned n = P.count[k][side == 'o']++;
    for (int i = 0; i < P.nf; ++i)
        if (P.f[i].kind == k && (P.f[i].side == side || P.f[i].side == 'a') && (P.f[i].n == n || (P.f[i].from && n >= P.f[i].n)))
        {
            ilv(mix(uint64_t(k) * 2 + (side == 'o'), n)); shm->nontrivial = 1;
            return &P.f[i];
        }
    return nullptr;
}
static void tick()
{
    ++shm->steps;
    if (++P.calls > P.cap) { P.over = 1; shm->aux[2] = 1; rawCall(SYS_exit_group, 78, 0, 0, 0, 0, 0); }
}
static long doCall(long n, long a, long b, long c, long d, long e, long f)
{
    switch (n)
    {
    case SYS_open: case SYS_openat: case SYS_creat:
    {
        const char* path = reinterpret_cast<const char*>(n == SYS_openat ? b : a);
        char s = sideOfPath(path);
        if (s)
        {
            tick();
            if (const Fault* q = decide(kOpen, s)) { st(q->err == EINTR ? stIoEintr : stIoOpenFail); return -q->err; }
        }
        long r = rawCall(n, a, b, c, d, e, f);
        if (r >= 0 && r < 256) P.fd[r] = s;
        return r;
    }
    case SYS_read: case SYS_readv: case SYS_pread64:
    {
        char s = a >= 0 && a < 256 ? P.fd[a] : 0;
        if (!s) break;
        tick();
        if (const Fault* q = decide(kRead, s))
        {
            if (q->err) { st(q->err == EINTR ? stIoEintr : stIoReadErr); return -q->err; }
            st(stIoShortRead);
            if (n == SYS_readv) { iovec v = *reinterpret_cast<iovec*>(b); if (long(v.iov_len) > q->shortTo) v.iov_len = size_t(q->shortTo); return rawCall(SYS_readv, a, reinterpret_cast<long>(&v), 1, 0, 0, 0); }
            if (c > q->shortTo) c = q->shortTo;
        }
        return rawCall(n, a, b, c, d, e, f);
    }
    case SYS_write: case SYS_writev: case SYS_pwrite64:
    {
        char s = a >= 0 && a < 256 ? P.fd[a] : 0;
        if (!s) break;
        tick();
        long total = 0;
        if (n == SYS_writev) for (long i = 0; i < c; ++i) total += long(reinterpret_cast<iovec*>(b)[i].iov_len); else total = c;
        long allow = total;
        if (const Fault* q = decide(kWrite, s))
        {
            if (q->err) { st(q->err == EINTR ? stIoEintr : stIoWriteErr); return -q->err; }
            st(stIoShortWrite);
            if (allow > q->shortTo) allow = q->shortTo;
        }
        if (P.full >= 0 && P.written + allow > P.full)
        {
            allow = P.full - P.written; shm->nontrivial = 1;
            if (allow <= 0 && total > 0) { st(stIoWriteErr); return -ENOSPC; }
            st(stIoShortWrite);
        }
        long r;
        if (allow < total && n == SYS_writev)
        {
            long left = allow; r = 0;
            for (long i = 0; i < c && left > 0; ++i)
            {
                iovec v = reinterpret_cast<iovec*>(b)[i];
                if (long(v.iov_len) > left) v.iov_len = size_t(left);
                long k = rawCall(SYS_write, a, reinterpret_cast<long>(v.iov_base), long(v.iov_len), 0, 0, 0);
                if (k < 0) { if (!r) r = k; break; }
                r += k; left -= k;
            }
        }
        else if (n == SYS_writev) r = rawCall(n, a, b, c, d, e, f);
        else r = rawCall(n, a, b, allow, d, e, f);
        if (r > 0) P.written += r;
        if (P.written > P.maxOut) { P.over = 2; shm->aux[2] = 2; rawCall(SYS_exit_group, 78, 0, 0, 0, 0, 0); }
        return r;
    }
    case SYS_close:
    {
        char s = a >= 0 && a < 256 ? P.fd[a] : 0;
        if (!s) break;
        tick();
        P.fd[a] = 0;
        const Fault* q = decide(kClose, s);
        if (q && q->err && q->lose)     // what was accepted before could not be stored after all
        {
            struct stat sb;
            if (rawCall(SYS_fstat, a, reinterpret_cast<long>(&sb), 0, 0, 0, 0) == 0)
                rawCall(SYS_ftruncate, a, sb.st_size > q->lose ? sb.st_size - q->lose : 0, 0, 0, 0, 0);
        }
        long r = rawCall(n, a, b, c, d, e, f);
        if (q && q->err) { st(stIoCloseErr); return -q->err; }
        return r;
    }
    case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_access: case SYS_faccessat: case SYS_statx:
    {
        const char* path = reinterpret_cast<const char*>(n == SYS_newfstatat || n == SYS_faccessat || n == SYS_statx ? b : a);
        char s = path && *path ? sideOfPath(path) : 0;
        if (!s) break;
        tick();
        if (const Fault* q = decide(kStat, s)) { st(stIoStatFail); return -q->err; }
        break;
    }
    case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_fcntl:
    {
        char s = a >= 0 && a < 256 ? P.fd[a] : 0;
        long r = rawCall(n, a, b, c, d, e, f);
        if (s && r >= 0 && r < 256 && (n != SYS_fcntl || b == F_DUPFD || b == F_DUPFD_CLOEXEC)) P.fd[r] = s;
        return r;
    }
    case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate:
    {
        char s = a >= 0 && a < 256 ? P.fd[a] : 0;
        if (!s) break;
        tick();
        if (const Fault* q = decide(kOther, s)) { st(stIoWriteErr); return -q->err; }
        break;
    }
    case SYS_rename: case SYS_renameat: case SYS_renameat2:
    {
        tick();
        if (const Fault* q = decide(kOther, 'o')) { st(stIoWriteErr); return -q->err; }
        break;
    }
    }
    return rawCall(n, a, b, c, d, e, f);
}
static void onSys(int, siginfo_t*, void* v)
{
    ucontext_t* u = static_cast<ucontext_t*>(v);
    auto& g = u->uc_mcontext.gregs;
    g[REG_RAX] = doCall(g[REG_RAX], g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
}
static bool trap()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSys; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &sa, nullptr)) return false;
    static const int nrs[] = { SYS_open, SYS_openat, SYS_creat, SYS_read, SYS_readv, SYS_pread64, SYS_write, SYS_writev, SYS_pwrite64, SYS_close, SYS_stat, SYS_lstat,
                               SYS_newfstatat, SYS_access, SYS_faccessat, SYS_statx, SYS_dup, SYS_dup2, SYS_dup3, SYS_fcntl, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_rename, SYS_renameat, SYS_renameat2 };
    const unsigned n = sizeof nrs / sizeof *nrs;
    uint64_t ip = reinterpret_cast<uint64_t>(&rawCallEnd);
    std::vector<sock_filter> f;
    // calls made by rawCall itself go straight through
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer)));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, uint32_t(ip), 0, 3));
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, uint32_t(ip >> 32), 0, 1));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
    for (unsigned i = 0; i < n; ++i) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, uint32_t(nrs[i]), uint8_t(n - i), 0));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
    sock_fprog prog = { static_cast<unsigned short>(f.size()), f.data() };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
    return syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog) == 0;
}

// ================================================================ cases
static std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) { if (c > 0x20 && c < 0x7f && c != '\\') r += char(c); else { char b[8]; snprintf(b, sizeof b, "\\%02x", c); r += b; } }
    return r;
}
static std::string unesc(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\\' && i + 2 < s.size()) { r += char(strtoul(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; } else r += s[i];
    return r;
}
static std::string genLine(Rng& r, unsigned& cp)
{
    char b[64];
    cp += unsigned(r.chance(1, 10) ? r.range(1, 5000) : 1);
    if (cp > 0x10fffd) cp = 0x41;
    snprintf(b, sizeof b, "%04X", cp);
    static const char* const names[] = { "LATIN SMALL LETTER A", "<control>", "HEBREW LETTER ALEF", "<CJK Ideograph, First>", "<CJK Ideograph, Last>", "A", "AB", "PRIVATE TWO WITH SURROGATES", "EGYPTIAN HIEROGLYPH A001", "VARIATION SELECTOR-17" };
    static const char* const excl[] = { "<Non Private Use High Surrogate, First>", "<Private Use, Last>", "<Low Surrogate, First>", "<Plane 15 Private Use, First>" };
    std::string n = r.chance(1, 12) ? excl[r.below(4)] : names[r.below(10)];
    if (r.chance(1, 60)) n += std::string(r.range(100, r.chance(1, 8) ? 20000 : 600), 'Q');
    if (r.chance(1, 10)) n = "PRIVATELY NAMED " + n;
    static const char* const tails[] = { ";Lu;0;L;;;;;N;;;;0061;", ";Cc;0;BN;;;;;N;NULL;;;;", ";Mn;230;NSM;;;;;N;;;;;", ";Lo;0;L;;;;;N;;;;;" };
    return std::string(b) + ";" + n + tails[r.below(4)];
}
static std::string genFault(Rng& r, unsigned lines)
{
    static const int readErr[] = { EIO, EISDIR, EAGAIN, EBADF }, writeErr[] = { ENOSPC, EIO, EDQUOT, EFBIG, EPIPE }, openErr[] = { ENOENT, EACCES, EMFILE, ENFILE, ENOSPC, EROFS, EINTR, ENOMEM, EISDIR }, closeErr[] = { EIO, ENOSPC, EDQUOT };
    unsigned deep = 2 + lines / 150;
    switch (r.below(14))
    {
    case 0: return "fault open i n=0 e=" + num(openErr[r.below(9)]);
    case 1: return "fault open o n=0 e=" + num(openErr[r.below(9)]);
    case 2: return "fault stat i n=0 e=" + num(openErr[r.below(2)]);
    case 3: return "fault read i n=" + num(r.below(deep)) + " e=" + num(readErr[r.below(4)]) + (r.chance(1, 2) ? " from" : "");
    case 4: case 5: return "fault read i n=" + num(r.below(deep)) + " short=" + num(r.chance(1, 2) ? r.range(1, 9) : r.range(1, 4000)) + (r.chance(1, 3) ? " from" : "");
    case 6: return "fault read i n=" + num(r.below(deep)) + " e=" + num(EINTR);
    case 7: return "fault write o n=" + num(r.below(deep)) + " e=" + num(writeErr[r.below(5)]) + (r.chance(1, 2) ? " from" : "");
    case 8: case 9: return "fault write o n=" + num(r.below(deep)) + " short=" + num(r.chance(1, 2) ? r.range(1, 9) : r.range(1, 4000)) + (r.chance(1, 3) ? " from" : "");
    case 10: return "fault write o n=" + num(r.below(deep)) + " e=" + num(EINTR);
    case 11: if (r.chance(1, 5)) return "fault close i n=0 e=" + num(closeErr[r.below(3)]);
             return "fault close o n=0 e=" + num(closeErr[r.below(3)]) + " lose=" + num(r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(1, 40) : r.range(1, 60000));
    case 12: return "full " + num(r.below(r.chance(1, 2) ? 200 : 200 + lines * 9));
    default: return "fault other o n=0 e=" + num(closeErr[r.below(3)]);
    }
}
static Lines genTool(Rng& r, bool faulty)
{
    Lines l;
    unsigned n = unsigned(r.chance(1, 12) ? 0 : r.chance(1, 3) ? r.range(1, 12) : r.chance(2, 3) ? r.range(10, 200) : r.chance(1, 20) ? r.range(2500, 12000) : r.range(200, 2500));
    std::vector<std::string> ls;
    unsigned cp = unsigned(r.below(0x3000));
    for (unsigned i = 0; i < n; ++i) ls.push_back(genLine(r, cp));
    bool dmg = r.chance(faulty ? 1 : 2, 4), cut = r.chance(faulty ? 1 : 2, 5);
    if (dmg && !ls.empty())
        for (size_t k = r.range(1, 4); k; --k)
        {
            std::string& s = ls[r.below(ls.size())];
            switch (r.below(10))
            {
            case 0: s.clear(); break;
            case 1: s += "\r"; break;
            case 2: s.erase(std::remove(s.begin(), s.end(), ';'), s.end()); break;
            case 3: s.resize(r.below(std::min<size_t>(s.size() + 1, 12))); break;
            case 4: if (!s.empty()) s[r.below(s.size())] = char(r.below(256)); break;
            case 5: s = std::string(r.range(1, 14), ';'); break;
            case 6: s.insert(r.below(s.size() + 1), 1, ';'); break;
            case 7: if (!s.empty()) s.erase(r.below(s.size()), 1 + r.below(4)); break;
            case 8: s.insert(r.below(s.size() + 1), 1, '\0'); break;
            default: s = std::string(r.range(0, 12), ' '); break;
            }
        }
    std::string all;
    for (auto& s : ls) all += s + "\n";
    bool eol = !r.chance(1, 6);
    if (!eol && !all.empty()) all.pop_back();
    if (cut && !all.empty())
    {
        size_t at = r.below(all.size() + 1);
        if (r.chance(1, 2)) { size_t back = r.below(60); at = all.size() > back ? all.size() - back : 0; }
        all.resize(at);
    }
    l.push_back("cfg pre=" + num(r.chance(1, 3) ? r.range(1, 60000) : 0) + " cut=" + (cut ? "1" : "0") + " dmg=" + (dmg ? "1" : "0"));
    if (faulty || r.chance(1, 2)) for (size_t k = r.chance(1, 8) ? 0 : r.range(1, 3); k; --k) l.push_back(genFault(r, n));
    size_t p = 0;
    while (p < all.size())
    {
        size_t e = all.find('\n', p);
        if (e == std::string::npos) { l.push_back("last " + esc(all.substr(p))); break; }
        l.push_back("in " + esc(all.substr(p, e - p)));
        p = e + 1;
    }
    return l;
}
static Lines genC11(Rng& r, uint64_t, uint64_t) { return genTool(r, true); }
static Lines genC12(Rng& r, uint64_t, uint64_t) { return genTool(r, r.chance(1, 2)); }

// ---- what the output must be
struct Item { std::string tok; };
static bool wellFormed(const std::string& s, std::string& code, bool& excluded)
{
    size_t p = s.find(';');
    if (p == std::string::npos || p < 4 || p > 6 || s.size() <= 10) return false;
    for (size_t i = 0; i < p; ++i) if (!strchr("0123456789ABCDEF", s[i]) || !s[i]) return false;
    size_t q = s.find(';', p + 1);
    std::string name = s.substr(p + 1, q == std::string::npos ? q : q - p - 1);
    if (name.empty()) return false;
    code = s.substr(0, p);
    excluded = name.find("Surrogate") != std::string::npos || name.find("Private") != std::string::npos;
    return true;
}
static std::string flatten(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) if (!strchr(" \t\r\n\f\v", c) || !c) r += char(c);
    return r;
}
// A damaged line that still has a code and a name has to be in the array like any other (or the status is not 0); one
// that has lost its fields leaves the array incomplete whatever is written; what else there is may be treated either way.
static std::string judge(const std::string& input, const std::string& output)
{
    std::vector<std::string> required; bool loose = false;
    size_t p = 0;
    while (p < input.size())
    {
        size_t e = input.find('\n', p); if (e == std::string::npos) e = input.size();
        std::string s = input.substr(p, e - p), code; bool ex = false;
        if (wellFormed(s, code, ex)) { if (!ex) required.push_back("0x" + code); }
        else if (!flatten(s).empty())
        {
            size_t c = s.find(';');
            if (c == std::string::npos) return "the input has a line without fields: " + esc(s.substr(0, 60));
            size_t q = s.find(';', c + 1);
            std::string name = s.substr(c + 1, q == std::string::npos ? q : q - c - 1), f0 = s.substr(0, c);
            loose = true;
            if (s.size() > 10 && c > 0 && !flatten(f0).empty() && f0.find_first_of(",{}") == std::string::npos && name.find("urrogate") == std::string::npos && name.find("rivate") == std::string::npos && !name.empty())
                required.push_back("0x" + flatten(f0));
        }
        p = e + 1;
    }
    std::string flat = flatten(output);
    if (flat.empty()) return required.empty() ? "" : "the output is empty, " + num(required.size()) + " characters are missing";
    size_t open = flat.find('{');
    if (open == std::string::npos || flat.compare(0, open, "char32_tvalidUnicodeCodePoints[]=") != 0) return "the output does not start as an array";
    static const std::string end = "0xFFFFFFFF};";
    if (flat.size() < open + 1 + end.size() || flat.compare(flat.size() - end.size(), end.size(), end) != 0) return "the array is not finished";
    std::vector<std::string> toks; std::string t;
    for (size_t i = open + 1; i < flat.size() - end.size(); ++i) { if (flat[i] == ',') { toks.push_back(t); t.clear(); } else t += flat[i]; }
    if (!t.empty()) return "the array is malformed near its end";
    if (!loose)
    {
        for (size_t i = 0; i < std::max(toks.size(), required.size()); ++i)
            if (i >= toks.size() || i >= required.size() || toks[i] != required[i])
                return "element " + num(i) + " is " + (i < toks.size() ? toks[i].substr(0, 60) : "missing") + ", expected " + (i < required.size() ? required[i] : "the end") + " (" + num(toks.size()) + " of " + num(required.size()) + " elements)";
        return "";
    }
    size_t k = 0;
    for (auto& s : toks) if (k < required.size() && s == required[k]) ++k;
    if (k < required.size()) return "element " + esc(required[k].substr(0, 60)) + " is missing";
    return "";
}

static void execTool(const Lines& lines, bool judgeOutput)
{
    std::string input; long pre = 0; bool cut = false, dmg = false;
    P = Plan();
    memset(P.fd, 0, sizeof P.fd); memset(P.count, 0, sizeof P.count);
    for (auto& l : lines)
    {
        if (startsWith(l, "in ")) input += unesc(l.substr(3)) + "\n";
        else if (l == "in") input += "\n";
        else if (startsWith(l, "last ")) { input += unesc(l.substr(5)); }
        else if (startsWith(l, "cfg ")) { pre = atol(l.c_str() + l.find("pre=") + 4); cut = l.find("cut=1") != std::string::npos; dmg = l.find("dmg=1") != std::string::npos; }
        else if (startsWith(l, "full ")) P.full = atol(l.c_str() + 5);
        else if (startsWith(l, "fault ") && P.nf < 64)
        {
            auto v = splitWs(l);
            Fault f = { kOther, 'a', 0, false, 0, 0, 0 };
            for (int k = 0; k < kKinds; ++k) if (v[1] == kindNames[k]) f.kind = Kind(k);
            f.side = v[2][0];
            for (auto& w : v)
            {
                if (startsWith(w, "n=")) f.n = unsigned(atoi(w.c_str() + 2));
                if (startsWith(w, "e=")) f.err = atoi(w.c_str() + 2);
                if (startsWith(w, "short=")) f.shortTo = atol(w.c_str() + 6);
                if (startsWith(w, "lose=")) f.lose = atol(w.c_str() + 5);
                if (w == "from") f.from = true;
            }
            P.f[P.nf++] = f;
        }
    }
    if (cut) { st(stInputCut); shm->nontrivial = 1; }
    if (dmg) { st(stInputDamage); shm->nontrivial = 1; }
    std::string in = scratchDir + "/in.txt", out = scratchDir + "/out.hxx";
    snprintf(P.in, sizeof P.in, "%s", in.c_str()); snprintf(P.dir, sizeof P.dir, "%s/", scratchDir.c_str());
    auto put = [](const std::string& path, const std::string& data) {
        FILE* f = fopen(path.c_str(), "w");
        if (!f || fwrite(data.data(), 1, data.size(), f) != data.size() || fclose(f)) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(3); }
    };
    put(in, input);
    unlink(out.c_str());
    if (pre) put(out, std::string(size_t(pre), '#'));
    P.maxOut = 4 * long(input.size()) + 4096;
    P.cap = 4 * input.size() + 40000;
    shm->aux[2] = 0;
    pid_t pid = fork();
    if (pid < 0) _exit(3);
    if (pid == 0)
    {
        int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
        signal(SIGALRM, SIG_DFL); alarm(120);
        long cpu = 2000 + long(input.size()) / 200;        // milliseconds of processor time
        itimerval it = { { 0, 0 }, { cpu / 1000, cpu % 1000 * 1000 } };
        signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &it, nullptr);
        signal(SIGPIPE, SIG_IGN);
        rlimit rl = { 1u << 28, 1u << 28 }; setrlimit(RLIMIT_FSIZE, &rl);
        rl.rlim_cur = rl.rlim_max = 2ull << 30; setrlimit(RLIMIT_AS, &rl);
        static char a0[] = "mkUnicodeTestData";
        static char a1[512], a2[512];
        strcpy(a1, in.c_str()); strcpy(a2, out.c_str());
        static char* argv[] = { a0, a1, a2, nullptr };
        if (!trap()) { shm->aux[2] = 9; rawCall(SYS_exit_group, 3, 0, 0, 0, 0, 0); }
        exit(tool_main(3, argv));
    }
    int stt = 0;
    while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {}
    if (shm->aux[2] == 9) { _exit(3); }
    st(stOps);
    ev(uint64_t(stt)); ilv(hashStr(input));
    bool ended = WIFEXITED(stt);
    std::string output;
    if (FILE* f = fopen(out.c_str(), "r")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) { output.append(b, n); if (output.size() > (64u << 20)) break; } fclose(f); }
    evs(output);
    if (judgeOutput)
    {
        if (ended && WEXITSTATUS(stt) == 0 && !shm->aux[2])
        {
            std::string why = judge(input, output);
            if (!why.empty()) violate("incomplete", "exit status 0 but " + why);
        }
    }
    else
    {
        if (shm->aux[2] == 1) violate("endless", "the generator made more than " + num(P.cap) + " system calls on its files and did not stop");
        if (shm->aux[2] == 2) violate("runaway", "the generator wrote more than " + num(uint64_t(P.maxOut)) + " bytes for " + num(input.size()) + " bytes of input");
        if (WIFSIGNALED(stt) && (WTERMSIG(stt) == SIGALRM || WTERMSIG(stt) == SIGPROF)) violate("endless", "the generator did not stop");
        if (WIFSIGNALED(stt)) violate("crash", "the generator was killed by signal " + num(uint64_t(WTERMSIG(stt))));
    }
}
static void execC11(const Lines& l) { execTool(l, true); }
static void execC12(const Lines& l) { execTool(l, false); }
static Reg r11({ "C11", genC11, execC11, nullptr, false, 60 });
static Reg r12({ "C12", genC12, execC12, nullptr, false, 60 });
