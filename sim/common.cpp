#include "common.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <algorithm>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

Shm* shm;
int unicodeVersion = 0;
std::string scratchDir;
std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
Reg::Reg(const Prop& p) { props().push_back(p); }

const char* const statNames[kNumStats] = {
    "preemption", "conflict_preemption", "thread_stopped_for_ever", "interruption", "nested_interruption", "allocation_failure",
    "allocations_granted", "waits", "static_initialisers_run", "static_destructors_run", "calls_before_initialisation", "calls_after_destruction",
    "ambient_change", "buffer_reuse", "history_repetition", "cut", "torn_character", "damage_flip", "damage_overwrite", "damage_loss", "damage_repeat",
    "damage_swap", "damage_splice", "fragment", "retry", "damaged_stream", "hop", "guard_page_call", "read_only_argument", "exact_heap_buffer",
    "small_stack_call", "long_input", "open_failure", "short_read", "short_write", "eintr", "read_error", "write_error", "close_error", "stat_failure",
    "input_cut", "input_damage", "operations", "shared_writes_observed", "shared_argument_calls", "atomic_accesses", "lock_operations", "thread_local_destructors", "kept_predicate_calls" };

void violate(const std::string& cls, const std::string& detail)
{
    if (!shm->violated)
    {
        shm->violated = 1;
        snprintf(shm->cls, sizeof shm->cls, "%s", cls.c_str());
        snprintf(shm->detail, sizeof shm->detail, "%s", detail.c_str());
    }
    _exit(77);
}

// ================================================================ small helpers
std::string num(uint64_t v) { return std::to_string(v); }
std::string hexOf(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); return b; }
bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
std::vector<std::string> splitWs(const std::string& s, size_t maxParts)
{
    std::vector<std::string> v; size_t i = 0;
    while (i < s.size())
    {
        while (i < s.size() && s[i] == ' ') ++i;
        if (i >= s.size()) break;
        if (maxParts && v.size() + 1 == maxParts) { v.push_back(s.substr(i)); break; }
        size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size();
        v.push_back(s.substr(i, j - i)); i = j;
    }
    return v;
}
std::string unitsText(const Units& u)
{
    std::string r;
    for (size_t i = 0; i < u.size();)
    {
        size_t j = i; while (j < u.size() && u[j] == u[i]) ++j;
        if (!r.empty()) r += '.';
        r += hexOf(u[i]);
        if (j - i > 1) { r += '*'; r += num(j - i); }
        i = j;
    }
    return r.empty() ? "-" : r;
}
bool unitsParse(const std::string& s, Units& u)
{
    u.clear();
    if (s == "-") return true;
    const char* p = s.c_str();
    while (*p)
    {
        char* e; unsigned long v = strtoul(p, &e, 16); if (e == p) return false;
        unsigned long n = 1; p = e;
        if (*p == '*') { n = strtoul(p + 1, &e, 10); p = e; }
        u.insert(u.end(), n, uint32_t(v));
        if (*p == '.') ++p;
    }
    return true;
}
std::string Op::text() const
{
    std::string r = name + " w=" + num(w) + " f=" + form;
    if (tgt >= 0) r += " t=" + num(tgt);
    if (!pred.empty()) r += " p=" + pred;
    if (hasLang) r += " l=" + lang;
    if (enc) r += " e=" + num(enc);
    r += " x=" + unitsText(x);
    if (!y.empty()) r += " y=" + unitsText(y);
    return r;
}
bool Op::parse(const std::string& line, Op& op)
{
    op = Op();
    auto v = splitWs(line);
    if (v.empty()) return false;
    op.name = v[0];
    for (size_t i = 1; i < v.size(); ++i)
    {
        if (v[i].size() < 2 || v[i][1] != '=') return false;
        std::string a = v[i].substr(2);
        switch (v[i][0])
        {
        case 'w': op.w = atoi(a.c_str()); break;
        case 'f': op.form = a.empty() ? 's' : a[0]; break;
        case 't': op.tgt = atoi(a.c_str()); break;
        case 'p': op.pred = a; break;
        case 'l': op.hasLang = true; op.lang = a; break;
        case 'e': op.enc = atoi(a.c_str()); break;
        case 'x': if (!unitsParse(a, op.x)) return false; break;
        case 'y': if (!unitsParse(a, op.y)) return false; break;
        default: return false;
        }
    }
    return true;
}

// ================================================================ encodings
bool encodable(uint32_t c, int w)
{
    if (c >= 0xd800 && c <= 0xdfff) return false;
    if (w == 8) return c <= 0x7fffffff;
    if (w == 16) return c <= 0x10ffff;
    if (w == 2) return c <= 0xffff;
    return true;
}
bool fitsTarget(uint32_t c, int t)
{
    switch (t)
    {
    case 0: return c <= 0x7f;
    case 1: return c <= 0x7fffffff;
    case 2: return c <= 0xffff;
    case 3: case 5: return c <= 0x10ffff;
    default: return true;
    }
}
bool encodeModel(int w, uint32_t c, Units& o)
{
    if (!encodable(c, w)) return false;
    if (w == 8)
    {
        if (c < 0x80) o.push_back(c);
        else
        {
            int n = c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
            static const unsigned lead[] = { 0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc };
            o.push_back(lead[n] | (c >> (6 * (n - 1))));
            for (int i = n - 2; i >= 0; --i) o.push_back(0x80 | ((c >> (6 * i)) & 0x3f));
        }
    }
    else if (w == 16 && c >= 0x10000) { c -= 0x10000; o.push_back(0xd800 + (c >> 10)); o.push_back(0xdc00 + (c & 0x3ff)); }
    else o.push_back(c);
    return true;
}
Units encodeAll(int w, const Units& cps) { Units o; for (auto c : cps) encodeModel(w, c, o); return o; }

static int lead8(uint32_t b)
{
    if (b < 0x80) return 1;
    if (b < 0xc0) return -1;
    if (b < 0xe0) return 2;
    if (b < 0xf0) return 3;
    if (b < 0xf8) return 4;
    if (b < 0xfc) return 5;
    if (b < 0xfe) return 6;
    return -1;
}
Decoded decodeModel(int w, const Units& in)
{
    Decoded d;
    Units u;
    for (auto c : in) { if (!c) break; u.push_back(c); }
    size_t i = 0, n = u.size();
    auto bad = [&] { d.state = dBad; d.at = i; };
    auto torn = [&](bool comp) { d.state = dTorn; d.at = i; d.completable = comp; };
    while (i < n)
    {
        if (w == 8)
        {
            int k = lead8(u[i]);
            if (k < 0) { bad(); return d; }
            if (k == 1) { d.cps.push_back(u[i]); d.start.push_back(i); ++i; continue; }
            uint32_t v = u[i] & (0x7f >> k), lo, hi; int j = 1;
            for (; j < k; ++j)
            {
                if (i + j >= n) break;
                if ((u[i + j] & 0xc0) != 0x80) { bad(); return d; }
                v = (v << 6) | (u[i + j] & 0x3f);
            }
            static const uint32_t mins[] = { 0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000 };
            if (j < k)
            {
                lo = hi = v;
                for (int q = j; q < k; ++q) { lo <<= 6; hi = (hi << 6) | 0x3f; }
                torn(hi >= mins[k] && !(lo >= 0xdc00 && hi <= 0xdfff));
                return d;
            }
            if (v < mins[k] || (v >= 0xdc00 && v <= 0xdfff)) { bad(); return d; }
            if (v >= 0xd800 && v <= 0xdbff)
            {
                if (i + 3 >= n) { torn(true); return d; }
                if (u[i + 3] < 0xe0 || u[i + 3] > 0xef) { bad(); return d; }
                if (i + 4 >= n) { torn(u[i + 3] == 0xed); return d; }
                if ((u[i + 4] & 0xc0) != 0x80) { bad(); return d; }
                if (i + 5 >= n) { torn(u[i + 3] == 0xed && u[i + 4] >= 0xb0); return d; }
                if ((u[i + 5] & 0xc0) != 0x80) { bad(); return d; }
                uint32_t v2 = ((u[i + 3] & 0xf) << 12) | ((u[i + 4] & 0x3f) << 6) | (u[i + 5] & 0x3f);
                if (v2 < 0xdc00 || v2 > 0xdfff) { bad(); return d; }
                v = 0x10000 + ((v & 0x3ff) << 10) + (v2 & 0x3ff); k = 6;
            }
            d.cps.push_back(v); d.start.push_back(i); i += k;
        }
        else if (w == 16)
        {
            if (u[i] >= 0xdc00 && u[i] <= 0xdfff) { bad(); return d; }
            if (u[i] >= 0xd800 && u[i] <= 0xdbff)
            {
                if (i + 1 >= n) { torn(true); return d; }
                if (u[i + 1] < 0xdc00 || u[i + 1] > 0xdfff) { bad(); return d; }
                d.cps.push_back(0x10000 + ((u[i] & 0x3ff) << 10) + (u[i + 1] & 0x3ff)); d.start.push_back(i); i += 2;
            }
            else { d.cps.push_back(u[i]); d.start.push_back(i); ++i; }
        }
        else
        {
            if (u[i] >= 0xd800 && u[i] <= 0xdfff) { bad(); return d; }
            d.cps.push_back(u[i]); d.start.push_back(i); ++i;
        }
    }
    d.at = i;
    return d;
}

// ================================================================ generators
static const uint32_t edges[] = {
    1, 9, 0xa, 0xd, 0x1f, 0x20, 0x40, 0x41, 0x49, 0x5a, 0x61, 0x69, 0x7e, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xc0, 0xdf, 0xff, 0x100, 0x130, 0x131,
    0x17f, 0x1c4, 0x1c5, 0x377, 0x378, 0x3a3, 0x3c3, 0x3ff, 0x400, 0x7bf, 0x7c0, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x1680, 0x180e, 0x1e9e, 0x2000, 0x200a, 0x200b, 0x2028, 0x202f,
    0x205f, 0x2126, 0x212a, 0x212b, 0x3000, 0x3fff, 0x4000, 0xbfff, 0xc000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xefff, 0xf000, 0xf8ff, 0xfdd0, 0xfeff, 0xfffc, 0xfffd, 0xfffe, 0xffff,
    0x10000, 0x10001, 0x103ff, 0x10400, 0x1d400, 0x1f600, 0x1f64f, 0x1ffff, 0x20000, 0x2a6d6, 0x3ffff, 0x40000, 0x7ffff, 0x80000, 0xe0001, 0xeffff, 0xf0000, 0xffffd, 0xfffff, 0x100000, 0x10fffd, 0x10ffff };
static const uint32_t bigs[] = { 0x110000, 0x110001, 0x13ffff, 0x140000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff };
static const uint32_t spaces[] = { 9, 0xa, 0xd, 0x20, 0xa0, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a, 0x202f, 0x205f, 0x3000, 0x85, 0xb, 0xc, 0x2028, 0x2029, 0x1680 };
static const uint32_t caseBlocks[][2] = {
    { 0x41, 0x5a }, { 0xc0, 0xde }, { 0x100, 0x17f }, { 0x180, 0x24f }, { 0x370, 0x3ff }, { 0x400, 0x52f }, { 0x531, 0x556 }, { 0x10a0, 0x10cf }, { 0x13a0, 0x13fd },
    { 0x1c80, 0x1cbf }, { 0x1e00, 0x1fff }, { 0x2100, 0x218f }, { 0x24b6, 0x24e9 }, { 0x2c00, 0x2cff }, { 0xa640, 0xa69f }, { 0xa720, 0xa7ff }, { 0xab70, 0xabbf },
    { 0xff21, 0xff3a }, { 0x10400, 0x104d3 }, { 0x10570, 0x105bf }, { 0x10c80, 0x10cb2 }, { 0x10d50, 0x10d65 }, { 0x118a0, 0x118bf }, { 0x16e40, 0x16e5f }, { 0x1e900, 0x1e921 }, { 0x1e2c0, 0x1e2ff } };
enum { pAscii, pUpper, pEdge, pSpace, pLatin, pBmp, pSupp, pPrivate, pBig, pAny, pIs, kPools };

uint32_t genChar(Rng& r, int pool)
{
    uint32_t c = 0x61;
    switch (pool)
    {
    case pAscii: c = uint32_t(r.range(0x20, 0x7e)); break;
    case pUpper: { auto& b = caseBlocks[r.below(sizeof caseBlocks / sizeof *caseBlocks)]; c = uint32_t(r.range(b[0], b[1])); break; }
    case pEdge: c = edges[r.below(sizeof edges / sizeof *edges)]; break;
    case pSpace: c = spaces[r.below(sizeof spaces / sizeof *spaces)]; break;
    case pLatin: c = uint32_t(r.range(0x80, 0x7ff)); break;
    case pBmp: c = uint32_t(r.range(0x800, 0xffff)); break;
    case pSupp: c = uint32_t(r.chance(1, 2) ? r.range(0x10000, 0x1ffff) : r.range(0x10000, 0x10ffff)); break;
    case pPrivate: c = uint32_t(r.chance(1, 2) ? r.range(0xe000, 0xf8ff) : r.range(0xf0000, 0x10fffd)); break;
    case pBig: c = r.chance(1, 2) ? bigs[r.below(sizeof bigs / sizeof *bigs)] : uint32_t(r.range(0x110000, 0x7fffffff)); break;
    case pIs: { static const uint32_t is[] = { 0x49, 0x69, 0x130, 0x131, 0x307 }; c = is[r.below(5)]; break; }
    default: c = uint32_t(r.range(1, 0x10ffff)); break;
    }
    if (c >= 0xd800 && c <= 0xdfff) c -= 0x1000;
    return c;
}
size_t genLen(Rng& r, size_t maxLen)
{
    unsigned k = unsigned(r.below(100));
    size_t n;
    if (k < 18) n = r.below(4);
    else if (k < 60) n = r.range(1, 20);
    else if (k < 85) n = r.range(10, 80);
    else if (k < 96) n = r.range(60, 300);
    else n = r.range(200, maxLen < 300 ? 300 : maxLen > 1000 ? 1000 : maxLen);
    static const size_t around[] = { 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2048, 4096, 8192, 16384, 32768, 65536 };
    if (r.chance(1, 12)) n = around[r.below(16)] + r.below(3) - 1;
    // now and then as long as the caller allows, mostly next to a power of two
    if (maxLen > 1100 && r.chance(1, 40)) { n = around[r.range(16, 21)]; while (n > maxLen) n /= 2; n += r.chance(1, 2) ? r.below(5) - 2 : r.below(n); }
    return n > maxLen ? maxLen : n;
}
// characters only; the caller encodes them
Units genChars(Rng& r, int w, size_t maxLen, bool unicodeOnly)
{
    Units u;
    size_t n = genLen(r, maxLen);
    int mode = int(r.below(10));
    int p1 = int(r.below(kPools)), p2 = int(r.below(kPools));
    bool padded = r.chance(1, 4);
    for (size_t i = 0; i < n; ++i)
    {
        int p;
        if (mode < 2) p = pAscii;
        else if (mode < 4) p = r.chance(1, 8) ? p1 : pAscii;
        else if (mode < 6) p = r.chance(1, 3) ? p2 : p1;
        else if (mode < 7) p = r.chance(1, 20) ? int(r.below(kPools)) : p1;
        else p = int(r.below(kPools));
        if (p == pBig && (unicodeOnly || r.chance(3, 4) || !(w == 8 || w >= 32))) p = pEdge;
        u.push_back(genChar(r, p));
    }
    if (padded)
    {
        Units v;
        for (size_t k = r.below(4); k; --k) v.push_back(genChar(r, r.chance(1, 2) ? pSpace : pAscii) <= 0x20 ? 0x20 : genChar(r, pSpace));
        v.insert(v.end(), u.begin(), u.end());
        for (size_t k = r.below(4); k; --k) v.push_back(genChar(r, pSpace));
        u.swap(v);
        if (u.size() > maxLen) u.resize(maxLen);
    }
    return u;
}
// counters, buffers and tables of the code under test may have sizes of their own: text whose length comes to lie just
// beside a power of two, made so by repeating one or two of its characters
Units stretch(Rng& r, const Units& cps, size_t perUnit, bool far)
{
    static const size_t edge[] = { 127, 128, 255, 256, 512, 1023, 1024, 2048, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 131072 };
    size_t target = edge[far ? r.range(10, 15) : r.below(10)] / (perUnit ? perUnit : 1) + r.below(9);
    target = target > 4 ? target - 4 : 1;
    if (target <= cps.size()) return cps;
    Units u = cps.empty() ? Units(1, 0x61) : cps;
    size_t at = r.chance(1, 3) ? 0 : r.chance(1, 2) ? u.size() : r.below(u.size() + 1);
    uint32_t c = r.chance(1, 2) ? 0x61 : u[r.below(u.size())], d = r.chance(1, 4) ? u[r.below(u.size())] : c;
    Units run; while (run.size() + u.size() < target) run.push_back(run.size() % 2 ? d : c);
    u.insert(u.begin() + at, run.begin(), run.end());
    return u;
}
static uint32_t rndUnit(Rng& r, int w)
{
    if (w == 8)
    {
        static const uint32_t b[] = { 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0xa0, 0x9f, 0xb0, 0x41 };
        return r.chance(1, 2) ? b[r.below(24)] : uint32_t(r.range(1, 255));
    }
    if (w == 16)
    {
        static const uint32_t b[] = { 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0xffff, 0xfffe, 0xfeff, 0x41, 0xd83d, 0xde00 };
        return r.chance(1, 2) ? b[r.below(12)] : uint32_t(r.range(1, 0xffff));
    }
    static const uint32_t b[] = { 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x41 };
    return r.chance(1, 2) ? b[r.below(15)] : r.chance(1, 2) ? uint32_t(r.range(1, 0x10ffff)) : uint32_t(r.range(1, 0xffffffff));
}
// a sequence no conforming writer produces, or one next to the border of what is allowed
static Units oddSequence(Rng& r, int w)
{
    Units o;
    auto raw8 = [&](uint32_t c, int n) {
        static const unsigned lead[] = { 0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc }, bits[] = { 0, 0, 0x1f, 0xf, 7, 3, 1 };
        if (n == 1) { o.push_back(c & 0x7f); return; }
        o.push_back(lead[n] | ((c >> (6 * (n - 1))) & bits[n]));
        for (int i = n - 2; i >= 0; --i) o.push_back(0x80 | ((c >> (6 * i)) & 0x3f));
    };
    auto hi = [&] { return uint32_t(r.chance(1, 2) ? r.range(0xd800, 0xdbff) : r.chance(1, 2) ? 0xd800 : 0xdbff); };
    auto lo = [&] { return uint32_t(r.chance(1, 2) ? r.range(0xdc00, 0xdfff) : r.chance(1, 2) ? 0xdc00 : 0xdfff); };
    if (w == 8) switch (r.below(8))
    {
    case 0: case 1:
    {   // too long a form of a character, near the borders of each length
        static const uint32_t top[] = { 0x7f, 0x7ff, 0xffff, 0x1fffff, 0x3ffffff };
        int n = int(r.range(2, 6)), shorter = int(r.range(1, n - 1));
        uint32_t m = top[shorter - 1], c = r.chance(1, 2) ? m - uint32_t(r.below(3)) : r.chance(1, 3) ? uint32_t(r.range(1, m)) : m / 2 + uint32_t(r.below(m / 2));
        raw8(c, n); break;
    }
    case 2: { static const uint32_t b[] = { 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff }; encodeModel(8, b[r.below(12)], o); break; }
    case 3: raw8(hi(), 3); break;
    case 4: raw8(lo(), 3); break;
    case 5: raw8(lo(), 3); raw8(hi(), 3); break;
    case 6: { uint32_t h = hi(); raw8(h, 3); if (r.chance(1, 2)) { raw8(lo(), 3); break; } if (r.chance(1, 3)) raw8(hi(), 3); else if (r.chance(1, 2)) encodeModel(8, genChar(r, int(r.below(kPools))), o); else raw8(0xe000 + uint32_t(r.below(2)) * 0x1fff, 3); break; }
    default: o.push_back(r.chance(1, 2) ? uint32_t(r.range(0xfe, 0xff)) : uint32_t(r.range(0x80, 0xbf))); break;
    }
    else if (w == 16) switch (r.below(4))
    {
    case 0: o.push_back(hi()); break;
    case 1: o.push_back(lo()); break;
    case 2: o.push_back(lo()); o.push_back(hi()); break;
    default: o.push_back(hi()); o.push_back(r.chance(1, 2) ? hi() : r.chance(1, 2) ? 0xe000 : lo()); break;
    }
    else switch (r.below(4))
    {
    case 0: o.push_back(hi()); break;
    case 1: o.push_back(lo()); break;
    case 2: o.push_back(hi()); o.push_back(lo()); break;
    default: { static const uint32_t b[] = { 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff, 0x80000000, 0xffffffff }; o.push_back(b[r.below(w == 99 ? 4 : 11)]); break; }
    }
    return o;
}
Units damage(Rng& r, const Units& in, int w, std::vector<std::string>* log)
{
    Units u = in;
    unsigned bits = w == 8 ? 8 : w == 16 ? 16 : 32;
    int k = int(r.range(1, 3));
    while (k--)
    {
        if (u.empty()) { u.push_back(rndUnit(r, w)); if (log) log->push_back("over"); continue; }
        size_t i = r.below(u.size());
        if (r.chance(1, 4)) i = r.chance(1, 2) ? 0 : u.size() - 1;
        switch (r.below(8))
        {
        case 6: case 7:
        {   // a foreign sequence inserted, or written over what was there
            Units c = oddSequence(r, w);
            size_t at = w == 8 ? [&] { size_t j = i; while (j && (u[j] & 0xc0) == 0x80) --j; return j; }() : i;
            if (r.chance(1, 4)) at = u.size();
            if (r.chance(1, 2)) u.insert(u.begin() + at, c.begin(), c.end());
            else for (size_t q = 0; q < c.size(); ++q) if (at + q < u.size()) u[at + q] = c[q]; else u.push_back(c[q]);
            if (log) log->push_back("splice");
            break;
        }
        case 0: u[i] ^= 1u << r.below(w >= 32 && r.chance(3, 4) ? 21 : bits); if (log) log->push_back("flip"); break;
        case 1: u[i] = rndUnit(r, w); if (log) log->push_back("over"); break;
        case 2: { size_t n = 1 + r.below(std::min<size_t>(4, u.size() - i)); u.erase(u.begin() + i, u.begin() + i + n); if (log) log->push_back("lose"); break; }
        case 3: { size_t n = 1 + r.below(std::min<size_t>(4, u.size() - i)); Units c(u.begin() + i, u.begin() + i + n); u.insert(u.begin() + i, c.begin(), c.end()); if (log) log->push_back("dup"); break; }
        case 4: if (i + 1 < u.size()) std::swap(u[i], u[i + 1]); if (log) log->push_back("swap"); break;
        default: { size_t j = r.below(u.size()); Units c(u.begin() + std::min(i, j), u.begin() + std::max(i, j)); if (c.size() > 64) c.resize(64); size_t at = r.below(u.size() + 1); u.insert(u.begin() + at, c.begin(), c.end()); if (log) log->push_back("splice"); break; }
        }
    }
    for (auto& c : u) { if (w == 8) c &= 0xff; else if (w == 16) c &= 0xffff; }
    return u;
}
// text as code units; sometimes supplementary characters as two 3-byte sequences
static Units encodeSome(Rng& r, int w, const Units& cps)
{
    if (w != 8 || !r.chance(1, 10)) return encodeAll(w == 99 ? 32 : w, cps);
    Units o;
    for (auto c : cps)
        if (c >= 0x10000 && c <= 0x10ffff && r.chance(2, 3))
            for (uint32_t h : { 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff) })
            { o.push_back(0xe0 | h >> 12); o.push_back(0x80 | (h >> 6 & 0x3f)); o.push_back(0x80 | (h & 0x3f)); }
        else encodeModel(8, c, o);
    return o;
}
Units genText(Rng& r, int w, size_t maxLen)
{
    Units u = encodeSome(r, w, genChars(r, w, maxLen, false));
    unsigned k = unsigned(r.below(10));
    if (k < 6) return u;
    if (k == 6) { if (!u.empty()) u.resize(r.below(u.size() + 1)); return u; }
    if (k < 9) return damage(r, u, w, nullptr);
    for (auto& c : u) c = rndUnit(r, w);
    return u;
}

const char* const familyNames[kFamilies] = { "is8", "is16", "is32", "isWide", "from8", "from16", "from32", "wide", "len", "lower8", "lower16_32", "codepage", "trim", "splitjoin", "pred", "misc" };

std::string genLang(Rng& r)
{
    static const char* const langs[] = { "tr", "az", "tt", "kk", "tur", "aze", "azb", "azj", "tat", "kaz", "en", "de", "t", "trx", "tro", "azx", "", "kk-", "fr", "TR",
        "tr-TR", "en-US", "az-Latn-AZ", "turkish", "tr_TR.UTF-8", "kaz-Cyrl", "azerbaijani", "zh-Hans-CN-x-private", "x", "aa", "zz", "tu", "ka", "ta", "Az", "tR", "AZE", "sl-rozaj-biske-1994" };
    if (r.chance(1, 2)) return langs[r.below(12)];
    if (r.chance(1, 8)) { std::string s; for (size_t n = r.chance(1, 3) ? r.range(8, 70) : r.range(1, 5); n; --n) s += char(r.range('a', 'z')); return s; }
    return langs[r.below(sizeof langs / sizeof *langs)];
}
std::string genPred(Rng& r)
{
    std::string s;
    for (size_t k = r.range(1, 3); k; --k) { s += r.chance(1, 2) ? '+' : '-'; s += char('0' + r.range(r.chance(1, 10) ? 0 : 1, r.chance(1, 20) ? 5 : 4)); }
    return s;
}
static char sp(Rng& r) { return r.chance(1, 30) ? 'n' : r.chance(1, 2) ? 's' : 'p'; }

Op genOp(Rng& r, int fam, size_t maxLen)
{
    Op o;
    auto is = [&](const char* n, int w) { o.name = n; o.w = w; o.form = sp(r); if (r.chance(2, 3)) o.tgt = int(r.below(r.chance(1, 20) ? 7 : 6)); if (r.chance(1, 3)) o.pred = genPred(r); };
    switch (fam)
    {
    case 0: is("isUtf8", 8); if (r.chance(1, 4)) { o.form = 'l'; o.tgt = -1; } break;
    case 1: is(r.chance(1, 2) ? "isUtf16" : "isUcs2", 16); break;
    case 2: is("isUcs4", 32); break;
    case 3:
        if (r.chance(1, 2)) { static const char* const n[] = { "isUtf8", "isUtf16", "isUcs2", "isUcs4" }; o.name = n[r.below(4)]; o.w = 99; }
        else { static const int ws[] = { 8, 16, 32 }; o.name = "isWstring"; o.w = ws[r.below(3)]; }
        o.form = r.chance(1, 2) ? 's' : 'p';
        break;
    case 4: { static const char* const n[] = { "toUcs2", "toUtf16", "toUcs4" }; o.name = n[r.below(3)]; o.w = 8; o.form = sp(r); break; }
    case 5: o.name = r.chance(1, 2) ? "toUtf8" : "toUcs4"; o.w = 16; o.form = sp(r); break;
    case 6: { static const char* const n[] = { "toUtf8", "toUcs2", "toUtf16" }; o.name = n[r.below(3)]; o.w = 32; o.form = sp(r); break; }
    case 7:
        if (r.chance(1, 2)) { static const int ws[] = { 8, 16, 32 }; o.name = "toWstring"; o.w = ws[r.below(3)]; }
        else { static const char* const n[] = { "toUtf8", "toUtf16", "toUcs2", "toUcs4" }; o.name = n[r.below(4)]; o.w = 99; }
        o.form = r.chance(1, 2) ? 's' : 'p';
        break;
    case 8: { static const int ws[] = { 8, 16, 32 }; o.name = "len"; o.w = ws[r.below(3)]; unsigned k = unsigned(r.below(3)); o.form = k == 0 ? 's' : k == 1 ? 'p' : 'l'; break; }
    case 9: o.name = "lower"; o.w = 8; break;
    case 10: o.name = "lower"; o.w = r.chance(1, 2) ? 16 : 32; break;
    case 11: o.name = "cp"; o.w = 8; o.form = 'p'; o.enc = int(r.range(r.chance(1, 8) ? 0 : 1, r.chance(1, 20) ? 3 : 2)); break;
    case 12:
    {
        unsigned k = unsigned(r.below(4)); static const int ws[] = { 8, 16, 32, 99 };
        if (k == 0) { o.name = "trim"; o.w = ws[r.below(4)]; }
        else if (k == 1) { o.name = "trimSet"; o.w = ws[r.below(4)]; }
        else if (k == 2) { o.name = "trimA7"; o.w = 8; }
        else { o.name = "trimWS"; o.w = ws[r.below(3)]; }
        break;
    }
    case 13: { static const int ws[] = { 8, 16, 32, 99 }; o.name = r.chance(1, 2) ? "split" : "join"; o.w = ws[r.below(4)]; break; }
    case 14: { static const int ws[] = { 8, 16, 32 }; o.name = "pred"; o.w = ws[r.below(3)]; o.pred = r.chance(1, 12) ? "0" : genPred(r); break; }
    default: if (r.chance(1, 5)) { o.name = "ver"; o.form = 's'; } else { o.name = "dec"; o.w = 8; o.form = 'p'; } break;
    }
    if (o.name == "lower" && r.chance(2, 3))
    {
        o.hasLang = true; o.lang = genLang(r);
    }
    if (o.name == "ver") return o;
    if (o.name == "cp")
    {
        size_t n = genLen(r, maxLen);
        bool ok = r.chance(2, 3);
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t c = uint32_t(r.chance(1, 2) ? r.range(0x20, 0x7e) : r.range(0x80, 0xff));
            if (ok && (c == 0x81 || c == 0x83 || c == 0x88 || c == 0x8d || c == 0x8f || c == 0x90 || c == 0x98 || c == 0x9d)) c = 0xe4;
            o.x.push_back(c);
        }
        return o;
    }
    o.x = genText(r, o.w, maxLen);
    if (o.form == 'n') o.x.clear();
    if (o.form == 'l' && o.x.empty()) o.x.push_back(0x61);
    if (o.name == "lower" && o.w == 32 && r.chance(1, 20) && !o.x.empty()) o.x[r.below(o.x.size())] = 0;
    if (o.name == "len" && r.chance(2, 3)) { Units c = genChars(r, o.w, maxLen, true); o.x = encodeAll(o.w, c); if (o.x.empty()) o.x.push_back(0x61); if (r.chance(1, 4)) o.x.resize(1 + r.below(o.x.size())); }
    if (o.name == "split" || o.name == "join")
    {
        uint32_t d = r.chance(1, 2) ? 0x3b : o.x.empty() ? 0x2c : o.x[r.below(o.x.size())];
        if (d >= 0xfffffff0u) d = 0x2c;
        o.y.assign(1, d);
        for (auto& c : o.x) { if (c >= 0xfffffff0u) c = 0x61; if (r.chance(1, 9)) c = o.name == "join" ? uint32_t(kSep) : d; }
        if (o.name == "join" && r.chance(1, 20)) o.x.assign(1, kSep - 1);
    }
    if (o.name == "trimSet") { o.y = { 0x20, 9 }; for (size_t k = r.below(4); k; --k) o.y.push_back(o.x.empty() || r.chance(1, 3) ? 0x2e : o.x[r.below(o.x.size())]); }
    if (startsWith(o.name, "trim") && r.chance(2, 3) && o.w != 8)
    {
        size_t k = r.below(5);
        for (size_t i = 0; i < k; ++i) { o.x.insert(o.x.begin(), r.chance(1, 2) ? 0x20 : spaces[r.below(4)]); o.x.push_back(spaces[r.below(5)]); }
    }
    else if (startsWith(o.name, "trim")) for (size_t k = r.below(5); k; --k) { o.x.insert(o.x.begin(), 0x20); o.x.push_back(r.chance(1, 2) ? 0x20 : 9); }
    return o;
}
bool isCheckOp(const Op& op) { return op.name.compare(0, 2, "is") == 0 || op.name == "len" || op.name == "pred" || op.name == "dec"; }
int familyOf(const Op& op)
{
    const std::string& n = op.name;
    if (n == "isWstring" || (op.w == 99 && n.compare(0, 2, "is") == 0)) return 3;
    if (n == "isUtf8") return 0;
    if (n == "isUtf16" || n == "isUcs2") return 1;
    if (n == "isUcs4") return 2;
    if (n == "toWstring" || (op.w == 99 && n.compare(0, 2, "to") == 0)) return 7;
    if (n.compare(0, 2, "to") == 0) return op.w == 8 ? 4 : op.w == 16 ? 5 : 6;
    if (n == "len") return 8;
    if (n == "lower") return op.w == 8 ? 9 : 10;
    if (n == "cp") return 11;
    if (n.compare(0, 4, "trim") == 0) return 12;
    if (n == "split" || n == "join") return 13;
    if (n == "pred") return 14;
    return 15;
}

// ================================================================ arguments
void ArgHolder::build(const Op& op)
{
    if (op.w == 8) h8.build(op, a.a8);
    else if (op.w == 16) h16.build(op, a.a16);
    else if (op.w == 32) h32.build(op, a.a32);
    else hw.build(op, a.aw);
    lang = op.lang; a.lang = lang.c_str();
}
bool ArgHolder::same(const Op& op) const
{
    if (lang != op.lang) return false;
    return op.w == 8 ? h8.same(op) : op.w == 16 ? h16.same(op) : op.w == 32 ? h32.same(op) : hw.same(op);
}
bool ArgHolder::victimSame(const Op& op) const
{
    return op.w == 8 ? h8.victimSame() : op.w == 16 ? h16.victimSame() : op.w == 32 ? h32.victimSame() : hw.victimSame();
}

// ================================================================ forked execution
static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static void resetShm() { memset(shm, 0, offsetof(Shm, sw)); shm->hash = 17; shm->ilv = 23; }

struct Outcome { bool bad = false; std::string cls, detail; uint64_t hash = 0, ilv = 0, steps = 0; bool nontrivial = false; std::vector<SwRec> sw; bool swOverflow = false; int status = 0; };

static Outcome forkRun(unsigned timeout, bool init, const std::function<void()>& f)
{
    Outcome o;
    resetShm();
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0)
    {
        rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        signal(SIGALRM, SIG_DFL);
        int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 2);
        alarm(timeout);
        itimerval cpu = {}; cpu.it_value.tv_sec = timeout > 20 ? timeout / 2 : 4; signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &cpu, nullptr);
        if (init) rtInitAll();
        f();
        _exit(0);
    }
    int stt = 0;
    while (waitpid(p, &stt, 0) < 0 && errno == EINTR) {}
    o.status = stt;
    if (shm->violated) { o.bad = true; o.cls = shm->cls; o.detail = shm->detail; }
    else if (WIFSIGNALED(stt))
    {
        o.bad = true;
        int s = WTERMSIG(stt);
        o.cls = s == SIGALRM || s == SIGPROF ? "hang" : "crash";
        o.detail = s == SIGALRM || s == SIGPROF ? "no answer within the time limit" : std::string("the process was killed by signal ") + num(s) + " (" + strsignal(s) + ")";
        if (shm->result[0]) o.detail += std::string(" in ") + shm->result;
        if (s == SIGKILL) { fprintf(stderr, "run killed from outside\n"); exit(3); }
    }
    else if (WEXITSTATUS(stt) == 99) { o.bad = true; o.cls = "memory-error"; o.detail = std::string("AddressSanitizer reported an invalid memory access in ") + shm->result; }
    else if (WEXITSTATUS(stt) != 0)
    {
        if (WEXITSTATUS(stt) == 3) { fprintf(stderr, "simulator error in a run\n"); exit(3); }
        o.bad = true; o.cls = "exit"; o.detail = "the process ended itself with status " + num(WEXITSTATUS(stt));
    }
    o.hash = shm->hash; o.ilv = shm->ilv; o.steps = shm->steps; o.nontrivial = shm->nontrivial;
    o.swOverflow = shm->swOverflow;
    o.sw.assign(shm->sw, shm->sw + shm->nsw);
    return o;
}

static std::unordered_map<std::string, Solo> soloCache;
static uint64_t soloRuns, soloBroken;
const Solo& solo(const std::string& text)
{
    auto it = soloCache.find(text);
    if (it != soloCache.end()) return it->second;
    Solo s;
    Op op;
    if (!Op::parse(text, op)) { fprintf(stderr, "bad operation: %s\n", text.c_str()); exit(3); }
    // the shared page may hold the outcome of a run in progress of being reported: keep it
    static std::vector<char> keep; keep.assign(reinterpret_cast<char*>(shm), reinterpret_cast<char*>(shm) + offsetof(Shm, sw));
    uint32_t nsw = shm->nsw;
    Outcome o = forkRun(20, true, [&] {
        ArgHolder h; h.build(op);
        rtBegin();
        rtAllocPlan(AllocPlan());
        std::string res;
        uint64_t s0 = rtSteps();
        execOp(op, h.a, res);
        shm->steps = rtSteps() - s0; shm->aux[0] = rtAllocs();
        snprintf(shm->result, sizeof shm->result, "%s", res.c_str());
    });
    ++soloRuns;
    s.ok = !o.bad;
    if (o.bad) { ++soloBroken; s.result = "broken:" + o.cls; }
    else { s.result = shm->result; s.steps = shm->steps; s.allocs = shm->aux[0]; }
    memcpy(shm, keep.data(), keep.size()); shm->nsw = nsw;
    return soloCache[text] = s;
}

Pool& poolFor(const std::string& prop, uint64_t seed, uint64_t block, size_t n, size_t maxLen, bool checksOnly)
{
    static std::map<std::string, Pool> pools;
    std::string key = prop + (checksOnly ? "c" : "a");
    static std::map<std::string, uint64_t> have;
    Pool& p = pools[key];
    if (!p.ops.empty() && have[key] == block) return p;
    p = Pool(); have[key] = block;
    p.byFamily.resize(kFamilies);
    Rng r(mix(mix(seed, block * 1000 + unicodeVersion), hashStr(key)));
    static const int checkFams[] = { 0, 1, 2, 3, 8, 14, 15 };
    // a few sets of conditions come up again and again, so that kept predicates are really shared
    Rng rp(mix(seed, mix(block, 77)));
    std::string common[3]; for (auto& c : common) c = genPred(rp);
    for (size_t i = 0; i < n; ++i)
    {
        int fam = checksOnly ? checkFams[i % 7] : int(i % kFamilies);
        Op op = genOp(r, fam, maxLen);
        if (checksOnly && !isCheckOp(op)) { op = genOp(r, 0, maxLen); fam = 0; }
        if (!op.pred.empty() && op.pred != "0" && r.chance(1, 2)) op.pred = common[r.below(3)];
        std::string t = op.text();
        if (!solo(t).ok) continue;
        p.byFamily[fam].push_back(int(p.ops.size()));
        p.ops.push_back(op); p.text.push_back(t);
    }
    return p;
}

// ================================================================ running, minimising, reporting a case
static Outcome runCase(const Prop& p, const Lines& lines)
{
    if (soloCache.size() > 60000) soloCache.clear();
    if (p.opsOf) for (auto& t : p.opsOf(lines)) solo(t);
    return forkRun(p.timeout, !p.ownInit, [&] { p.exec(lines); });
}

// replace the random schedule by the recorded one
static Lines explicitCase(const Lines& in, const Outcome& o)
{
    Lines out;
    bool had = false;
    for (auto& l : in)
    {
        if (startsWith(l, "sched ")) { had = true; out.push_back("sched x race=" + std::string(l.find("race=0") != std::string::npos ? "0" : "1")); }
        else out.push_back(l);
    }
    if (!had) return in;
    for (auto& s : o.sw) out.push_back("sw " + num(s.t) + "@" + num(s.step) + ">" + num(s.to) + (s.kind ? " end" : ""));
    return out;
}
static bool removable(const std::string& l) { return !startsWith(l, "sched ") && !startsWith(l, "cfg "); }

static uint64_t minimiseRuns;
static Lines minimise(const Prop& p, Lines c, const std::string& cls, double wall)
{
    double end = now() + wall;
    auto fails = [&](const Lines& l) { ++minimiseRuns; Outcome o = runCase(p, l); return o.bad && o.cls == cls; };
    // drop lines
    for (size_t chunk = std::max<size_t>(1, c.size() / 2); now() < end;)
    {
        bool any = false;
        for (size_t i = 0; i < c.size() && now() < end;)
        {
            Lines t; size_t dropped = 0;
            for (size_t j = 0; j < c.size(); ++j)
                if (j >= i && j < i + chunk && removable(c[j])) ++dropped; else t.push_back(c[j]);
            if (dropped && fails(t)) { c.swap(t); any = true; }
            else i += chunk;
        }
        if (chunk == 1) { if (!any) break; }
        else chunk = std::max<size_t>(1, chunk / 2);
    }
    // shrink unit lists: halves, then quarters, ... then simpler units
    for (int pass = 0; pass < 2 && now() < end; ++pass)
        for (size_t li = 0; li < c.size() && now() < end; ++li)
        {
            size_t at = c[li].find(" x=");
            if (at == std::string::npos) continue;
            size_t e = c[li].find(' ', at + 1); if (e == std::string::npos) e = c[li].size();
            Units u;
            if (!unitsParse(c[li].substr(at + 3, e - at - 3), u)) continue;
            auto with = [&](const Units& v) { Lines t = c; t[li] = c[li].substr(0, at + 3) + unitsText(v) + c[li].substr(e); return t; };
            auto take = [&](const Units& v) { Lines t = with(v); if (!fails(t)) return false; c.swap(t); u = v; e = c[li].find(' ', at + 1); if (e == std::string::npos) e = c[li].size(); return true; };
            for (size_t chunk = std::max<size_t>(1, u.size() / 2); now() < end; chunk /= 2)
            {
                for (size_t i = 0; i < u.size() && now() < end;)
                {
                    Units v(u.begin(), u.begin() + i); if (i + chunk < u.size()) v.insert(v.end(), u.begin() + i + chunk, u.end());
                    if (!take(v)) i += chunk;
                }
                if (chunk == 1 || chunk == 0) break;
            }
            if (u.size() <= 64) for (size_t i = 0; i < u.size() && now() < end; ++i) if (u[i] != 0x61) { Units v = u; v[i] = 0x61; take(v); }
        }
    return c;
}

static std::string jsonStr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += char(c); }
    return r + "\"";
}

static void writeCase(const std::string& path, const Prop& p, const Lines& l, const Outcome& o, uint64_t seed, uint64_t index, const Lines& original)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); exit(3); }
    fprintf(f, "# property %s\n# unicode %d\n# seed %llu run %llu\n# class %s\n# detail %s\n# hash %llx\n", p.id, unicodeVersion,
            (unsigned long long)seed, (unsigned long long)index, o.cls.c_str(), o.detail.c_str(), (unsigned long long)o.hash);
    for (auto& s : l) fprintf(f, "%s\n", s.c_str());
    fprintf(f, "# --- the run as generated, before minimisation\n");
    for (auto& s : original) fprintf(f, "#   %s\n", s.size() > 2000 ? (s.substr(0, 2000) + "...").c_str() : s.c_str());
    fclose(f);
}

static Lines readCase(const std::string& path, std::string& prop, std::string& cls, std::string& hash)
{
    Lines l;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) { perror(path.c_str()); exit(3); }
    std::string buf; int c;
    auto flush = [&] {
        if (startsWith(buf, "# property ")) prop = buf.substr(11);
        else if (startsWith(buf, "# class ")) cls = buf.substr(8);
        else if (startsWith(buf, "# hash ")) hash = buf.substr(7);
        else if (!buf.empty() && buf[0] != '#') l.push_back(buf);
        buf.clear();
    };
    while ((c = fgetc(f)) != EOF) { if (c == '\n') flush(); else buf += char(c); }
    flush();
    fclose(f);
    return l;
}

int main(int argc, char** argv)
{
    rtPinAndFix(argv);
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shm == MAP_FAILED) { perror("mmap"); return 3; }
    unicodeVersion = atoi(a["--unicode"].c_str());
    scratchDir = a["--scratch"];

    if (a.count("--replay"))
    {
        std::string id, cls, hash;
        Lines l = readCase(a["--replay"], id, cls, hash);
        for (auto& p : props()) if (id == p.id)
        {
            Outcome o = runCase(p, l), o2 = runCase(p, l);
            if (!o.bad) { printf("REPLAY held\n"); return 0; }
            printf("REPLAY violated class=%s hash=%llx again=%s detail=%s\n", o.cls.c_str(), (unsigned long long)o.hash,
                   o2.bad && o2.cls == o.cls && o2.hash == o.hash ? "same" : "differs", o.detail.c_str());
            return 1;
        }
        fprintf(stderr, "unknown property %s\n", id.c_str());
        return 3;
    }

    const Prop* prop = nullptr;
    for (auto& p : props()) if (a["--prop"] == p.id) prop = &p;
    if (!prop) { fprintf(stderr, "unknown property\n"); return 3; }
    uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10), first = strtoull(a["--first"].c_str(), nullptr, 10), count = strtoull(a["--count"].c_str(), nullptr, 10);
    double wall = atof(a["--wall"].c_str()); if (wall <= 0) wall = 1e9;
    unsigned dump = atoi(a["--dump"].c_str());
    double t0 = now();
    uint64_t stat[kNumStats] = {}; uint64_t runs = 0, steps = 0, nontriv = 0, dups = 0, mismatches = 0;
    std::unordered_set<uint64_t> ilvs, ntriv;
    std::string violation, samples;
    int nsamples = 0;
    std::vector<uint64_t> seenHashes;
    for (uint64_t i = first; i < first + count; ++i)
    {
        if (now() - t0 > wall) break;
        Rng r(mix(mix(seed, hashStr(prop->id)), mix(i, unicodeVersion)));
        r.next();
        Lines l = prop->gen(r, seed, i);
        if (l.empty()) continue;
        Outcome o = runCase(*prop, l);
        ++runs; steps += o.steps;
        for (int k = 0; k < kNumStats; ++k) stat[k] += shm->stat[k];
        ilvs.insert(mix(o.ilv, 1));
        if (o.nontrivial) { ++nontriv; uint64_t h = 5; for (auto& s : l) h = hashStr(s, h); ntriv.insert(mix(h, o.ilv)); }
        if (dump && i < first + dump) { printf("--- run %llu %s\n", (unsigned long long)i, o.bad ? o.cls.c_str() : "ok"); for (auto& s : l) printf("%s\n", s.c_str()); }
        if (nsamples < 2 && o.nontrivial)
        {
            std::string t; for (auto& s : l) { t += s.size() > 160 ? s.substr(0, 160) + "..." : s; t += " | "; if (t.size() > 900) break; }
            samples += (nsamples ? "," : "") + jsonStr("run " + num(i) + ": " + t); ++nsamples;
        }
        if (!o.bad && i % 37 == 5)
        {
            Outcome o2 = runCase(*prop, l);
            ++dups;
            if (o2.bad || o2.hash != o.hash || o2.ilv != o.ilv) { ++mismatches; fprintf(stderr, "run %llu does not repeat\n", (unsigned long long)i); }
        }
        if (o.bad)
        {
            Lines ex = explicitCase(l, o);
            Outcome e = runCase(*prop, ex);
            Lines use = ex;
            if (!(e.bad && e.cls == o.cls))
            {
                // the explicit schedule does not show it: fall back on the generated one
                Outcome o2 = runCase(*prop, l);
                if (!(o2.bad && o2.cls == o.cls)) { ++mismatches; fprintf(stderr, "violation of run %llu (%s: %s) does not repeat\n", (unsigned long long)i, o.cls.c_str(), o.detail.c_str()); continue; }
                use = l;
            }
            double mw = a.count("--minwall") ? atof(a["--minwall"].c_str()) : 25;
            Lines m = o.cls == "hang" ? use : minimise(*prop, use, o.cls, mw);        // a hang costs its whole time limit in each run
            Outcome f = runCase(*prop, m);
            if (!(f.bad && f.cls == o.cls)) { m = use; f = runCase(*prop, m); }
            std::string path = a["--replaydir"] + "/" + prop->id + "-u" + num(unicodeVersion) + "-s" + num(seed) + "-r" + num(i) + ".case";
            writeCase(path, *prop, m, f, seed, i, l);
            violation = path;
            printf("FOUND class=%s replay=%s detail=%s\n", f.cls.c_str(), path.c_str(), f.detail.c_str());
            break;
        }
    }
    std::string out = a["--out"];
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror(out.c_str()); return 3; }
        fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"distinct_interleavings\":%zu,\"determinism_rechecks\":%llu,\"mismatches\":%llu,\"solo_runs\":%llu,\"solo_broken\":%llu,\"minimise_runs\":%llu,\"wall\":%.3f,\"violation\":%s,\"stats\":{",
                (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)nontriv, ntriv.size(), ilvs.size(), (unsigned long long)dups, (unsigned long long)mismatches,
                (unsigned long long)soloRuns, (unsigned long long)soloBroken, (unsigned long long)minimiseRuns, now() - t0, violation.empty() ? "null" : jsonStr(violation).c_str());
        for (int k = 0; k < kNumStats; ++k) fprintf(f, "%s\"%s\":%llu", k ? "," : "", statNames[k], (unsigned long long)stat[k]);
        fprintf(f, "},\"samples\":[%s]}\n", samples.c_str());
        fclose(f);
    }
    return violation.empty() ? 0 : 1;
}
