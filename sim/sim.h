// Shared declarations of the simulator. See ../DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()                     // splitmix64
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

// ---------------------------------------------------------------- operations
// One call of the library with literal arguments; printable and parsable.
// w: 8, 16, 32 or 99 (wchar_t). form: s (basic_string), p (terminated pointer),
// l (pointer and length), n (null pointer).
struct Op
{
    std::string             name;
    int                     w = 8;
    char                    form = 's';
    int                     tgt = -1;           // RangeType or -1 for the overload without one
    std::string             pred;               // "+1-3": conditions; "0": empty predicate; "": none given
    bool                    hasLang = false;
    std::string             lang;
    int                     enc = 0;            // SourceEncoding
    std::vector<uint32_t>   x;                  // text, code units (parts of join separated by kSep)
    std::vector<uint32_t>   y;                  // delimiter or set of spaces
    std::string text() const;
    static bool parse(const std::string& line, Op& op);
    bool mutates() const { return name.compare(0, 4, "trim") == 0; }
};
enum : uint32_t { kSep = 0xfffffffeu };
std::string unitsText(const std::vector<uint32_t>& u);
bool unitsParse(const std::string& s, std::vector<uint32_t>& u);

template <class C> struct Arg
{
    const std::basic_string<C>*              s = nullptr;
    const C*                                 p = nullptr;
    unsigned                                 len = 0;
    std::basic_string<C>*                    victim = nullptr;   // in-place operations
    const std::basic_string<C>*              s2 = nullptr;
    const std::vector<std::basic_string<C>>* parts = nullptr;
    C                                        delim = 0;
};
struct ArgSet
{
    Arg<char> a8; Arg<char16_t> a16; Arg<char32_t> a32; Arg<wchar_t> aw;
    const char* lang = nullptr;
    const void* pred = nullptr;         // an EncodingCheckPredicate the caller keeps; none: a temporary is made
};

// Perform the call; the canonical text of its outcome goes to result.
void execOp(const Op& op, ArgSet& a, std::string& result);
size_t predSize();
void predMake(void* at, const std::string& spec);
uint32_t decodeOne(const char*& p);

// ---------------------------------------------------------------- run time (rt.cpp)
extern "C" void simEnter();      // library code starts on this thread
extern "C" void simLeave();
