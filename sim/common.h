// Cases, generators, reference models and the worker shared by all properties.
#pragma once
#include "rt.h"
#include <map>
#include <set>
#include <memory>
#include <unordered_map>

typedef std::vector<uint32_t> Units;
typedef std::vector<std::string> Lines;

// ---------------------------------------------------------------- reference model of the encodings
enum DecState { dOk, dTorn, dBad };
struct Decoded { Units cps; std::vector<size_t> start; DecState state = dOk; size_t at = 0; bool completable = true; };
Decoded decodeModel(int w, const Units& u);             // stops at the first 0 unit
bool encodeModel(int w, uint32_t cp, Units& out);       // false: w cannot hold it
Units encodeAll(int w, const Units& cps);
bool fitsTarget(uint32_t cp, int target);               // RangeType
bool encodable(uint32_t cp, int w);                     // w may also be 2: UCS-2

// ---------------------------------------------------------------- generators
uint32_t genChar(Rng& r, int pool);
Units genChars(Rng& r, int w, size_t maxLen, bool unicodeOnly);
size_t genLen(Rng& r, size_t maxLen);
Units stretch(Rng& r, const Units& cps, size_t perUnit, bool far);    // to a length beside a power of two
Units damage(Rng& r, const Units& u, int w, std::vector<std::string>* log);
Units genText(Rng& r, int w, size_t maxLen);            // valid, torn, damaged or random units
enum { kFamilies = 16 };
extern const char* const familyNames[kFamilies];
std::string genLang(Rng& r);
std::string genPred(Rng& r);            // conditions of an EncodingCheckPredicate
Op genOp(Rng& r, int family, size_t maxLen);
bool isCheckOp(const Op& op);       // validity check, count, predicate or decoder
int familyOf(const Op& op);

// ---------------------------------------------------------------- arguments
template <class C> struct Hold
{
    std::basic_string<C> s, victim, s2; std::vector<std::basic_string<C>> parts;
    static C conv(uint32_t u) { return static_cast<C>(u); }
    void build(const Op& op, Arg<C>& a)
    {
        s.clear(); s2.clear(); victim.clear(); parts.clear();
        if (op.name == "join")
        {
            if (!(op.x.size() == 1 && op.x[0] == kSep - 1))
            {
                parts.emplace_back();
                for (uint32_t u : op.x) if (u == kSep) parts.emplace_back(); else parts.back() += conv(u);
            }
        }
        else for (uint32_t u : op.x) s += conv(u);
        for (uint32_t u : op.y) s2 += conv(u);
        victim = s;
        a.s = &s; a.p = op.form == 'n' ? nullptr : s.c_str(); a.len = static_cast<unsigned>(s.size());
        a.victim = &victim; a.s2 = &s2; a.parts = &parts; a.delim = op.y.empty() ? C(0) : conv(op.y[0]);
    }
    bool same(const Op& op) const
    {
        Hold h; Arg<C> a; h.build(op, a);
        return h.s == s && h.s2 == s2 && h.parts == parts;
    }
    bool victimSame() const { return victim == s; }
};
struct ArgHolder
{
    Hold<char> h8; Hold<char16_t> h16; Hold<char32_t> h32; Hold<wchar_t> hw; std::string lang; ArgSet a;
    void build(const Op& op);
    bool same(const Op& op) const;          // read-only arguments as they were
    bool victimSame(const Op& op) const;
};

// ---------------------------------------------------------------- solo oracle
struct Solo { bool ok = false; std::string result; uint64_t steps = 0, allocs = 0, bytes = 0; };
const Solo& solo(const std::string& opText);            // in its own pristine process; cached

struct Pool { std::vector<Op> ops; std::vector<std::string> text; std::vector<std::vector<int>> byFamily; };
Pool& poolFor(const std::string& prop, uint64_t seed, uint64_t block, size_t n, size_t maxLen, bool checksOnly);

// ---------------------------------------------------------------- properties
struct Prop
{
    const char* id;
    Lines (*gen)(Rng& r, uint64_t seed, uint64_t index);
    void (*exec)(const Lines& lines);       // in a forked child; violate() or return
    Lines (*opsOf)(const Lines& lines);     // operations whose solo result exec needs
    bool ownInit;                           // the child runs the static initialisers itself
    unsigned timeout;                       // seconds of real time before a run counts as hung
};
std::vector<Prop>& props();
struct Reg { Reg(const Prop& p); };

// line helpers
std::vector<std::string> splitWs(const std::string& s, size_t maxParts = 0);
bool startsWith(const std::string& s, const char* p);
std::string num(uint64_t v);
std::string hexOf(uint64_t v);
extern int unicodeVersion;
extern std::string scratchDir;
