// Adapters from Op to the real API. Compiled with the library's own flags and
// instrumentation, because much of the API is inline or template code.
#include "sim.h"
#include "string.hxx"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"
#include "internal/string_decode_utf8.hxx"
#include <new>
#include <typeinfo>
#include <cstdio>
#include <exception>

using namespace ansak;

namespace {

struct LibScope { LibScope() { simEnter(); } ~LibScope() { simLeave(); } };

template <class F> auto lib(F f) -> decltype(f()) { LibScope l; return f(); }

void put(std::string& r, unsigned long v) { char b[32]; snprintf(b, sizeof b, "%lx", v); r += b; }

template <class C> void putUnits(std::string& r, const C* p, size_t n)
{
    typedef typename std::make_unsigned<C>::type U;
    if (n > 600)
    {
        uint64_t h = 7;
        for (size_t i = 0; i < n; ++i) h = mix(h, uint64_t(U(p[i])));
        r += '#'; put(r, n); r += ':'; put(r, h);
        return;
    }
    for (size_t i = 0; i < n; ++i) { if (i) r += '.'; put(r, static_cast<unsigned long>(U(p[i]))); }
}
// make_unsigned works for char16_t/char32_t/wchar_t as well
template <class C> void ser(std::string& r, const std::basic_string<C>& s)
{
    r += 'S'; put(r, sizeof(C) * 8); r += '['; putUnits(r, s.data(), s.size()); r += ']';
    if (s.c_str()[s.size()] != 0) r += "!unterminated";
}
void ser(std::string& r, bool b) { r += b ? "B1" : "B0"; }
void ser(std::string& r, unsigned int u) { r += 'U'; put(r, u); }
template <class C> void ser(std::string& r, const std::vector<std::basic_string<C>>& v)
{
    r += 'V'; put(r, v.size()); r += '{';
    size_t n = 0;
    for (auto& s : v) { if (n++ > 400) { uint64_t h = 7; for (auto& q : v) for (auto c : q) h = mix(h, c); put(r, h); break; } ser(r, s); }
    r += '}';
}

EncodingCheckPredicate makePred(const std::string& spec)
{
    EncodingCheckPredicate p;
    bool first = true;
    for (size_t i = 0; i + 1 < spec.size(); i += 2)
    {
        auto t = static_cast<EncodingType>(spec[i + 1] - '0');
        bool yes = spec[i] == '+';
        if (first) p = yes ? validIf(t) : validIfNot(t);
        else if (yes) p.andIf(t);
        else p.andIfNot(t);
        first = false;
    }
    return p;
}

// The predicate of a call: an object the caller keeps (and may share), or a temporary
const EncodingCheckPredicate& predOf(const Op& op, const ArgSet& as, EncodingCheckPredicate& tmp)
{
    if (as.pred) return *static_cast<const EncodingCheckPredicate*>(as.pred);
    tmp = makePred(op.pred);
    return tmp;
}

template <class C> struct Sel;
template <> struct Sel<char>     { static Arg<char>& of(ArgSet& a) { return a.a8; } };
template <> struct Sel<char16_t> { static Arg<char16_t>& of(ArgSet& a) { return a.a16; } };
template <> struct Sel<char32_t> { static Arg<char32_t>& of(ArgSet& a) { return a.a32; } };
template <> struct Sel<wchar_t>  { static Arg<wchar_t>& of(ArgSet& a) { return a.aw; } };

#define RET(expr) do { ser(r, lib([&] { return expr; })); return; } while (0)
#define SP(fn) do { if (op.form == 's') RET(fn(*a.s)); else RET(fn(a.p)); } while (0)

// isXxx with target and predicate
#define IS(fn) do {                                                                         \
    auto t = static_cast<RangeType>(op.tgt);                                                \
    if (op.pred.empty() && op.tgt < 0) { if (op.form == 's') RET(fn(*a.s)); else RET(fn(a.p)); } \
    if (op.pred.empty()) { if (op.form == 's') RET(fn(*a.s, t)); else RET(fn(a.p, t)); }    \
    EncodingCheckPredicate tmp;                                                             \
    if (op.tgt < 0) { if (op.form == 's') RET(fn(*a.s, predOf(op, as, tmp))); else RET(fn(a.p, predOf(op, as, tmp))); } \
    if (op.form == 's') RET(fn(*a.s, t, predOf(op, as, tmp))); else RET(fn(a.p, t, predOf(op, as, tmp))); \
    } while (0)

template <class C> void generic(const Op& op, ArgSet& as, std::string& r)
{
    Arg<C>& a = Sel<C>::of(as);
    if (op.name == "split") RET(split(*a.s, a.delim));
    if (op.name == "join") RET(join(*a.parts, a.delim));
    if (op.name == "trim") { lib([&] { trim(*a.victim); }); ser(r, *a.victim); return; }
    if (op.name == "trimSet") { lib([&] { trim(*a.victim, *a.s2); }); ser(r, *a.victim); return; }
    r += "?";
}

template <class C> void predOp(const Op& op, ArgSet& as, std::string& r)
{
    Arg<C>& a = Sel<C>::of(as);
    size_t n = a.s->size();
    uint64_t h = 7; size_t yes = 0;
    bool same = false, diff = false;
    {
        LibScope l;
        EncodingCheckPredicate tmp, q = makePred(op.pred);
        const EncodingCheckPredicate& p = predOf(op, as, tmp);
        for (size_t i = 0; i < n; ++i) { bool b = p((*a.s)[i]); yes += b; h = mix(h, b ? i + 1 : 0); }
        same = p == q; diff = p != EncodingCheckPredicate();
    }
    r += "P"; put(r, yes); r += ':'; put(r, h); r += same ? "E" : "e"; r += diff ? "D" : "d";
}

void decLoop(const Op& op, ArgSet& as, std::string& r)
{
    const char* p = as.a8.p;
    (void) op;
    r += "D"; uint64_t h = 7; size_t n = 0; char end = 'z';
    {
        LibScope l;
        for (; *p; ++p)
        {
            char32_t c = internal::decodeUtf8(p);
            if (p == nullptr) { end = 'x'; break; }
            if (c == 0) { end = 't'; break; }
            h = mix(h, c); ++n;
        }
    }
    put(r, n); r += ':'; put(r, h); r += end;
}

void dispatch(const Op& op, ArgSet& as, std::string& r)
{
    const std::string& f = op.name;
    if (f == "ver") RET(getUnicodeVersionSupported());
    if (f == "dec") { decLoop(op, as, r); return; }
    if (op.w == 8)
    {
        Arg<char>& a = as.a8;
        if (f == "isUtf8")
        {
            if (op.form == 'l') { EncodingCheckPredicate tmp; if (op.pred.empty()) RET(isUtf8(a.p, a.len)); else RET(isUtf8(a.p, a.len, predOf(op, as, tmp))); }
            IS(isUtf8);
        }
        if (f == "isWstring") SP(isWstring);
        if (f == "toUcs2") SP(toUcs2);
        if (f == "toUtf16") SP(toUtf16);
        if (f == "toUcs4") SP(toUcs4);
        if (f == "toWstring") SP(toWstring);
        if (f == "len") { if (op.form == 'l') RET(unicodeLength(a.p, a.len)); SP(unicodeLength); }
        if (f == "lower") { if (op.hasLang) RET(toLower(*a.s, as.lang)); else RET(toLower(*a.s)); }
        if (f == "cp") RET(toUtf8(a.p, static_cast<SourceEncoding>(op.enc)));
        if (f == "trimA7") { lib([&] { trimAscii7WhiteSpace(*a.victim); }); ser(r, *a.victim); return; }
        if (f == "trimWS") { lib([&] { trimWhiteSpace(*a.victim); }); ser(r, *a.victim); return; }
        if (f == "pred") { predOp<char>(op, as, r); return; }
        generic<char>(op, as, r); return;
    }
    if (op.w == 16)
    {
        Arg<char16_t>& a = as.a16;
        if (f == "isUtf16") IS(isUtf16);
        if (f == "isUcs2") IS(isUcs2);
        if (f == "isWstring") SP(isWstring);
        if (f == "toUtf8") SP(toUtf8);
        if (f == "toUcs4") SP(toUcs4);
        if (f == "toWstring") SP(toWstring);
        if (f == "len") { if (op.form == 'l') RET(unicodeLength(a.p, a.len)); SP(unicodeLength); }
        if (f == "lower") { if (op.hasLang) RET(toLower(*a.s, as.lang)); else RET(toLower(*a.s)); }
        if (f == "trimWS") { lib([&] { trimWhiteSpace(*a.victim); }); ser(r, *a.victim); return; }
        if (f == "pred") { predOp<char16_t>(op, as, r); return; }
        generic<char16_t>(op, as, r); return;
    }
    if (op.w == 32)
    {
        Arg<char32_t>& a = as.a32;
        if (f == "isUcs4") IS(isUcs4);
        if (f == "isWstring") SP(isWstring);
        if (f == "toUtf8") SP(toUtf8);
        if (f == "toUcs2") SP(toUcs2);
        if (f == "toUtf16") SP(toUtf16);
        if (f == "toWstring") SP(toWstring);
        if (f == "len") { if (op.form == 'l') RET(unicodeLength(a.p, a.len)); SP(unicodeLength); }
        if (f == "lower") { if (op.hasLang) RET(toLower(*a.s, as.lang)); else RET(toLower(*a.s)); }
        if (f == "trimWS") { lib([&] { trimWhiteSpace(*a.victim); }); ser(r, *a.victim); return; }
        if (f == "pred") { predOp<char32_t>(op, as, r); return; }
        generic<char32_t>(op, as, r); return;
    }
    {
        Arg<wchar_t>& a = as.aw;
        if (f == "isUtf8") SP(isUtf8);
        if (f == "isUtf16") SP(isUtf16);
        if (f == "isUcs2") SP(isUcs2);
        if (f == "isUcs4") SP(isUcs4);
        if (f == "toUtf8") SP(toUtf8);
        if (f == "toUtf16") SP(toUtf16);
        if (f == "toUcs2") SP(toUcs2);
        if (f == "toUcs4") SP(toUcs4);
        generic<wchar_t>(op, as, r);
    }
}

}

void execOp(const Op& op, ArgSet& a, std::string& result)
{
    result.clear();
    try { dispatch(op, a, result); }
    catch (const std::bad_alloc&) { result = "throw:bad_alloc"; }
    catch (const std::exception& e) { result = std::string("throw:") + typeid(e).name(); }
    catch (...) { result = "throw:unknown"; }
}

size_t predSize() { return sizeof(EncodingCheckPredicate); }
void predMake(void* at, const std::string& spec) { new (at) EncodingCheckPredicate(makePred(spec)); }

// the single-character decoder by itself, for the fragment reader
uint32_t decodeOne(const char*& p) { LibScope l; return static_cast<uint32_t>(internal::decodeUtf8(p)); }
