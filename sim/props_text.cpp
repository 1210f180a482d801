// Properties decided on delivered, cut, fragmented, damaged and relayed text: C06..C10, C16.
#include "common.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <algorithm>

// ================================================================ canonical results, as ops.cpp writes them
static std::string resStr(int bits, const Units& u)
{
    std::string r = "S" + hexOf(uint64_t(bits)) + "[";
    if (u.size() > 600)
    {
        uint64_t h = 7;
        for (auto c : u) h = mix(h, c);
        r += "#" + hexOf(u.size()) + ":" + hexOf(h);
    }
    else for (size_t i = 0; i < u.size(); ++i) { if (i) r += '.'; r += hexOf(u[i]); }
    return r + "]";
}
static std::string resNum(uint64_t n) { return "U" + hexOf(n); }
static std::string shorten(const std::string& s) { return s.size() > 700 ? s.substr(0, 700) + "..." : s; }

static std::string call(const Op& op)
{
    ArgHolder h; h.build(op);
    std::string res;
    snprintf(shm->result, 3000, "%s", op.text().c_str());
    execOp(op, h.a, res);
    shm->result[0] = 0;
    st(stOps); evs(res);
    return res;
}
static Op mk(const char* name, int w, char form, const Units& x, int tgt = -1)
{
    Op o; o.name = name; o.w = w; o.form = form; o.x = x; o.tgt = tgt;
    return o;
}
static bool keyUnits(const std::string& l, const char* key, Units& u)
{
    size_t p = l.find(key);
    if (p == std::string::npos) return false;
    p += strlen(key);
    size_t e = l.find(' ', p); if (e == std::string::npos) e = l.size();
    return unitsParse(l.substr(p, e - p), u);
}
static long keyInt(const std::string& l, const char* key, long d)
{
    size_t p = l.find(key);
    return p == std::string::npos ? d : strtol(l.c_str() + p + strlen(key), nullptr, 10);
}
static std::string keyWord(const std::string& l, const char* key)
{
    size_t p = l.find(key);
    if (p == std::string::npos) return "";
    p += strlen(key);
    size_t e = l.find(' ', p); if (e == std::string::npos) e = l.size();
    return l.substr(p, e - p);
}
static const char* const targetNames[] = { "kAscii", "kUtf8", "kUcs2", "kUtf16", "kUcs4", "kUnicode" };

// supplementary characters sometimes written as two 3-byte sequences, which the library also reads
static Units encodeMixed(Rng& r, int w, const Units& cps, bool escapes)
{
    if (w != 8 || !escapes) return encodeAll(w == 99 ? 32 : w, cps);
    Units o;
    for (auto c : cps)
        if (c >= 0x10000 && c <= 0x10ffff && r.chance(1, 2))
            for (uint32_t h : { 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff) })
            { o.push_back(0xe0 | h >> 12); o.push_back(0x80 | (h >> 6 & 0x3f)); o.push_back(0x80 | (h & 0x3f)); }
        else encodeModel(8, c, o);
    return o;
}

// ================================================================ C07: cut text
static Lines genC07(Rng& r, uint64_t, uint64_t)
{
    Lines l;
    for (int k = 0; k < 24; ++k)
    {
        int w = r.chance(3, 5) ? 8 : r.chance(3, 4) ? 16 : 32;
        Units cps = genChars(r, w, r.chance(1, 10) ? (r.chance(1, 4) ? 9000 : 900) : 60, !r.chance(1, 6));
        if (r.chance(1, 3)) cps.push_back(genChar(r, 6));
        if (cps.empty()) cps.push_back(genChar(r, 2));
        if (r.chance(1, 150)) cps = stretch(r, cps, r.range(1, 3), r.chance(1, 6));
        Units u = encodeMixed(r, w, cps, r.chance(1, 8));
        size_t at = r.below(u.size() + 1);
        if (r.chance(1, 2) && u.size() > 6) at = u.size() - r.below(7);
        std::string lang = r.chance(1, 3) ? "-" : genLang(r);
        l.push_back("cut w=" + num(w) + " at=" + num(at) + " l=" + (lang.empty() ? "-" : lang) + " p=" + (r.chance(1, 2) ? genPred(r) : "-") + " x=" + unitsText(u));
    }
    return l;
}
static void sameAs(const Op& cut, const Op& whole, const char* what)
{
    std::string a = call(cut), b = call(whole);
    if (a != b) violate("cut", std::string(what) + ": [" + shorten(cut.text()) + "] gave " + shorten(a) + " but its complete characters give " + shorten(b));
}
static void execC07(const Lines& lines)
{
    for (auto& l : lines)
    {
        Units u;
        if (!startsWith(l, "cut ") || !keyUnits(l, " x=", u)) continue;
        int w = int(keyInt(l, " w=", 8)); size_t at = size_t(keyInt(l, " at=", 0));
        std::string lang = keyWord(l, " l="), pred = keyWord(l, " p=");
        if (pred == "-") pred.clear();
        Decoded whole = decodeModel(w, u);
        if (whole.state != dOk || u.empty()) continue;      // the minimiser may make such
        if (std::find(u.begin(), u.end(), 0u) != u.end()) continue;
        if (at > u.size()) at = u.size();
        st(stCut); ilv(mix(at, hashStr(l)));
        shm->nontrivial = 1;
        Units cut(u.begin(), u.begin() + at);
        Decoded d = decodeModel(w, cut);
        Units pre(u.begin(), u.begin() + (d.state == dTorn ? d.at : at));
        if (d.state == dTorn) st(stTornChar);
        bool uni = true; for (auto c : d.cps) if (c > 0x10ffff) uni = false;
        bool wholeUni = true; for (auto c : whole.cps) if (c > 0x10ffff) wholeUni = false;
        for (char f : { 's', 'p' })
        {
            for (int t = 0; t < 6; ++t)
            {
                bool fits = true; for (auto c : whole.cps) if (!fitsTarget(c, t)) fits = false;
                if (!fits) continue;
                Op o = mk(w == 8 ? "isUtf8" : w == 16 ? "isUtf16" : "isUcs4", w, f, cut, t);
                if (w == 32 && t == 4) { bool hi = false; for (auto c : u) if (c > 0x7fffffff) hi = true; if (hi) continue; }
                if (call(o) != "B1") violate("cut", std::string("the check for ") + targetNames[t] + " rejects [" + shorten(o.text()) + "]");
            }
            if (wholeUni) { Op o = mk("isWstring", w, f, cut); if (call(o) != "B1") violate("cut", "rejected: [" + shorten(o.text()) + "]"); }
            // a predicate sees the complete characters only
            for (int t = -1; wholeUni && !pred.empty() && t < 6; ++t)
            {
                Op a = mk(w == 8 ? "isUtf8" : w == 16 ? "isUtf16" : "isUcs4", w, f, cut, t), b = a;
                a.pred = b.pred = pred; b.x = pre;
                bool fits = true; for (auto c : whole.cps) if (t >= 0 && !fitsTarget(c, t)) fits = false;
                if (fits) sameAs(a, b, "check with a predicate");
            }
            if (w == 8) for (auto n : { "toUcs2", "toUtf16", "toUcs4", "toWstring" }) sameAs(mk(n, w, f, cut), mk(n, w, f, pre), "conversion");
            if (w == 16) for (auto n : { "toUtf8", "toUcs4", "toWstring" }) sameAs(mk(n, w, f, cut), mk(n, w, f, pre), "conversion");
            if (w == 32) for (auto n : { "toUtf8", "toUcs2", "toUtf16", "toWstring" }) sameAs(mk(n, w, f, cut), mk(n, w, f, pre), "conversion");
            // a conversion the whole text admits is complete up to the cut
            auto complete = [&](const char* n, int bits, int we, bool ok) {
                if (!ok) return;
                Op o = mk(n, w, f, cut);
                std::string a = call(o), b = resStr(bits, encodeAll(we, d.cps));
                if (a != b) violate("cut", "conversion: [" + shorten(o.text()) + "] gave " + shorten(a) + " instead of " + shorten(b));
            };
            bool bmp = true; for (auto c : whole.cps) if (c > 0xffff) bmp = false;
            if (w != 16) { complete("toUcs2", 16, 16, bmp); complete("toUtf16", 16, 16, wholeUni); }
            if (w != 32) complete("toUcs4", 32, 32, true);
            if (w != 8) complete("toUtf8", 8, 8, wholeUni);
            if (uni) complete("toWstring", 32, 32, true);
        }
        Op lo = mk("lower", w, 's', cut), lp = mk("lower", w, 's', pre);
        if (lang != "-") { lo.hasLang = lp.hasLang = true; lo.lang = lp.lang = lang; }
        sameAs(lo, lp, "lower-casing");
        if (w == 8) sameAs(mk("trimWS", w, 's', cut), mk("trimWS", w, 's', pre), "white-space trimming");
        // counts
        if (uni && wholeUni)
        {
            if (!cut.empty())
            {
                Op o = mk("len", w, 'l', cut);
                std::string a = call(o);
                if (a != resNum(d.cps.size())) violate("count", "[" + shorten(o.text()) + "] counted " + a + " instead of " + resNum(d.cps.size()));
                if (w == 8) { Op q = mk("isUtf8", w, 'l', cut); if (call(q) != "B1") violate("cut", "rejected: [" + shorten(q.text()) + "]"); }
                if (w == 8 && !pred.empty() && !pre.empty())
                {
                    Op a = mk("isUtf8", w, 'l', cut), b = mk("isUtf8", w, 'l', pre);
                    a.pred = b.pred = pred;
                    sameAs(a, b, "check with a predicate");
                }
            }
            for (char f : { 's', 'p' })
            {
                Op o = mk("len", w, f, cut);
                std::string a = call(o);
                uint64_t v = strtoull(a.c_str() + 1, nullptr, 16);
                if (a[0] != 'U' || v > d.cps.size() || (d.state == dOk && v != d.cps.size())) violate("count", "[" + shorten(o.text()) + "] counted " + a + " of " + resNum(d.cps.size()));
            }
        }
    }
}
static Reg r07({ "C07", genC07, execC07, nullptr, false, 60 });

// ================================================================ C08: fragments
static Lines genC08(Rng& r, uint64_t, uint64_t)
{
    Lines l;
    for (int k = 0; k < 24; ++k)
    {
        Units cps = genChars(r, 8, r.chance(1, 12) ? 400 : 40, true);
        bool far = false, stretched = r.chance(1, 200);
        if (stretched) { far = r.chance(1, 6); cps = stretch(r, cps, r.range(1, 3), far); }
        Units u = encodeMixed(r, 8, cps, r.chance(1, 8));
        if (u.empty()) u.push_back(0x41);
        if (r.chance(1, 4)) u = damage(r, u, 8, nullptr);
        u.erase(std::remove(u.begin(), u.end(), 0u), u.end());
        if (u.empty()) u.push_back(0x41);
        Units frag; size_t left = u.size();
        size_t mx = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 4 : r.range(2, 40);
        if (stretched) mx = std::max<size_t>(mx, u.size() / 4);
        while (left) { size_t n = std::min<size_t>(left, 1 + r.below(mx)); frag.push_back(uint32_t(n)); left -= n; }
        l.push_back("stream keep=" + num(r.below(2)) + " junk=" + hexOf(r.chance(1, 2) ? r.range(0x80, 0xbf) : r.range(1, 255)) + " frag=" + unitsText(frag) + " x=" + unitsText(u));
    }
    return l;
}
static void execC08(const Lines& lines)
{
    static char big[600000];
    for (auto& l : lines)
    {
        Units u, frag;
        if (!startsWith(l, "stream ") || !keyUnits(l, " x=", u) || !keyUnits(l, " frag=", frag)) continue;
        if (u.size() > 590000 || std::find(u.begin(), u.end(), 0u) != u.end()) continue;
        unsigned junk = unsigned(strtoul(keyWord(l, " junk=").c_str(), nullptr, 16));
        bool keepAll = keyInt(l, " keep=", 0) != 0;     // check everything received so far, or only what is still unread
        Decoded want = decodeModel(8, u);
        bool uni = true; for (auto c : want.cps) if (c > 0x10ffff) uni = false;
        ilv(hashStr(l));
        size_t got = 0, arrived = 0, pos = 0; bool broken = false; bool split = false;
        Units out;
        std::string buf;
        size_t fi = 0;
        while (arrived < u.size() && !broken)
        {
            size_t n = fi < frag.size() ? frag[fi++] : u.size() - arrived;
            for (; n && arrived < u.size(); --n) buf += char(u[arrived++]);
            st(stFragment);
            // explicit-length calls on what is buffered; what follows it in memory is not part of it
            {
                size_t from = keepAll ? 0 : pos;
                Units part(u.begin() + from, u.begin() + arrived);
                Decoded d = decodeModel(8, part);
                bool pu = true; for (auto c : d.cps) if (c > 0x10ffff) pu = false;
                if (!part.empty() && (d.state != dTorn || d.completable))
                {
                    memset(big, int(junk), part.size() + 64);
                    for (size_t i = 0; i < part.size(); ++i) big[i] = char(part[i]);
                    ArgHolder h; Op o = mk("isUtf8", 8, 'l', part); h.build(o); h.a.a8.p = big;
                    std::string a, b;
                    execOp(o, h.a, a);
                    o.name = "len"; execOp(o, h.a, b);
                    st(stOps, 2); evs(a); evs(b);
                    bool ok = d.state != dBad;
                    if (a != (ok ? "B1" : "B0")) violate("fragment", "the explicit-length check gave " + a + " for what is buffered, [" + shorten(unitsText(part)) + "]");
                    if (!ok ? b != "U0" : pu && b != resNum(d.cps.size())) violate("fragment", "the explicit-length count gave " + b + " for the " + num(d.cps.size()) + " characters buffered, [" + shorten(unitsText(part)) + "]");
                }
            }
            while (pos < arrived)
            {
                const char* base = buf.c_str() + pos; const char* p = base;
                uint32_t c = decodeOne(p);
                ev(c);
                if (p == nullptr)
                {
                    // the broken character must be the first broken one, and really broken
                    if (want.state != dBad || pos != want.at) { violate("fragment", "the decoder reports damage at byte " + num(pos) + " of [" + shorten(unitsText(u)) + "]"); }
                    broken = true; break;
                }
                if (c == 0)
                {
                    if (p != buf.c_str() + buf.size()) violate("fragment", "the decoder stopped inside the text at byte " + num(pos) + " of [" + shorten(unitsText(u)) + "]");
                    split = true; st(stRetry);
                    break;      // wait for more and retry this character
                }
                if (p < base || p >= buf.c_str() + buf.size()) violate("fragment", "the decoder left the buffer");
                out.push_back(c);
                if (got >= want.cps.size() || want.cps[got] != c || want.start[got] != pos)
                    violate("fragment", "character " + num(got) + " was delivered as " + hexOf(c) + " from [" + shorten(unitsText(u)) + "]");
                ++got;
                pos += size_t(p - base) + 1;
            }
        }
        if (want.state == dBad) st(stDamagedStream);
        if (split || want.state == dBad) shm->nontrivial = 1;
        if (got != want.cps.size()) violate("fragment", num(got) + " of " + num(want.cps.size()) + " characters were delivered from [" + shorten(unitsText(u)) + "]");
        if (want.state == dBad && !broken)
            violate("fragment", "the damage at byte " + num(want.at) + " was not reported, [" + shorten(unitsText(u)) + "]");
    }
}
static Reg r08({ "C08", genC08, execC08, nullptr, false, 60 });

// ================================================================ C09: damaged text
static Stat damageStat(const std::string& n)
{
    return n == "flip" ? stDamageFlip : n == "over" ? stDamageOver : n == "lose" ? stDamageLose : n == "dup" ? stDamageDup : n == "swap" ? stDamageSwap : stDamageSplice;
}
static Lines genC09(Rng& r, uint64_t, uint64_t)
{
    Lines l;
    for (int k = 0; k < 24; ++k)
    {
        static const int ws[] = { 8, 8, 8, 16, 16, 32, 99 };
        int w = ws[r.below(7)];
        Units cps = genChars(r, w, r.chance(1, 12) ? (r.chance(1, 4) ? 9000 : 700) : 40, r.chance(2, 3));
        if (r.chance(1, 150)) cps = stretch(r, cps, r.range(1, 3), r.chance(1, 6));
        Units u = encodeMixed(r, w, cps, r.chance(1, 8));
        std::vector<std::string> log;
        Units v = r.chance(1, 12) ? u : damage(r, u, w, &log);
        if (r.chance(1, 10) && !v.empty()) { v.resize(1 + r.below(v.size())); log.push_back("cut"); }
        v.erase(std::remove(v.begin(), v.end(), 0u), v.end());
        if (v.empty()) continue;
        std::string how;
        for (auto& s : log) { if (!how.empty()) how += ','; how += s; }
        std::string lang = r.chance(1, 2) ? "-" : genLang(r);
        l.push_back("damaged w=" + num(w) + " by=" + (how.empty() ? "-" : how) + " l=" + (lang.empty() ? "-" : lang) + " p=" + (r.chance(1, 2) ? "-" : genPred(r)) + " x=" + unitsText(v));
    }
    return l;
}
static void want(const Op& o, const std::string& w, const char* why)
{
    std::string a = call(o);
    if (a != w) violate("damage", std::string(why) + ": [" + shorten(o.text()) + "] gave " + shorten(a) + " instead of " + shorten(w));
}
static void execC09(const Lines& lines)
{
    for (auto& l : lines)
    {
        Units u;
        if (!startsWith(l, "damaged ") || !keyUnits(l, " x=", u) || u.empty()) continue;
        if (std::find(u.begin(), u.end(), 0u) != u.end()) continue;
        int w = int(keyInt(l, " w=", 8));
        for (size_t p = 0, by = 0; by < 6; ++by)
        {
            static const char* const n[] = { "flip", "over", "lose", "dup", "swap", "splice" };
            std::string how = keyWord(l, " by=");
            for (p = 0; (p = how.find(n[by], p)) != std::string::npos; ++p) { st(damageStat(n[by])); shm->nontrivial = 1; }
            if (by == 0 && how.find("cut") != std::string::npos) st(stCut);
        }
        std::string lang = keyWord(l, " l="), pred = keyWord(l, " p=");
        if (lang.empty()) lang = "-";
        if (pred == "-") pred.clear();
        ilv(hashStr(l));
        int wm = w == 99 ? 32 : w;
        Decoded d = decodeModel(wm, u);
        uint32_t mx = 0; for (auto c : d.cps) mx = std::max(mx, c);
        const char* why = d.state == dBad ? "malformed" : "well-formed";
        if (d.state == dTorn)
        {
            // C07 says what happens to these; here: a value before the cut that a target cannot hold
            if (w == 99) continue;
            for (char f : { 's', 'p' })
            {
                for (int t = 0; t < 6; ++t)
                    if (!fitsTarget(mx, t))
                    {
                        want(mk(w == 8 ? "isUtf8" : "isUtf16", w, f, u, t), "B0", targetNames[t]);
                        if (w == 16) want(mk("isUcs2", w, f, u, t), "B0", targetNames[t]);
                    }
                if (w == 8 && mx > 0xffff) want(mk("toUcs2", w, f, u), resStr(16, Units()), "out of range");
                if (w == 8 && mx > 0x10ffff) want(mk("toUtf16", w, f, u), resStr(16, Units()), "out of range");
            }
            continue;
        }
        bool bad = d.state == dBad;
        for (char f : { 's', 'p' })
        {
            auto conv = [&](const char* n, int bits, int we, bool holds) {
                Units o; if (!bad && holds) o = encodeAll(we, d.cps);
                want(mk(n, w, f, u), resStr(bits, o), why);
                if (o.empty()) return;
                // its output is itself accepted and converts back to the text received
                int wo = bits; if (!strcmp(n, "toWstring")) wo = 99;
                Units back = encodeAll(wm, d.cps);
                bool toUcs2 = !strcmp(n, "toUcs2");
                if (wo == 99) { if (mx <= 0x10ffff) want(mk(w == 8 ? "isUtf8" : w == 16 ? "isUtf16" : "isUcs4", 99, f, o), "B1", "the converted text is not accepted"); }
                else want(mk(wo == 8 ? "isUtf8" : wo == 16 ? (toUcs2 ? "isUcs2" : "isUtf16") : "isUcs4", wo, f, o, wo == 32 && mx > 0x7fffffff ? 4 : 1), mx > 0x7fffffff ? "B0" : "B1", "the converted text");
                const char* nb = w == 8 ? "toUtf8" : w == 16 ? "toUtf16" : w == 32 ? "toUcs4" : "toWstring";
                if (wo == 16 && w == 16) return;
                want(mk(nb, wo, f, o), resStr(wm, back), "the way back");
            };
            if (w == 99)
            {
                if (!bad && mx > 0x10ffff) continue;
                if (bad) { bool big = false; for (auto c : u) if (c > 0x10ffff) big = true; if (big) continue; }
                conv("toUtf8", 8, 8, true); conv("toUtf16", 16, 16, true); conv("toUcs2", 16, 16, mx <= 0xffff); conv("toUcs4", 32, 32, true);
                for (auto n : { "isUtf8", "isUtf16", "isUcs4" }) want(mk(n, w, f, u), bad ? "B0" : "B1", why);
                want(mk("isUcs2", w, f, u), !bad && mx <= 0xffff ? "B1" : "B0", why);
                continue;
            }
            for (int t = 0; t < 6; ++t)
            {
                bool fits = !bad && (d.cps.empty() || fitsTarget(mx, t));
                if (w == 32 && t == 4 && mx > 0x7fffffff) continue;
                if (w == 32 && t == 4 && bad) { bool hi = false; for (auto c : u) if (c > 0x7fffffff) hi = true; if (hi) continue; }
                want(mk(w == 8 ? "isUtf8" : w == 16 ? "isUtf16" : "isUcs4", w, f, u, t), fits ? "B1" : "B0", targetNames[t]);
                if (w == 16) want(mk("isUcs2", w, f, u, t), fits && mx <= 0xffff ? "B1" : "B0", targetNames[t]);
            }
            if (w != 8) conv("toUtf8", 8, 8, mx <= 0x7fffffff);
            if (w != 16) { conv("toUtf16", 16, 16, mx <= 0x10ffff); conv("toUcs2", 16, 16, mx <= 0xffff); }
            if (w != 32) conv("toUcs4", 32, 32, true);
            if (bad || mx <= 0x10ffff)
            {
                if (w != 32) conv("toWstring", 32, 32, true);
                else { bool big = false; for (auto c : u) if (c > 0x10ffff) big = true; if (!big) conv("toWstring", 32, 32, true); }
                bool big = false; if (w == 32) for (auto c : u) if (c > 0x10ffff) big = true;
                if (!big) want(mk("isWstring", w, f, u), bad ? "B0" : "B1", "wide");
            }
            if (bad && !pred.empty())
                for (int t = -1; t < 6; ++t)
                {
                    if (w == 32 && (t == 4 || t == 3)) continue;
                    Op o = mk(w == 8 ? "isUtf8" : w == 16 ? "isUtf16" : "isUcs4", w, f, u, t);
                    o.pred = pred;
                    want(o, "B0", "with a predicate");
                }
            if (bad) want(mk("len", w, f, u), "U0", "count");
            else if (mx <= 0x10ffff) want(mk("len", w, f, u), resNum(d.cps.size()), "count");
        }
        if (w != 99)
        {
            if (bad) want(mk("len", w, 'l', u), "U0", "count");
            else if (mx <= 0x10ffff) want(mk("len", w, 'l', u), resNum(d.cps.size()), "count");
        }
        if (w == 8) want(mk("isUtf8", w, 'l', u), bad ? "B0" : "B1", "explicit length");
        if (bad && w == 8 && !pred.empty()) { Op o = mk("isUtf8", w, 'l', u); o.pred = pred; want(o, "B0", "explicit length with a predicate"); }
        if (bad && (w == 8 || w == 16))
        {
            want(mk("lower", w, 's', u), resStr(w, Units()), "lower-casing");
            Op o = mk("lower", w, 's', u);
            o.hasLang = true; o.lang = lang;
            if (lang != "-") want(o, resStr(w, Units()), "lower-casing in a language");
        }
    }
}
static Reg r09({ "C09", genC09, execC09, nullptr, false, 60 });

// ================================================================ C10: relays
static Lines genC10(Rng& r, uint64_t, uint64_t)
{
    Lines l;
    for (int k = 0; k < 12; ++k)
    {
        Units cps = genChars(r, 8, r.chance(1, 10) ? (r.chance(1, 4) ? 9000 : 500) : 40, true);
        if (cps.empty()) cps.push_back(0x41);
        if (r.chance(1, 80)) cps = stretch(r, cps, r.range(1, 3), r.chance(1, 6));
        bool bmp = true; for (auto c : cps) if (c > 0xffff) bmp = false;
        static const int ws[] = { 8, 16, 32, 99 };
        int w = ws[r.below(4)];
        l.push_back("text w=" + num(w) + " x=" + unitsText(cps));
        int cutting = int(r.below(4));
        for (size_t h = r.range(1, 8); h; --h)
        {
            int to = ws[r.below(4)];
            if (to == w) to = ws[r.below(4)];
            if (bmp && (w == 8 || w >= 32) && r.chance(1, 6)) to = 2;
            std::string s = "hop " + num(to) + " " + (r.chance(1, 2) ? "s" : "p");
            if (cutting && r.chance(1, 4)) s += " cut=" + num(r.chance(1, 2) ? r.below(cps.size() * 2 + 2) : 0) + " drop=" + num(r.range(0, 5));
            l.push_back(s);
            w = to == 2 ? 16 : to;
        }
    }
    return l;
}
static bool parseRes(const std::string& s, Units& u)
{
    size_t a = s.find('['), b = s.rfind(']');
    if (s.empty() || s[0] != 'S' || a == std::string::npos || b == std::string::npos || s[a + 1] == '#') return false;
    std::string t = s.substr(a + 1, b - a - 1);
    return unitsParse(t.empty() ? "-" : t, u);
}
static void execC10(const Lines& lines)
{
    int w = 0;
    Units cps, cur;         // what the model says has survived; what is actually being relayed
    for (auto& l : lines)
    {
        if (startsWith(l, "text "))
        {
            w = int(keyInt(l, " w=", 8));
            if (!keyUnits(l, " x=", cps)) { w = 0; continue; }
            bool ok = true; for (auto c : cps) if (c == 0 || c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) ok = false;
            if (!ok || cps.empty()) { w = 0; continue; }
            cur = encodeAll(w == 99 ? 32 : w, cps);
            shm->nontrivial = 1;
        }
        else if (startsWith(l, "hop ") && w)
        {
            auto v = splitWs(l);
            int to = atoi(v[1].c_str()); char f = v[2][0];
            st(stHop);
            bool bmp = true; for (auto c : cps) if (c > 0xffff) bmp = false;
            int wo = to == 2 ? 16 : to;
            if (to == 2 && (!bmp || w == 16)) continue;
            if (wo != w)
            {
                const char* n = to == 8 ? "toUtf8" : to == 16 ? "toUtf16" : to == 32 ? "toUcs4" : to == 2 ? "toUcs2" : "toWstring";
                Op o = mk(n, w, f, cur);
                std::string res = call(o), exp = resStr(wo == 99 ? 32 : wo, encodeAll(wo == 99 ? 32 : wo, cps));
                if (res != exp) violate("relay", "hop to " + num(to) + ": [" + shorten(o.text()) + "] delivered " + shorten(res) + " instead of " + shorten(exp));
                // from here on what was really delivered is passed on (long results come as a digest, which was equal)
                if (!parseRes(res, cur)) cur = encodeAll(wo == 99 ? 32 : wo, cps);
                w = wo;
            }
            long cut = keyInt(l, " cut=", -1), drop = keyInt(l, " drop=", 0);
            if (cut >= 0 && !cur.empty())
            {
                size_t n = cut ? std::min<size_t>(size_t(cut), cur.size()) : cur.size() - std::min<size_t>(size_t(drop), cur.size());
                cur.resize(n);
                Decoded d = decodeModel(w == 99 ? 32 : w, cur);
                st(stCut); ilv(mix(n, uint64_t(w)));
                if (d.state == dTorn) st(stTornChar);
                cps = d.cps;
            }
            ilv(mix(uint64_t(to), cps.size()));
        }
    }
}
static Reg r10({ "C10", genC10, execC10, nullptr, false, 60 });

// ================================================================ C16: small stack
static Lines genC16(Rng& r, uint64_t, uint64_t)
{
    Lines l;
    for (int k = 0; k < 6; ++k)
    {
        Op o = genOp(r, int(r.below(kFamilies)), 12);
        if (o.form == 'n') o.form = 's';
        if (o.name == "join" && o.x.size() == 1 && o.x[0] == kSep - 1) o.x.assign(1, 0x61);
        if (o.name == "ver") continue;
        int wm = o.w == 99 ? 32 : o.w;
        unsigned shape = unsigned(r.below(8));
        if (shape == 0) o.x.assign(1, 0x20);
        else if (shape == 1) o.x = o.y.empty() ? Units(1, 0x41) : Units(1, o.y[0]);
        else if (shape == 2) { o.x.clear(); encodeModel(wm, genChar(r, 6), o.x); }
        else if (shape == 3) { o.x.clear(); encodeModel(wm, genChar(r, 1), o.x); encodeModel(wm, 0x20, o.x); }
        else if (shape == 4) { o.x = encodeAll(wm, genChars(r, 8, 8, true)); }
        else if (shape == 5 && o.w == 8) { o.x.clear(); encodeModel(8, genChar(r, 3), o.x); }
        if (o.x.empty()) o.x.assign(1, 0x61);
        bool lead = startsWith(o.name, "trim");
        size_t total = lead ? r.range(500, 20000) : r.chance(1, 3) ? r.range(50000, 200000) : r.range(1000, 50000);
        if (o.name == "trimSet" && r.chance(1, 4)) { o.y.clear(); for (int i = 0; i < 300; ++i) o.y.push_back(uint32_t(r.range(1, 120))); }
        l.push_back("big " + num(1 + total / o.x.size()) + " " + num(r.below(3)) + " " + o.text());
    }
    return l;
}
static ucontext_t mainCtx, smallCtx;
static const Op* smallOp; static ArgHolder* smallHold; static std::string* smallRes;
static void onSmall() { execOp(*smallOp, smallHold->a, *smallRes); }
static void execC16(const Lines& lines)
{
    const size_t size = 64 * 1024;
    char* m = static_cast<char*>(mmap(nullptr, size + 64 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(m, 64 * 4096, PROT_NONE);
    char* stack = m + 64 * 4096;
    for (auto& l : lines)
    {
        if (!startsWith(l, "big ")) continue;
        auto v = splitWs(l, 4);
        if (v.size() < 4) continue;
        size_t n = size_t(atol(v[1].c_str())); int tail = atoi(v[2].c_str());
        Op op;
        if (!Op::parse(v[3], op)) _exit(3);
        Units u;
        if (op.x.size() * n > 400000) continue;
        for (size_t i = 0; i < n; ++i) u.insert(u.end(), op.x.begin(), op.x.end());
        if (tail == 1) u.push_back(op.w == 8 ? 0xff : 0xdc00);          // damage at the very end
        if (tail == 2) u.push_back(op.w == 8 ? 0xe2 : 0xd800);          // torn at the very end
        if (op.x.empty()) continue;
        op.x = u;
        if (u.size() > 1000) { st(stLongInput); shm->nontrivial = 1; }
        ilv(hashStr(l));
        ArgHolder h; h.build(op);
        std::string res;
        smallOp = &op; smallHold = &h; smallRes = &res;
        snprintf(shm->result, 3000, "%s (64 KiB stack)", shorten(l).c_str());
        memset(stack, 0, size);
        getcontext(&smallCtx);
        smallCtx.uc_stack.ss_sp = stack; smallCtx.uc_stack.ss_size = size; smallCtx.uc_link = &mainCtx;
        makecontext(&smallCtx, onSmall, 0);
        swapcontext(&mainCtx, &smallCtx);
        shm->result[0] = 0;
        st(stOps); st(stSmallStack); evs(res);
        size_t used = 0;
        for (size_t i = 0; i < size; ++i) if (stack[i]) { used = size - i; break; }
        if (used > shm->aux[1]) shm->aux[1] = used;
        if (startsWith(res, "throw:")) violate("stack", "a call on a small stack threw " + res + ": " + shorten(l));
        // and the same answer as on a large stack
        ArgHolder h2; h2.build(op);
        std::string res2;
        snprintf(shm->result, 3000, "%s", shorten(l).c_str());
        execOp(op, h2.a, res2);
        shm->result[0] = 0;
        if (res != res2) violate("stack", "a call on a small stack gave " + shorten(res) + " instead of " + shorten(res2) + ": " + shorten(l));
    }
}
static Reg r16({ "C16", genC16, execC16, nullptr, false, 60 });

// ================================================================ C06: memory
#ifdef ASAN_FLAVOUR
extern bool arenaOn;
extern char arenaMode;
void* arenaAlloc(size_t n);
void arenaProtect(bool ro);
void arenaClear();

static Lines genC06(Rng& r, uint64_t, uint64_t)
{
    Lines l;
    auto pick = r.below(kFamilies);
    for (int k = 0; k < 30; ++k)
    {
        Op o = genOp(r, int(r.chance(1, 3) ? pick : r.below(kFamilies)), r.chance(1, 10) ? (r.chance(1, 4) ? 70000 : 1500) : 60);
        if (o.name == "ver" || o.form == 'n') continue;
        // cut texts: everything that reads ahead is tempted
        if (r.chance(1, 3) && o.name != "join" && !o.x.empty() && o.name != "cp")
        {
            Units c = encodeMixed(r, o.w, genChars(r, o.w, 40, true), r.chance(1, 3));
            if (!c.empty()) { c.resize(c.size() - std::min<size_t>(c.size() - 1, r.below(6))); o.x = c; }
        }
        if (o.form == 'p') o.x.erase(std::remove(o.x.begin(), o.x.end(), 0u), o.x.end());
        static const char modes[] = { 'h', 'e', 'b' };
        l.push_back(std::string("buf ") + modes[r.below(3)] + " " + o.text());
    }
    return l;
}
template <class C> static void placeArg(const Op& op, Arg<C>& a, char mode, std::vector<void*>& toFree)
{
    typedef std::basic_string<C> S;
    Units x = op.x;
    auto exact = [&](const Units& u, bool term) -> C* {
        size_t n = u.size() + (term ? 1 : 0);
        C* p;
        if (mode == 'h') { p = static_cast<C*>(malloc(n * sizeof(C) ? n * sizeof(C) : 1)); toFree.push_back(p); }
        else p = static_cast<C*>(arenaAlloc(n * sizeof(C)));
        for (size_t i = 0; i < u.size(); ++i) p[i] = C(u[i]);
        if (term) p[u.size()] = 0;
        return p;
    };
    // strings: object and storage on pages of their own
    std::vector<C> tmp; for (auto c : x) tmp.push_back(C(c));
    std::vector<C> tmp2; for (auto c : op.y) tmp2.push_back(C(c));
    S* s; S* s2; std::vector<S>* parts = nullptr;
    std::vector<std::vector<C>> pv;
    if (op.name == "join" && !(x.size() == 1 && x[0] == kSep - 1)) { pv.emplace_back(); for (auto c : x) if (c == kSep) pv.emplace_back(); else pv.back().push_back(C(c)); tmp.clear(); }
    a.p = exact(op.name == "join" ? Units() : x, op.form != 'l'); a.len = unsigned(x.size());
    if (mode == 'h')
    {
        s = new S(tmp.begin(), tmp.end()); s2 = new S(tmp2.begin(), tmp2.end()); parts = new std::vector<S>; parts->reserve(pv.size());
        for (auto& q : pv) parts->emplace_back(q.begin(), q.end());
    }
    else
    {
        void* m1 = arenaAlloc(sizeof(S)); void* m2 = arenaAlloc(sizeof(S)); void* m3 = arenaAlloc(sizeof(std::vector<S>));
        arenaOn = true;
        s = new (m1) S(tmp.begin(), tmp.end()); s2 = new (m2) S(tmp2.begin(), tmp2.end());
        parts = new (m3) std::vector<S>; parts->reserve(pv.size());
        for (auto& q : pv) parts->emplace_back(q.begin(), q.end());
        arenaOn = false;
    }
    // the storage of every read-only string is exactly its text and terminator, short strings included, so that there
    // is no slack to hide in (layout of libstdc++: pointer, length, capacity)
    auto tighten = [&](S& t) {
        struct Rep { C* p; size_t len, cap; };
        static_assert(sizeof(Rep) <= sizeof(S), "string layout");
        Units u; for (auto c : t) u.push_back(uint32_t(typename std::make_unsigned<C>::type(c)));
        Rep rep; memcpy(&rep, &t, sizeof rep);
        if (rep.p != t.data() || rep.len != t.size()) return;
        C* q = exact(u, true);
        rep.p = q; rep.cap = rep.len;
        memcpy(static_cast<void*>(&t), &rep, sizeof rep);
    };
    tighten(*s); tighten(*s2); for (auto& q : *parts) tighten(q);
    a.s = s; a.s2 = s2; a.parts = parts; a.delim = op.y.empty() ? C(0) : C(op.y[0]);
    a.victim = new S(tmp.begin(), tmp.end());
}
static void execC06(const Lines& lines)
{
    for (auto& l : lines)
    {
        if (!startsWith(l, "buf ")) continue;
        auto v = splitWs(l, 3);
        Op op;
        if (v.size() < 3 || !Op::parse(v[2], op)) _exit(3);
        if (op.form == 'l' && op.x.empty()) continue;
        char mode = v[1][0];
        if (op.name == "join" && std::count(op.x.begin(), op.x.end(), uint32_t(kSep)) > 800) mode = 'h';     // one page each would be too many
        std::string plain, res;
        ilv(hashStr(l));
        if (!op.x.empty()) shm->nontrivial = 1;
        snprintf(shm->result, 3000, "%s", shorten(l).c_str());
        { ArgHolder h; h.build(op); execOp(op, h.a, plain); }
        std::vector<void*> toFree;
        ArgSet as;
        arenaMode = mode == 'b' ? 'b' : 'e';
        if (op.w == 8) placeArg(op, as.a8, mode, toFree); else if (op.w == 16) placeArg(op, as.a16, mode, toFree);
        else if (op.w == 32) placeArg(op, as.a32, mode, toFree); else placeArg(op, as.aw, mode, toFree);
        char* lang = static_cast<char*>(mode == 'h' ? malloc(op.lang.size() + 1) : arenaAlloc(op.lang.size() + 1));
        strcpy(lang, op.lang.c_str()); as.lang = lang;
        if (!op.pred.empty())
        {
            void* q = mode == 'h' ? malloc(predSize()) : arenaAlloc(predSize());
            predMake(q, op.pred); as.pred = q;
            if (mode == 'h') toFree.push_back(q);
        }
        if (mode == 'h') { toFree.push_back(lang); st(stHeapExact); }
        else { arenaProtect(true); st(stReadOnlyArg); st(stGuardCall); }
        execOp(op, as, res);
        if (mode != 'h') arenaProtect(false);
        shm->result[0] = 0;
        st(stOps); evs(res);
        if (res != plain) violate("surroundings", "[" + shorten(op.text()) + "] gave " + shorten(res) + " in an exact buffer but " + shorten(plain) + " elsewhere");
        for (auto p : toFree) free(p);
        if (mode != 'h') arenaClear();
    }
}
static Reg r06({ "C06", genC06, execC06, nullptr, false, 120 });
#endif
