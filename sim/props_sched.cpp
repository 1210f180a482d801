// Properties decided on the instrumented flavour: C01..C05, C13..C15.
#include "common.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <clocale>
#include <locale>
#include <cfenv>
#include <unistd.h>
#include <algorithm>

// ================================================================ pieces of cases
static std::string opPart(const std::string& l, size_t words)
{
    auto v = splitWs(l, words + 1);
    return v.size() > words ? v[words] : std::string();
}
static Op mustParse(const std::string& t)
{
    Op o;
    if (!Op::parse(t, o)) { fprintf(stderr, "bad operation in case: %s\n", t.c_str()); _exit(3); }
    return o;
}
static uint64_t keyNum(const std::string& l, const char* key, uint64_t dflt)
{
    size_t p = l.find(key);
    return p == std::string::npos ? dflt : strtoull(l.c_str() + p + strlen(key), nullptr, 10);
}
static SchedCfg parseSched(const Lines& lines)
{
    SchedCfg c;
    for (auto& l : lines)
    {
        if (startsWith(l, "sched "))
        {
            c.policy = l[6];
            c.den = unsigned(keyNum(l, "den=", 64)); c.depth = unsigned(keyNum(l, "depth=", 3));
            c.est = keyNum(l, "est=", 10000); c.seed = keyNum(l, "seed=", 1); c.race = keyNum(l, "race=", 1) != 0;
        }
        else if (startsWith(l, "sw "))
        {
            unsigned t, to; unsigned long s;
            if (sscanf(l.c_str(), "sw %u@%lu>%u", &t, &s, &to) == 3)
            { SwRec r; r.t = uint8_t(t); r.step = uint32_t(s); r.to = uint8_t(to); r.kind = l.find(" end") != std::string::npos; r.pad = 0; c.sw.push_back(r); }
        }
        else if (startsWith(l, "stall "))
        {
            unsigned t; unsigned long s;
            if (sscanf(l.c_str(), "stall %u@%lu", &t, &s) == 2) c.stalls.push_back({ int(t), s });
            else if (sscanf(l.c_str(), "stall %u@w%lu", &t, &s) == 2) c.stallsG.push_back({ int(t), s });
        }
    }
    return c;
}
static std::string genSched(Rng& r, uint64_t est, bool race)
{
    static const unsigned dens[] = { 3, 10, 30, 100, 300, 1000, 3000 };
    unsigned k = unsigned(r.below(10));
    std::string tail = " seed=" + num(r.next() >> 32) + " race=" + (race ? "1" : "0");
    if (k < 4) return "sched r den=" + num(dens[r.below(7)]) + tail;
    if (k < 7) return "sched p depth=" + num(r.range(1, 6)) + " est=" + num(est ? est : 100) + tail;
    return "sched c den=" + num(dens[r.range(2, 6)]) + tail;
}
static std::string planText(const AllocPlan& p)
{
    if (!p.kind) return "-";
    return std::string(1, p.kind) + ":" + num(p.a) + ":" + num(p.b);
}
static AllocPlan parsePlan(const std::string& s)
{
    AllocPlan p;
    if (s.empty() || s[0] == '-') return p;
    p.kind = s[0];
    unsigned long a = 0, b = 0;
    sscanf(s.c_str() + 1, ":%lu:%lu", &a, &b);
    p.a = a; p.b = b;
    return p;
}
static AllocPlan genPlan(Rng& r, uint64_t allocs)
{
    AllocPlan p;
    switch (r.below(8))
    {
    case 0: case 1: case 2: p.kind = 'k'; p.a = r.below(allocs + 1); break;
    case 3: case 4: p.kind = 'f'; p.a = r.below(allocs + 1); break;
    case 5: p.kind = 'm'; p.a = r.next() >> 40; p.b = r.range(2, 8); break;
    case 6: p.kind = 'z'; p.a = uint64_t(1) << r.range(4, 12); break;
    default: p.kind = r.chance(1, 3) ? 'x' : 'b'; p.a = r.below(4000); break;
    }
    return p;
}
static void mismatch(const std::string& what, const std::string& op, const std::string& got, const std::string& want)
{
    auto cut = [](const std::string& s) { return s.size() > 700 ? s.substr(0, 700) + "..." : s; };
    violate("result", what + ": [" + cut(op) + "] gave " + cut(got) + " instead of " + cut(want));
}

// an operation drawn from the pool, with emphasis on the families in focus
static const std::string& draw(Rng& r, Pool& p, const std::vector<int>& focus)
{
    if (!focus.empty() && r.chance(3, 4))
    {
        auto& f = p.byFamily[focus[r.below(focus.size())]];
        if (!f.empty()) return p.text[f[r.below(f.size())]];
    }
    return p.text[r.below(p.text.size())];
}
static std::vector<int> genFocus(Rng& r, bool checks)
{
    static const int cf[] = { 0, 1, 2, 3, 8, 14, 15 };
    std::vector<int> f;
    for (size_t k = r.range(1, 2); k; --k) f.push_back(checks ? cf[r.below(7)] : int(r.below(kFamilies)));
    return f;
}

// "keep": the callers of this run keep one predicate object for each set of conditions and share it
static std::map<std::string, void*> keptPreds;
static bool keepPreds;
static void keepBegin(const Lines& lines)
{
    keptPreds.clear(); keepPreds = std::find(lines.begin(), lines.end(), "keep") != lines.end();
}
static void keep(const Op& op, ArgSet& a)
{
    a.pred = nullptr;
    if (!keepPreds || op.pred.empty()) return;
    void*& p = keptPreds[op.pred];
    if (!p) { p = malloc(predSize() + 16); predMake(p, op.pred); }
    a.pred = p; st(stSharedPred);
}

// ================================================================ C01 and C03: threads
static Lines threadOps(const Lines& lines)
{
    Lines v;
    for (auto& l : lines) if (startsWith(l, "thread ")) v.push_back(opPart(l, 2));
    return v;
}
static Lines genThreads(Rng& r, uint64_t seed, uint64_t index, const char* id, bool stalls)
{
    Pool& p = poolFor(id, seed, index / 400, 160, 1300, false);
    Lines l;
    int n = int(r.range(2, stalls ? 4 : 5));
    auto focus = genFocus(r, false);
    uint64_t est = 0;
    std::vector<uint64_t> per(n + 1, 0);
    std::vector<std::string> used;
    int mode = int(r.below(4));
    for (int t = 1; t <= n; ++t)
        for (size_t k = r.range(1, 4); k; --k)
        {
            std::string op = !used.empty() && r.chance(mode == 0 ? 3 : 1, 5) ? used[r.below(used.size())] : draw(r, p, focus);
            used.push_back(op);
            l.push_back("thread " + num(t) + " " + op);
            per[t] += solo(op).steps; est += solo(op).steps;
        }
    if (stalls)
    {
        size_t k = r.range(1, n - 1);
        for (size_t i = 0; i < k; ++i) { int t = int(r.range(1, n)); if (int(i) < n - 1) l.push_back("stall " + num(t) + "@" + (r.chance(1, 3) ? "w" + num(r.chance(1, 3) ? r.range(1, 60) : r.range(1, 6)) : num(1 + r.below(per[t] + 2)))); }
        // at least one thread is left alone
        int spared = int(r.range(1, n));
        l.erase(std::remove_if(l.begin(), l.end(), [&](const std::string& s) { return startsWith(s, ("stall " + num(spared) + "@").c_str()); }), l.end());
    }
    if (r.chance(1, 2)) l.push_back("keep");
    l.push_back(genSched(r, est, !stalls));
    return l;
}

struct Call { Op op; std::string text; ArgHolder* h; std::string result; bool done = false; };
static std::vector<std::vector<Call>> buildThreads(const Lines& lines, int& n)
{
    std::vector<std::vector<Call>> v(kMaxThreads + 1);
    std::map<std::string, ArgHolder*> shared;
    n = 0;
    keepBegin(lines);
    for (auto& l : lines)
        if (startsWith(l, "thread "))
        {
            auto w = splitWs(l, 3);
            int t = atoi(w[1].c_str());
            if (t < 1 || t > kMaxThreads || w.size() < 3) continue;
            if (t > n) n = t;
            Call c; c.op = mustParse(w[2]); c.text = w[2];
            auto it = shared.find(c.text);
            if (it != shared.end() && !c.op.mutates()) { c.h = it->second; st(stSharedArg); }
            else { c.h = new ArgHolder; c.h->build(c.op); keep(c.op, c.h->a); shared[c.text] = c.h; }
            v[t].push_back(c);
        }
    return v;
}
static void execThreads(const Lines& lines, bool stalls)
{
    int n;
    auto calls = buildThreads(lines, n);
    if (!n) return;
    SchedCfg cfg = parseSched(lines);
    if (stalls)
    {
        // every operation has been used once
        rtBegin();
        for (auto& tv : calls) for (auto& c : tv) { ArgHolder h; h.build(c.op); std::string res; execOp(c.op, h.a, res); }
    }
    rtHeapPolicy(0xa5, 'l');
    rtThreads(n, cfg, [&](int t) {
        for (auto& c : calls[t])
        {
            if (stalls) rtThreadCap(20 * solo(c.text).steps + 20000);
            else rtThreadCap(200 * solo(c.text).steps + 20000000);
            execOp(c.op, c.h->a, c.result);
            rtThreadCap(0);
            c.done = true;
            st(stOps);
        }
    }, false);
    std::set<int> stopped;
    for (auto& s : cfg.stalls) stopped.insert(s.first);
    for (auto& s : cfg.stallsG) stopped.insert(s.first);
    for (int t = 1; t <= n; ++t)
        for (auto& c : calls[t])
        {
            if (!c.done)
            {
                if (stopped.count(t)) break;
                violate("blocked", "a call on a thread that was never stopped did not complete: " + c.text);
            }
            evs(c.result);
            const Solo& s = solo(c.text);
            if (s.ok && c.result != s.result) mismatch(stalls ? "beside stopped threads" : "concurrently", c.text, c.result, s.result);
            if (!c.h->same(c.op)) violate("argument", "a read-only argument was changed by " + c.text);
        }
}
static Lines genC01(Rng& r, uint64_t seed, uint64_t i) { return genThreads(r, seed, i, "C01", false); }
static Lines genC03(Rng& r, uint64_t seed, uint64_t i) { return genThreads(r, seed, i, "C03", true); }
static void execC01(const Lines& l) { execThreads(l, false); }
static void execC03(const Lines& l) { execThreads(l, true); }
static Reg r01({ "C01", genC01, execC01, threadOps, false, 60 });
static Reg r03({ "C03", genC03, execC03, threadOps, false, 60 });

// ================================================================ C02: interruptions
static Lines callOps(const Lines& lines)
{
    Lines v;
    for (auto& l : lines)
    {
        if (startsWith(l, "call ")) v.push_back(opPart(l, 1));
        else if (startsWith(l, "irq ")) v.push_back(opPart(l, 2));
    }
    return v;
}
static Lines genC02(Rng& r, uint64_t seed, uint64_t index)
{
    Pool& pa = poolFor("C02", seed, index / 400, 160, 1300, false);
    Pool& pc = poolFor("C02", seed, index / 400, 120, 1300, true);
    Lines l;
    auto fa = genFocus(r, false), fc = genFocus(r, true);
    // half of the time interrupt the operation by its own kind
    if (r.chance(1, 2) && !pc.byFamily[fa[0]].empty()) fc.assign(1, fa[0]);
    uint64_t total = 0;
    for (size_t k = r.range(1, 3); k; --k)
    {
        const std::string& op = draw(r, pa, fa);
        l.push_back("call " + op); total += solo(op).steps;
    }
    std::vector<std::pair<uint64_t, std::string>> irqs;
    size_t n = r.range(1, 6);
    for (size_t k = 0; k < n; ++k)
    {
        uint64_t at = 1 + r.below(total + 1);
        const std::string& op = draw(r, pc, fc);
        total += solo(op).steps;
        irqs.push_back({ at, op });
        if (r.chance(1, 3)) { const std::string& op2 = draw(r, pc, fc); irqs.push_back({ at + 1 + r.below(solo(op).steps + 1), op2 }); total += solo(op2).steps; }
    }
    std::sort(irqs.begin(), irqs.end());
    for (auto& q : irqs) l.push_back("irq " + num(q.first) + " " + q.second);
    if (r.chance(1, 2)) l.push_back("keep");
    // and right after a write to memory that outlives the call, if there is one
    if (r.chance(1, 2))
    {
        irqs.clear();
        for (size_t k = r.range(1, 3); k; --k) irqs.push_back({ r.chance(1, 3) ? r.range(1, 80) : r.range(1, 8), draw(r, pc, fc) });
        std::sort(irqs.begin(), irqs.end());
        for (auto& q : irqs) l.push_back("irq w" + num(q.first) + " " + q.second);
    }
    return l;
}
static std::vector<Call>* irqCalls;
static void irqHandler(int i)
{
    Call& c = (*irqCalls)[size_t(i)];
    std::string res;
    execOp(c.op, c.h->a, res);
    st(stOps);
    evs(res);
    const Solo& s = solo(c.text);
    if (s.ok && res != s.result) mismatch("interrupting another call", c.text, res, s.result);
}
static void execC02(const Lines& lines)
{
    std::vector<Call> calls, irqs, irqsW; std::vector<uint64_t> at, after;
    keepBegin(lines);
    for (auto& l : lines)
    {
        if (startsWith(l, "call ")) { Call c; c.text = opPart(l, 1); c.op = mustParse(c.text); c.h = new ArgHolder; c.h->build(c.op); keep(c.op, c.h->a); calls.push_back(c); }
        else if (startsWith(l, "irq ")) { auto w = splitWs(l, 3); Call c; c.text = w[2]; c.op = mustParse(c.text); c.h = new ArgHolder; c.h->build(c.op); keep(c.op, c.h->a); if (w[1][0] == 'w') { irqsW.push_back(c); after.push_back(strtoull(w[1].c_str() + 1, nullptr, 10)); } else { irqs.push_back(c); at.push_back(strtoull(w[1].c_str(), nullptr, 10)); } }
    }
    irqs.insert(irqs.end(), irqsW.begin(), irqsW.end());
    irqCalls = &irqs;
    rtBegin();
    rtIrqs(at, after, irqHandler);
    for (auto& c : calls)
    {
        std::string res;
        rtStepCap(200 * solo(c.text).steps + 20000000);
        execOp(c.op, c.h->a, res);
        rtStepCap(0);
        st(stOps); evs(res);
        const Solo& s = solo(c.text);
        if (s.ok && res != s.result) mismatch("interrupted", c.text, res, s.result);
    }
    shm->steps += rtSteps();
}
static Reg r02({ "C02", genC02, execC02, callOps, false, 60 });

// ================================================================ C04 and C05: no memory
static Lines planOps(const Lines& lines)
{
    Lines v;
    for (auto& l : lines)
    {
        if (startsWith(l, "call f=")) v.push_back(opPart(l, 2));
        else if (startsWith(l, "slot ")) v.push_back(opPart(l, 4));
        else if (startsWith(l, "burst ")) v.push_back(opPart(l, 2));
    }
    return v;
}
static Lines genC04(Rng& r, uint64_t seed, uint64_t index)
{
    Pool& p = poolFor("C04", seed, index / 400, 200, 9000, false);
    Lines l;
    auto f = genFocus(r, false);
    for (size_t k = r.range(1, 6); k; --k)
    {
        const std::string& op = draw(r, p, f);
        uint64_t a = solo(op).allocs;
        if (!a && r.chance(9, 10)) { continue; }
        l.push_back("call f=" + planText(genPlan(r, a)) + " " + op);
    }
    if (l.empty()) { const std::string& op = draw(r, p, f); l.push_back("call f=k:0:0 " + op); }
    return l;
}
static void execC04(const Lines& lines)
{
    rtBegin(); rtTlsFails();
    std::vector<std::pair<Op, std::string>> again;
    for (auto& l : lines)
    {
        if (!startsWith(l, "call f=")) continue;
        auto w = splitWs(l, 3);
        AllocPlan plan = parsePlan(w[1].substr(2));
        std::string text = w[2];
        Op op = mustParse(text);
        const Solo& s = solo(text);
        again.push_back({ op, text });
        uint64_t live[3]; bool threw = false;
        for (int rep = 0; rep < 3; ++rep)
        {
            {
                ArgHolder h; h.build(op);
                std::string res;
                rtAllocPlan(plan);
                execOp(op, h.a, res);
                uint64_t failed = rtAllocFails();
                rtAllocPlan(AllocPlan());
                st(stOps); evs(res);
                if (res == "throw:bad_alloc")
                {
                    threw = true;
                    if (!failed) violate("result", "bad_alloc although no allocation failed: " + text);
                    if (op.mutates() && !h.victimSame(op)) violate("half-done", "the string to be trimmed was changed although the call failed: " + text);
                }
                else if (s.ok && res != s.result) mismatch("with failing allocations " + w[1], text, res, s.result);
                if (!h.same(op)) violate("argument", "a read-only argument was changed by " + text);
                if (threw && rep == 2)
                {
                    // the very same arguments, memory being available again
                    st(stRetry);
                    execOp(op, h.a, res);
                    if (s.ok && res != s.result) mismatch("made again after a failure", text, res, s.result);
                }
            }
            live[rep] = rtLiveBlocks();
        }
        if (live[1] > live[0] && live[2] > live[1]) violate("leak", "blocks are left behind by each failed call: " + text);
        // with a fresh argument
        ArgHolder h; h.build(op);
        std::string res;
        execOp(op, h.a, res);
        if (s.ok && res != s.result) mismatch("after failed calls", text, res, s.result);
    }
    for (auto& q : again)
    {
        ArgHolder h; h.build(q.first);
        std::string res;
        execOp(q.first, h.a, res);
        if (solo(q.second).ok && res != solo(q.second).result) mismatch("after failed calls", q.second, res, solo(q.second).result);
    }
    shm->steps += rtSteps();
}
static Reg r04({ "C04", genC04, execC04, planOps, false, 60 });

static Lines genC05(Rng& r, uint64_t seed, uint64_t index)
{
    Pool& p = poolFor("C05", seed, index / 200, 200, index / 200 % 4 == 0 ? 70000 : 5000, true);
    Lines l;
    auto f = genFocus(r, true);
    for (size_t k = r.range(2, 8); k; --k)
    {
        const std::string& op = draw(r, p, f);
        l.push_back("call f=x:0:0 " + op);
    }
    return l;
}
static void execC05(const Lines& lines)
{
    rtBegin(); rtTlsFails();
    for (auto& l : lines)
    {
        if (!startsWith(l, "call f=")) continue;
        auto w = splitWs(l, 3);
        Op op = mustParse(w[2]);
        const Solo& s = solo(w[2]);
        ArgHolder h; h.build(op);
        std::string res;
        rtAllocPlan(parsePlan(w[1].substr(2)));
        execOp(op, h.a, res);
        rtAllocPlan(AllocPlan());
        st(stOps); evs(res); ilv(hashStr(w[2]));
        if (op.x.size() > 0) shm->nontrivial = 1;
        if (s.ok && res != s.result) mismatch("without memory", w[2], res, s.result);
    }
    shm->steps += rtSteps();
}
static Reg r05({ "C05", genC05, execC05, planOps, false, 60 });

// ================================================================ C13: before main and after static destruction
static Lines genC13(Rng& r, uint64_t seed, uint64_t index)
{
    Pool& p = poolFor("C13", seed, index / 300, 240, 1300, false);
    Lines l;
    auto f = genFocus(r, false);
    std::vector<size_t> order(rtInitCount());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    auto some = [&](size_t lo, size_t hi) { for (size_t k = r.range(lo, hi); k; --k) { std::string op = r.chance(1, 12) ? "ver w=8 f=s x=-" : draw(r, p, f); l.push_back("call " + op); } };
    some(1, 4);
    for (auto i : order) { l.push_back("init " + num(i)); if (r.chance(1, 2)) some(0, 2); }
    l.push_back("main");
    some(0, 3);
    for (size_t k = r.range(1, 4); k; --k) { l.push_back("dtors " + num(r.range(1, 3))); some(1, 2); }
    l.push_back("dtors 1000");
    some(2, 6);
    return l;
}
static void execC13(const Lines& lines)
{
    rtBegin();
    bool allInit = false, anyDtor = false;
    std::vector<char> done(rtInitCount(), 0);
    for (auto& l : lines)
    {
        if (startsWith(l, "init "))
        {
            size_t i = size_t(atoi(l.c_str() + 5));
            if (i < done.size() && !done[i]) { done[i] = 1; rtInit(i); st(stInitRun); ilv(i); }
        }
        else if (l == "main") allInit = true;
        else if (startsWith(l, "dtors "))
        {
            anyDtor = true;
            for (int k = atoi(l.c_str() + 6); k > 0 && rtDtorCount(); --k) { rtDtorRun(); st(stDtorRun); }
            ilv(1000 + rtDtorCount());
        }
        else if (startsWith(l, "call "))
        {
            std::string text = opPart(l, 1);
            Op op = mustParse(text);
            ArgHolder h; h.build(op);
            std::string res;
            rtStepCap(200 * solo(text).steps + 20000000);
            execOp(op, h.a, res);
            rtStepCap(0);
            st(stOps); evs(res); ilv(hashStr(text));
            shm->nontrivial = 1;
            if (!allInit) st(stEarlyCall);
            if (anyDtor) st(stLateCall);
            const Solo& s = solo(text);
            if (s.ok && res != s.result) mismatch(anyDtor ? "during or after static destruction" : allInit ? "after static construction" : "during static construction", text, res, s.result);
        }
    }
    shm->steps += rtSteps();
}
static Reg r13({ "C13", genC13, execC13, callOps, true, 60 });

// ================================================================ C14: nothing but the arguments
// A sibling of an operation: same shape and length, different content (or another parameter), so that
// anything remembered under the address, the length or a part of the text is put to use wrongly.
static std::string sibling(Rng& r, const std::string& text)
{
    Op o = mustParse(text);
    switch (r.below(9))
    {
    case 6:     // another case of one letter; the other parity of one unit
        if (!o.x.empty() && o.name != "join") { size_t i = r.below(o.x.size()); o.x[i] ^= (o.x[i] & 0x40) && o.x[i] < 0x80 ? 0x20 : 1; if (!o.x[i]) o.x[i] = 0x62; break; }  // fall through
    case 7:     // shorter or longer by one
        if (!o.x.empty() && o.name != "join") { if (r.chance(1, 2) && o.x.size() > 1) o.x.pop_back(); else o.x.push_back(o.x.back()); break; }  // fall through
    case 8:     // the same text for another operation of the same kind
        if (o.name.compare(0, 2, "to") == 0 && o.w == 8) { static const char* const n[] = { "toUcs2", "toUtf16", "toUcs4" }; o.name = n[r.below(3)]; break; }
        if (o.name == "cp") { o.enc = o.enc == 1 ? 2 : 1; break; }
        if (o.name == "split" && !o.x.empty()) { o.y.assign(1, o.x[r.below(o.x.size())]); break; }
        if (o.form == 's' || o.form == 'p') { if (o.name.compare(0, 2, "is") == 0 || o.name.compare(0, 2, "to") == 0 || o.name == "len") { o.form = o.form == 's' ? 'p' : 's'; break; } }  // fall through
    case 0: if (o.tgt >= 0) { o.tgt = int(r.below(6)); break; }     // fall through
    case 1: if (o.name == "lower") { o.hasLang = true; o.lang = genLang(r); break; }   // fall through
    case 2: if (!o.x.empty() && o.name != "join") { o.x[o.x.size() - 1] = o.x.back() == 0x62 ? 0x63 : 0x62; break; }  // fall through
    case 3: if (!o.x.empty() && o.name != "join") { size_t i = r.below(o.x.size()); o.x[i] = o.x[i] == 0x7a ? 0x41 : o.x[i] == 0x80 ? 0x81 : 0x7a; break; }  // fall through
    case 4: if (!o.x.empty() && o.name != "join") { o.x[0] = o.x[0] == 0x42 ? 0x51 : 0x42; break; }   // fall through
    default:
        if (!o.pred.empty() && o.pred != "0") o.pred[0] = o.pred[0] == '+' ? '-' : '+';
        else if (o.name != "join" && o.x.size() > 1) std::swap(o.x[0], o.x[o.x.size() / 2]);
        break;
    }
    return o.text();
}
static Lines genC14(Rng& r, uint64_t seed, uint64_t index)
{
    Pool& p = poolFor("C14", seed, index / 300, 200, 4200, false);
    Lines l;
    auto f = genFocus(r, false);
    std::vector<std::string> used;
    auto pick = [&]() -> std::string {
        std::string op;
        unsigned k = unsigned(r.below(10));
        if (!used.empty() && k < 3) op = used[r.below(used.size())];
        else if (!used.empty() && k < 6) op = sibling(r, used[used.size() - 1 - r.below(std::min<size_t>(used.size(), 3))]);
        else op = draw(r, p, f);
        if (!solo(op).ok) op = draw(r, p, f);
        used.push_back(op);
        return op;
    };
    if (r.chance(1, 2)) l.push_back("keep");
    size_t n = r.chance(1, 6) ? r.range(30, 80) : r.range(4, 16);
    int slots = int(r.range(1, 3));
    for (size_t i = 0; i < n; ++i)
    {
        if (r.chance(1, 6)) switch (r.below(7))
        {
        case 0: l.push_back("amb " + num(1 + (r.next() >> 40))); break;
        case 1: l.push_back(r.chance(1, 2) ? "locale " + num(r.below(4)) : "ctype " + num(r.below(2))); break;
        case 2: l.push_back("errno " + num(r.below(120))); break;
        case 3: { static const char re[] = { 'l', 'f', 'n' }; l.push_back("heap " + num(r.below(256)) + " " + re[r.below(3)]); break; }
        case 4: l.push_back("stack " + num(r.below(256))); break;
        case 5: l.push_back("round " + num(r.below(4))); break;
        default: l.push_back("cpploc " + num(r.below(3))); break;
        }
        std::string op = pick();
        if (r.chance(1, 60) && solo(op).steps < 3000)
        {   // the same small call very many times
            static const unsigned around[] = { 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096 };
            uint64_t k = around[r.below(10)] + r.below(4);
            while (k * solo(op).steps > 2000000) k /= 2;
            l.push_back("burst " + num(k) + " " + op);
        }
        AllocPlan pl; if (r.chance(1, 8)) pl = genPlan(r, solo(op).allocs);
        l.push_back("slot " + num(r.below(slots)) + " " + num(r.chance(1, 4) ? r.below(24) : 0) + " f=" + planText(pl) + " " + op);
    }
    return l;
}
template <class C> struct Ctype : std::ctype<C> {};
struct OddCtype : std::ctype<wchar_t>
{
protected:
    wchar_t do_tolower(wchar_t c) const override { return c == L'I' ? L'\u0131' : c == L'A' ? L'b' : std::ctype<wchar_t>::do_tolower(c); }
    bool do_is(mask m, wchar_t c) const override { return c == L'x' ? true : std::ctype<wchar_t>::do_is(m, c); }
};
struct OddNarrow : std::ctype<char>
{
    static const mask* table()
    {
        static mask t[table_size];
        static bool done = false;
        if (!done) { std::copy(classic_table(), classic_table() + table_size, t); t[unsigned('x')] |= space; t[unsigned(' ')] = print; t[0xa0] |= space; done = true; }
        return t;
    }
    OddNarrow() : std::ctype<char>(table()) {}
protected:
    char do_tolower(char c) const override { return c == 'I' ? 'y' : c == 'A' ? 'b' : std::ctype<char>::do_tolower(c); }
    const char* do_tolower(char* lo, const char* hi) const override { for (; lo < hi; ++lo) *lo = do_tolower(*lo); return hi; }
};
struct OddNum : std::numpunct<char>
{
protected:
    char do_thousands_sep() const override { return '.'; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\1"; }
};
static __attribute__((noinline)) void fillStack(int v)
{
    volatile char b[48 * 1024];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = char(v);
    asm volatile("" ::"r"(&b) : "memory");
}
template <class C> static void place(const Op& op, Arg<C>& a, C* arena, size_t off)
{
    if (op.form != 'p' && op.form != 'l') return;
    size_t n = op.x.size();
    if (n + off + 1 > 8000) return;
    C* d = arena + off;
    for (size_t i = 0; i < n; ++i) d[i] = C(op.x[i]);
    d[n] = op.form == 'l' && n ? C(0x62) : C(0);      // what follows an explicit length is not part of the text
    a.p = d;
}
static void execC14(const Lines& lines)
{
    rtBegin();
    struct Slot { ArgHolder h; char b8[8192]; char16_t b16[8192]; char32_t b32[8192]; wchar_t bw[8192]; };
    static Slot slot[3];
    for (auto& s : slot)
    {
        s.h.h8.s.reserve(4096); s.h.h16.s.reserve(4096); s.h.h32.s.reserve(4096); s.h.hw.s.reserve(4096);
        s.h.h8.victim.reserve(4096); s.h.h16.victim.reserve(4096); s.h.h32.victim.reserve(4096); s.h.hw.victim.reserve(4096);
    }
    int fill = -1, err = 0;
    keepBegin(lines);
    for (auto& l : lines)
    {
        auto w = splitWs(l, 5);
        if (w[0] == "amb") { rtAmbient(strtoull(w[1].c_str(), nullptr, 10)); st(stAmbient); }
        else if (w[0] == "ctype") { rtCtype(atoi(w[1].c_str())); st(stAmbient); }
        else if (w[0] == "errno") { err = atoi(w[1].c_str()); st(stAmbient); }
        else if (w[0] == "heap") { rtHeapPolicy(unsigned(atoi(w[1].c_str())), w[2][0]); st(stAmbient); }
        else if (w[0] == "stack") { fill = atoi(w[1].c_str()); st(stAmbient); }
        else if (w[0] == "round") { static const int m[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO }; fesetround(m[atoi(w[1].c_str()) & 3]); st(stAmbient); }
        else if (w[0] == "locale") { static const char* const n[] = { "C", "C.UTF-8", "C.utf8", "POSIX" }; setlocale(LC_ALL, n[atoi(w[1].c_str()) & 3]); st(stAmbient); }
        else if (w[0] == "cpploc")
        {
            int k = atoi(w[1].c_str());
            std::locale c = std::locale::classic();
            if (k == 1) c = std::locale(std::locale(c, new OddCtype), new OddNum);
            if (k == 2) c = std::locale(std::locale(std::locale(c, new OddCtype), new OddNum), new OddNarrow);
            std::locale::global(c); st(stAmbient);
        }
        else if (w[0] == "burst")
        {
            auto q = splitWs(l, 3);
            Op op = mustParse(q[2]);
            for (uint64_t k = strtoull(q[1].c_str(), nullptr, 10); k; --k)
            {
                ArgHolder h; h.build(op);
                std::string res;
                execOp(op, h.a, res);
                if (solo(q[2]).ok && res != solo(q[2]).result) mismatch("repeated many times", q[2], res, solo(q[2]).result);
            }
            st(stOps); st(stRepeat);
        }
        else if (w[0] == "slot" && w.size() == 5)
        {
            Op op = mustParse(w[4]);
            Slot& s = slot[atoi(w[1].c_str()) % 3];
            size_t off = size_t(atoi(w[2].c_str()));
            s.h.build(op);
            keep(op, s.h.a);
            place(op, s.h.a.a8, s.b8, off); place(op, s.h.a.a16, s.b16, off); place(op, s.h.a.a32, s.b32, off); place(op, s.h.a.aw, s.bw, off);
            st(stBufferReuse);
            std::string res;
            rtAllocPlan(parsePlan(w[3].substr(2)));
            if (fill >= 0) fillStack(fill);
            rtStepCap(200 * solo(w[4]).steps + 20000000);
            errno = err;
            execOp(op, s.h.a, res);
            rtStepCap(0);
            uint64_t failed = rtAllocFails();
            rtAllocPlan(AllocPlan());
            st(stOps); evs(res); ilv(hashStr(l));
            shm->nontrivial = 1;
            const Solo& so = solo(w[4]);
            if (failed && res == "throw:bad_alloc") continue;
            if (so.ok && res != so.result) mismatch("after other calls and in other surroundings", w[4], res, so.result);
        }
    }
    shm->steps += rtSteps();
}
static Reg r14({ "C14", genC14, execC14, planOps, false, 60 });

// ================================================================ C15: memory does not grow
static Lines genC15(Rng& r, uint64_t seed, uint64_t index)
{
    Pool& p = poolFor("C15", seed, index / 300, 200, 9000, false);
    Lines l;
    auto f = genFocus(r, false);
    bool many = r.chance(1, 25);
    l.push_back("cfg reps=" + num(many ? r.range(20, 300) : r.range(5, 8)) + " threads=" + num(!many && r.chance(1, 3) ? r.range(1, 3) : 0));
    for (size_t k = r.range(1, many ? 3 : 12); k; --k)
    {
        const std::string& op = draw(r, p, f);
        if (many && solo(op).steps > 5000) continue;
        AllocPlan pl; if (r.chance(1, 3)) pl = genPlan(r, solo(op).allocs);
        l.push_back("call f=" + planText(pl) + " " + op);
    }
    return l;
}
static void execC15(const Lines& lines)
{
    rtBegin();
    int reps = 5, threads = 0;
    struct Item { Op op; std::string text; AllocPlan plan; };
    std::vector<Item> items;
    for (auto& l : lines)
    {
        if (startsWith(l, "cfg ")) { reps = int(keyNum(l, "reps=", 5)); threads = int(keyNum(l, "threads=", 0)); }
        else if (startsWith(l, "call f=")) { auto w = splitWs(l, 3); Item i; i.text = w[2]; i.op = mustParse(w[2]); i.plan = parsePlan(w[1].substr(2)); items.push_back(i); }
    }
    std::vector<uint64_t> live, bytes;
    auto once = [&](size_t from, size_t stepBy) {
        for (size_t k = from; k < items.size(); k += stepBy)
        {
            ArgHolder h; h.build(items[k].op);
            std::string res;
            rtAllocPlan(items[k].plan);
            execOp(items[k].op, h.a, res);
            uint64_t failed = rtAllocFails();
            rtAllocPlan(AllocPlan());
            st(stOps); evs(res);
            const Solo& s = solo(items[k].text);
            if (!(failed && res == "throw:bad_alloc") && s.ok && res != s.result) mismatch("in a repeated history", items[k].text, res, s.result);
        }
    };
    for (int rep = 0; rep < reps; ++rep)
    {
        st(stRepeat);
        if (!threads) once(0, 1);
        else
        {
            SchedCfg cfg; cfg.policy = 'x'; cfg.race = false;     // one after the other, each on a thread of its own
            rtThreads(threads, cfg, [&](int t) { once(size_t(t - 1), size_t(threads)); }, true);
        }
        live.push_back(rtLiveBlocks()); bytes.push_back(rtLiveBytes());
        ev(live.back()); ev(bytes.back());
    }
    ilv(shm->hash);
    if (!items.empty()) shm->nontrivial = 1;
    // the first half of the repetitions may still be filling tables that are kept for good
    size_t mid = live.size() / 2;
    if (live.back() > live[mid] || bytes.back() > bytes[mid])
        violate("growth", "memory held grew between repetition " + num(mid + 1) + " and " + num(reps) + " from " + num(live[mid]) + " blocks (" + num(bytes[mid]) + " bytes) to " + num(live.back()) + " (" + num(bytes.back()) + " bytes)");
    shm->steps += rtSteps();
}
static Reg r15({ "C15", genC15, execC15, planOps, false, 60 });
