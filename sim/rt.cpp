// The simulated run time: every memory access of library code enters here.
#include "rt.h"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <new>
#include <typeinfo>
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <linux/futex.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <wchar.h>
#include <wctype.h>
#include <ctype.h>
#include <locale.h>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
extern char __executable_start, __data_start, _end;
}

typedef uintptr_t UP;

enum TState { tFree, tRun, tBlocked, tStalled, tDone };

struct TCtx
{
    int         id = 0;
    int         inlib = 0;
    int         bypass = 0;
    uint64_t    steps = 0, next = ~0ULL;
    uint64_t    capAt = ~0ULL, swAt = ~0ULL, stallAt = ~0ULL, irqAt = ~0ULL, pctAt = ~0ULL;
    UP          lo = 0, hi = 0;
    uint64_t    gCount = 0, gStall = ~0ULL;
    uint32_t    vc[kMaxThreads + 1];
    uint32_t    seen[kMaxThreads + 1];      // what relaxed loads have seen, for a later acquire fence
    bool        relFence = false;           // a release fence was passed: later atomic stores publish
    TState      state = tFree;
    const void* waitOn = nullptr;
    int         futex = 0;
    int         prio = 0;
    size_t      swIdx = 0, finIdx = 0;
    int         exitNow = 0;
    pthread_t   th;
};

static TCtx         ctx[kMaxThreads + 1];
static __thread TCtx* cur = nullptr;

static struct Global
{
    uint64_t    steps = 0;
    bool        multi = false, race = false;
    int         n = 0;
    int         running = -1;
    int         ctrlFutex = 0;
    SchedCfg*   cfg = nullptr;
    Rng         rng;
    std::function<void(int)>* body = nullptr;
    uint64_t    pct[16]; int npct = 0, pctIdx = 0; int lowPrio = 0;
    // irq
    const std::vector<uint64_t>* irqs = nullptr; size_t irqIdx = 0; void (*irqFn)(int) = nullptr; int irqDepth = 0;
    const std::vector<uint64_t>* irqsG = nullptr; size_t irqGIdx = 0; bool irqGNow = false;
    bool        watch = false;      // somebody waits for lock operations or lasting writes
    uint64_t    capPer = 0;
    uint64_t    amb = 0; Rng ambRng;
} G;

static void slow(TCtx* t);
static inline void step(TCtx* t)
{
    ++t->steps; ++G.steps;
    if (__builtin_expect(t->steps >= t->next, 0)) slow(t);
}

// ================================================================ shadow memory (happens-before races)
struct Gran
{
    UP          key;
    uint32_t    wc[8];
    uint8_t     wt[8];
    uint8_t     wAtom, hot, touched, pad;
    uint32_t    rc[kMaxThreads + 1];
    uint8_t     rm[kMaxThreads + 1];
    uint8_t     rAtom[kMaxThreads + 1];
};
enum { kGrans = 1 << 17 };
static Gran* grans;
static uint32_t nGrans;

static Gran* gran(UP key, bool make)
{
    uint32_t h = uint32_t((key * 0x9e3779b97f4a7c15ULL) >> 47) & (kGrans - 1);
    for (unsigned i = 0; i < 64; ++i, h = (h + 1) & (kGrans - 1))
    {
        if (grans[h].key == key) return &grans[h];
        if (grans[h].key == 0)
        {
            if (!make || nGrans > kGrans * 3 / 4) return nullptr;
            grans[h].key = key; ++nGrans;
            return &grans[h];
        }
    }
    return nullptr;
}
static void granClear(UP lo, UP hi)
{
    if (!G.race) return;
    for (UP k = lo >> 3; k <= (hi - 1) >> 3; ++k)
        if (Gran* g = gran(k, false)) { UP key = g->key; memset(g, 0, sizeof *g); g->key = key; }
}

static void raceReport(TCtx* t, UP a, bool w, int other, const char* what)
{
    char b[300];
    const char* where = "heap or shared memory";
    if (a >= UP(&__data_start) && a < UP(&_end)) where = "static data";
    snprintf(b, sizeof b, "unsynchronised %s by thread %d conflicts with %s by thread %d (%s)",
             w ? "write" : "read", t->id, what, other, where);
    violate("race", b);
}

static void granAccess(TCtx* t, UP key, unsigned mask, bool w, bool atom, UP a)
{
    Gran* g = gran(key, true);
    if (!g) return;
    const int me = t->id;
    for (int b = 0; b < 8; ++b)
        if (mask >> b & 1)
        {
            int o = g->wt[b];
            if (g->wc[b] && o != me && g->wc[b] > t->vc[o] && !(atom && (g->wAtom >> b & 1)))
                raceReport(t, a, w, o, "a write");
        }
    if (w)
    {
        for (int o = 1; o <= G.n; ++o)
            if (o != me && (g->rm[o] & mask) && g->rc[o] > t->vc[o] &&
                !(atom && (g->rAtom[o] & g->rm[o] & mask) == (g->rm[o] & mask)))
                raceReport(t, a, w, o, "a read");
        for (int b = 0; b < 8; ++b)
            if (mask >> b & 1)
            {
                g->wt[b] = me; g->wc[b] = t->vc[me];
                if (atom) g->wAtom |= 1 << b; else g->wAtom &= ~(1 << b);
            }
        g->hot |= 1;
        st(stWritesSeen);
    }
    else
    {
        if (g->rc[me] != t->vc[me]) { g->rc[me] = t->vc[me]; g->rm[me] = 0; g->rAtom[me] = 0; }
        g->rm[me] |= mask;
        if (atom) g->rAtom[me] |= mask; else g->rAtom[me] &= ~mask;
    }
    if (g->touched && g->touched != me) g->hot |= 2;
    g->touched = me;
}

static void switchAway(TCtx* t, int kind, bool conflict);

static void replan(TCtx* t);
static bool inHeap(const void* p);
// a lock operation or a write to memory that outlives the call: the places where a stop or an interruption may hurt
static void lasting(TCtx* t)
{
    ++t->gCount;
    if (t->gCount >= t->gStall) { t->gStall = ~0ULL; if (t->steps + 1 < t->stallAt) t->stallAt = t->steps + 1; replan(t); }
    if (G.irqsG && G.irqGIdx < G.irqsG->size() && !G.irqDepth && (*G.irqsG)[G.irqGIdx] <= t->gCount)
    { G.irqGNow = true; t->irqAt = t->steps + 1; replan(t); }
}
static unsigned char* heapMap;           // one byte for each 16 of the simulated heap: 1 in a live block
static bool heapUsable(const void* p, size_t n);
static void access(TCtx* t, const void* p, size_t n, bool w, bool atom = false)
{
    step(t);
    if (inHeap(p) && n && !heapUsable(p, n)) violate("freed-memory", std::string("a call ") + (w ? "writes to" : "reads") + " memory of the heap that is not, or no longer, allocated");
    if (G.watch && n && (atom || (w && !(UP(p) >= t->lo && UP(p) < t->hi) && !inHeap(p)))) lasting(t);
    if (!G.race || n == 0) return;
    UP a = UP(p), e = a + n;
    if (a >= t->lo && e <= t->hi) return;
    if (a >= UP(&__executable_start) && e <= UP(&__data_start)) return;
    bool hot = false;
    if (G.cfg->policy == 'c')
    {
        for (UP k = a >> 3; k <= (e - 1) >> 3; ++k)
            if (Gran* g = gran(k, false)) if (g->hot == 3 || (g->hot & 1 && g->touched != t->id)) hot = true;
        if ((hot || atom) && G.rng.chance(1, 2)) switchAway(t, 0, true);
    }
    for (UP k = a >> 3; k <= (e - 1) >> 3; ++k)
    {
        unsigned mask = 0xff;
        if (k == a >> 3) mask &= 0xff << (a & 7);
        if (k == (e - 1) >> 3) mask &= 0xff >> (7 - ((e - 1) & 7));
        granAccess(t, k, mask & 0xff, w, atom, a);
    }
}

static inline TCtx* lib() { TCtx* t = cur; return t && t->inlib && !t->bypass ? t : nullptr; }

// ================================================================ synchronisation objects
struct Sync { const void* addr; uint32_t vc[kMaxThreads + 1]; int owner; int count; int readers; int kind; };
enum { kSyncs = 1 << 14 };
static Sync syncs[kSyncs];
static Sync* sync(const void* a)
{
    unsigned h = unsigned(UP(a) >> 2) * 2654435761u >> 18;
    for (unsigned i = 0; i < kSyncs; ++i, h = (h + 1) & (kSyncs - 1))
    {
        if (syncs[h].addr == a) return &syncs[h];
        if (!syncs[h].addr) { syncs[h].addr = a; syncs[h].owner = -1; return &syncs[h]; }
    }
    return nullptr;
}
static void acquire(TCtx* t, Sync* s) { if (s) for (int i = 0; i <= kMaxThreads; ++i) if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i]; }
static void release(TCtx* t, Sync* s)
{
    if (!s) return;
    for (int i = 0; i <= kMaxThreads; ++i) if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i];
    ++t->vc[t->id];
}

// ================================================================ scheduler
static void fwait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void replan(TCtx* t)
{
    SchedCfg* c = G.cfg;
    t->pctAt = ~0ULL;
    if (G.multi && c)
    {
        if (c->policy == 'p' && G.pctIdx < G.npct)
            t->pctAt = t->steps + (G.pct[G.pctIdx] > G.steps ? G.pct[G.pctIdx] - G.steps : 1);
        if (c->policy == 'p')       // fairness: whoever spins for long is demoted
        {
            uint64_t fair = (t->steps / 200000 + 1) * 200000;
            if (fair < t->pctAt) t->pctAt = fair;
        }
        if (c->policy == 'x')
        {
            while (t->swIdx < c->sw.size() && !(c->sw[t->swIdx].t == t->id && c->sw[t->swIdx].kind == 0)) ++t->swIdx;
            t->swAt = t->swIdx < c->sw.size() ? c->sw[t->swIdx].step : ~0ULL;
        }
    }
    uint64_t n = t->capAt;
    if (t->swAt < n) n = t->swAt;
    if (t->stallAt < n) n = t->stallAt;
    if (t->irqAt < n) n = t->irqAt;
    if (t->pctAt < n) n = t->pctAt;
    t->next = n;
}
static void drawSw(TCtx* t)
{
    SchedCfg* c = G.cfg;
    if (c->policy == 'r' || c->policy == 'c')
    {
        // geometric with mean den, drawn as a sum of two uniforms (cheap, same reach)
        t->swAt = t->steps + 1 + G.rng.below(c->den) + (G.rng.chance(1, 4) ? G.rng.below(c->den * 4) : 0);
    }
}

static int pickNext(int self)
{
    int run[kMaxThreads], n = 0;
    for (int i = 1; i <= G.n; ++i) if (i != self && ctx[i].state == tRun) run[n++] = i;
    if (!n) return 0;
    SchedCfg* c = G.cfg;
    if (c->policy == 'p')
    {
        int b = run[0];
        for (int i = 1; i < n; ++i) if (ctx[run[i]].prio > ctx[b].prio) b = run[i];
        return b;
    }
    if (c->policy == 'x') return run[0];
    return run[G.rng.below(n)];
}

static void record(int t, uint64_t stp, int to, int kind)
{
    ilv(mix(t * 16 + to, mix(stp, kind)));
    if (shm->nsw >= kMaxSw) { shm->swOverflow = 1; return; }
    SwRec& r = shm->sw[shm->nsw++];
    r.step = uint32_t(stp); r.t = t; r.to = to; r.kind = kind; r.pad = 0;
}

static void hand(TCtx* t, int to)       // give the baton to `to` and wait for it to come back
{
    G.running = to;
    fwake(&ctx[to].futex);
    if (t)
    {
        int e = errno;
        fwait(&t->futex);
        errno = e;
    }
}

static bool usable(TCtx* t, const SwRec& r) { return r.to >= 1 && r.to <= G.n && r.to != t->id && ctx[r.to].state == tRun; }

static int explicitEnd(TCtx* t)      // the recorded successor of a thread that ends or waits at this step
{
    auto& sw = G.cfg->sw;
    for (size_t i = t->finIdx; i < sw.size(); ++i)
        if (sw[i].t == t->id && sw[i].kind == 1 && sw[i].step >= t->steps)
        {
            if (sw[i].step != t->steps) return 0;
            t->finIdx = i + 1;
            return usable(t, sw[i]) ? sw[i].to : 0;
        }
    return 0;
}

static void switchAway(TCtx* t, int kind, bool conflict)      // never in an explicit schedule
{
    if (G.cfg->policy == 'x') return;
    int to = pickNext(t->id);
    if (!to) return;
    record(t->id, t->steps, to, kind);
    st(conflict ? stConflictPreempt : stPreempt);
    if (t->inlib) shm->nontrivial = 1;
    hand(t, to);
    drawSw(t); replan(t);
}

static void stuck(TCtx* t, const char* why)
{
    char b[300];
    int n = snprintf(b, sizeof b, "%s: thread %d cannot proceed;", why, t->id);
    for (int i = 1; i <= G.n; ++i)
        n += snprintf(b + n, sizeof b - n, " t%d=%s", i, ctx[i].state == tRun ? "runnable" : ctx[i].state == tBlocked ? "waiting" :
                      ctx[i].state == tStalled ? "stopped" : "done");
    violate("blocked", b);
}

// leave the processor for good (done, stalled) or until woken (blocked)
static void yieldCpu(TCtx* t, bool comeBack)
{
    int to = 0;
    if (G.cfg->policy == 'x') to = explicitEnd(t);
    if (!to) to = pickNext(t->id);
    if (to)
    {
        record(t->id, t->steps, to, 1);
        G.running = to; fwake(&ctx[to].futex);
    }
    else
    {
        for (int i = 1; i <= G.n; ++i) if (ctx[i].state == tBlocked) stuck(&ctx[i], "waiting for ever");
        G.running = 0; fwake(&G.ctrlFutex);
    }
    if (comeBack) { int e = errno; fwait(&t->futex); errno = e; drawSw(t); replan(t); }
}

static void block(TCtx* t, const void* obj)
{
    if (!G.multi) { violate("blocked", "a call waits for something only its own thread could release"); }
    st(stBlocked);
    t->state = tBlocked; t->waitOn = obj;
    yieldCpu(t, true);
}
static void wakeAll(const void* obj)
{
    for (int i = 1; i <= G.n; ++i) if (ctx[i].state == tBlocked && ctx[i].waitOn == obj) { ctx[i].state = tRun; ctx[i].waitOn = nullptr; }
}

static void slow(TCtx* t)
{
    if (t->steps >= t->capAt) { t->capAt = ~0ULL; violate("stuck", "a call does not finish within its bound of steps"); }
    if (t->steps >= t->irqAt && G.irqs)
    {
        auto interrupt = [&](int i) {
            st(stInterrupt); if (G.irqDepth) st(stInterruptNested);
            shm->nontrivial = 1; ilv(mix(t->steps, i));
            int in = t->inlib; uint64_t cap = t->capAt; t->inlib = 0; t->capAt = ~0ULL;
            int e = errno;
            ++G.irqDepth;
            G.irqFn(i);
            --G.irqDepth;
            errno = e;
            t->inlib = in; t->capAt = cap == ~0ULL ? cap : cap + 1000000;
        };
        if (G.irqGNow && t->inlib && !G.irqDepth)
        {
            G.irqGNow = false;
            while (G.irqGIdx < G.irqsG->size() && (*G.irqsG)[G.irqGIdx] <= t->gCount)
            {
                int i = int(G.irqs->size() + G.irqGIdx++);
                t->irqAt = G.irqIdx < G.irqs->size() ? (*G.irqs)[G.irqIdx] : ~0ULL; replan(t);
                uint64_t g = t->gCount;
                interrupt(i);
                t->gCount = g;
            }
        }
        while (G.irqIdx < G.irqs->size() && (*G.irqs)[G.irqIdx] <= t->steps)
        {
            int i = int(G.irqIdx++);
            t->irqAt = G.irqIdx < G.irqs->size() ? (*G.irqs)[G.irqIdx] : ~0ULL;
            replan(t);
            if (!t->inlib || G.irqDepth >= 4) continue;
            uint64_t g = t->gCount;
            interrupt(i);
            t->gCount = g;
        }
        t->irqAt = G.irqIdx < G.irqs->size() ? (*G.irqs)[G.irqIdx] : ~0ULL;
    }
    if (G.multi)
    {
        if (t->steps >= t->stallAt)
        {
            t->stallAt = ~0ULL;
            if (t->inlib)
            {
                st(stStall); shm->nontrivial = 1; ilv(mix(t->steps, 77));
                t->state = tStalled;
                yieldCpu(t, true);      // never scheduled again
            }
        }
        if (t->steps >= t->pctAt)
        {
            if (G.pctIdx < G.npct && G.steps >= G.pct[G.pctIdx]) ++G.pctIdx;
            t->prio = --G.lowPrio;
            int to = pickNext(t->id);
            if (to && ctx[to].prio > t->prio) switchAway(t, 0, false);
        }
        else if (G.cfg->policy == 'x')
        {
            auto& sw = G.cfg->sw;
            while (t->steps >= t->swAt)
            {
                SwRec r = sw[t->swIdx++];
                if (usable(t, r))
                {
                    record(t->id, t->steps, r.to, 0); st(stPreempt); if (t->inlib) shm->nontrivial = 1;
                    hand(t, r.to);
                }
                replan(t);
            }
        }
        else if (t->steps >= t->swAt) { t->swAt = ~0ULL; switchAway(t, 0, false); if (G.cfg->policy != 'x') drawSw(t); }
    }
    replan(t);
}

struct Stack { char* base; size_t size; };
static Stack stacks[kMaxThreads + 1];

static void* threadMain(void* v)
{
    TCtx* t = static_cast<TCtx*>(v);
    fwait(&t->futex);
    cur = t;
    drawSw(t); replan(t);
    (*G.body)(t->id);
    t->inlib = 0;
    t->state = tDone;
    yieldCpu(t, false);
    fwait(&t->futex);           // kept until the controller lets it exit
    cur = t;
    return nullptr;
}

void rtThreads(int n, const SchedCfg& cfgIn, std::function<void(int)> body, bool join)
{
    static SchedCfg cfg; cfg = cfgIn;
    TCtx* saved = cur;
    cur = nullptr;
    G.cfg = &cfg; G.rng = Rng(cfg.seed); G.n = n; G.multi = true; G.race = cfg.race; G.body = &body;
    G.steps = 0; G.npct = 0; G.pctIdx = 0; G.lowPrio = 0;
    memset(syncs, 0, sizeof syncs);
    if (nGrans) { memset(grans, 0, sizeof(Gran) * kGrans); nGrans = 0; }
    if (cfg.policy == 'p')
    {
        for (unsigned i = 0; i < cfg.depth && i < 16; ++i) G.pct[G.npct++] = 1 + G.rng.below(cfg.est ? cfg.est : 1);
        for (int i = 0; i < G.npct; ++i) for (int j = i + 1; j < G.npct; ++j) if (G.pct[j] < G.pct[i]) std::swap(G.pct[i], G.pct[j]);
    }
    for (int i = 1; i <= n; ++i)
    {
        TCtx& t = ctx[i];
        t = TCtx();
        t.id = i; t.state = tRun;
        memset(t.vc, 0, sizeof t.vc); memset(t.seen, 0, sizeof t.seen); t.relFence = false; t.vc[i] = 1;
        t.prio = 100 + int(G.rng.below(1000)) * 8 + i;
        for (auto& s : cfg.stalls) if (s.first == i) t.stallAt = s.second;
        for (auto& s : cfg.stallsG) if (s.first == i) { t.gStall = s.second; G.watch = true; }
        if (!stacks[i].base)
        {
            stacks[i].size = 512 * 1024;
            stacks[i].base = static_cast<char*>(mmap(nullptr, stacks[i].size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        }
        t.lo = UP(stacks[i].base); t.hi = t.lo + stacks[i].size;
        pthread_attr_t at; pthread_attr_init(&at);
        pthread_attr_setstack(&at, stacks[i].base, stacks[i].size);
        if (pthread_create(&t.th, &at, threadMain, &t)) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
        pthread_attr_destroy(&at);
    }
    int first = cfg.policy == 'x' ? 0 : pickNext(0);
    for (auto& r : cfg.sw) if (cfg.policy == 'x' && r.t == 0 && r.to <= n) { first = r.to; break; }
    if (!first) first = 1;
    record(0, 0, first, 1);
    G.running = first;
    fwake(&ctx[first].futex);
    fwait(&G.ctrlFutex);
    shm->steps += G.steps;
    for (int i = 1; i <= n; ++i) ev(ctx[i].steps);
    bool allDone = true;
    for (int i = 1; i <= n; ++i) if (ctx[i].state != tDone) allDone = false;
    G.multi = false; G.race = false; G.cfg = nullptr; G.watch = false;
    if (join && allDone)
        for (int i = 1; i <= n; ++i) { fwake(&ctx[i].futex); pthread_join(ctx[i].th, nullptr); }
    cur = saved;
}

void rtBegin()
{
    TCtx& t = ctx[0];
    t = TCtx(); t.id = 0; t.state = tRun;
    memset(t.vc, 0, sizeof t.vc); memset(t.seen, 0, sizeof t.seen); t.relFence = false;
    cur = &t;
    replan(&t);
}
uint64_t rtSteps() { return cur ? cur->steps : 0; }
void rtStepCap(uint64_t cap) { TCtx* t = cur; if (!t) return; t->capAt = cap ? t->steps + cap : ~0ULL; replan(t); }
void rtThreadCap(uint64_t cap) { rtStepCap(cap); }
bool rtInCall() { return cur && cur->inlib; }
void rtIrqs(const std::vector<uint64_t>& at, const std::vector<uint64_t>& after, void (*h)(int))
{
    static std::vector<uint64_t> v, g; v = at; g = after;
    G.irqs = &v; G.irqIdx = 0; G.irqFn = h; G.irqDepth = 0;
    G.irqsG = &g; G.irqGIdx = 0; G.irqGNow = false; G.watch = !g.empty();
    // the stack of this thread
    UP here = UP(__builtin_frame_address(0));
    cur->lo = here - (2 << 20); cur->hi = here + (8 << 20);
    cur->irqAt = v.empty() ? ~0ULL : v[0];
    replan(cur);
}

extern "C" void simEnter() { if (cur) ++cur->inlib; }
extern "C" void simLeave() { if (cur) --cur->inlib; }

// ================================================================ heap
static char* const  heapBase = reinterpret_cast<char*>(0x600000000000ULL);
static const size_t heapSize = 1ULL << 33;
struct Blk { size_t size; uint32_t cls; uint32_t magic; Blk* next; uint64_t id; };   // 32 bytes
enum : uint32_t { kLive = 0x4c495645, kDead = 0x44454144 };
static struct Heap
{
    char*       top = nullptr;
    Blk*        head[320]; Blk* tail[320];
    uint64_t    live = 0, bytes = 0, seq = 0;
    AllocPlan   plan; Rng prng; uint64_t asked = 0, failed = 0, inUse = 0;
    unsigned    fill = 0xa5; char reuse = 'l';
} H;

void rtAllocPlan(const AllocPlan& p) { H.plan = p; H.prng = Rng(p.a); H.asked = H.failed = H.inUse = 0; }
uint64_t rtAllocs() { return H.asked; }
uint64_t rtAllocFails() { return H.failed; }
uint64_t rtLiveBlocks() { return H.live; }
uint64_t rtLiveBytes() { return H.bytes; }
void rtHeapPolicy(unsigned fill, char reuse) { H.fill = fill; H.reuse = reuse; }

static unsigned clsOf(size_t n, size_t& r)
{
    if (n <= 4096) { r = (n + 15) & ~size_t(15); if (!r) r = 16; return unsigned(r / 16); }
    unsigned c = 257; r = 8192;
    while (r < n) { r *= 2; ++c; }
    return c;
}
static bool inHeap(const void* p) { return p >= heapBase && p < heapBase + heapSize; }

static bool heapUsable(const void* p, size_t n)
{
    size_t a = (static_cast<const char*>(p) - heapBase) / 16, e = (static_cast<const char*>(p) - heapBase + n - 1) / 16;
    if (e - a > 64) { if (!heapMap[e]) return false; e = a + 64; }
    for (; a <= e; ++a) if (!heapMap[a]) return false;
    return true;
}

static void* heapAlloc(TCtx* t, size_t n)
{
    step(t);
    uint64_t k = H.asked++;
    bool fail = false;
    switch (H.plan.kind)
    {
    case 'k': fail = k == H.plan.a; break;
    case 'f': fail = k >= H.plan.a; break;
    case 'm': fail = H.prng.chance(1, unsigned(H.plan.b ? H.plan.b : 2)); break;
    case 'z': fail = n >= H.plan.a; break;
    case 'b': fail = H.inUse + n > H.plan.a; break;
    case 'x': fail = true; break;
    }
    if (fail || n > heapSize / 4)
    {
        ++H.failed; st(stAllocFail); shm->nontrivial = 1; ilv(mix(k, 99));
        errno = ENOMEM;
        return nullptr;
    }
    st(stAllocOk); ++shm->allocs;
    size_t r; unsigned c = clsOf(n, r);
    if (c >= 320) return nullptr;
    Blk* b = H.reuse == 'n' ? nullptr : H.head[c];
    if (b) { H.head[c] = b->next; if (!b->next) H.tail[c] = nullptr; }
    else
    {
        if (!H.top)
        {
            H.top = static_cast<char*>(mmap(heapBase, heapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
            if (H.top != heapBase) { fprintf(stderr, "heap\n"); _exit(3); }
            heapMap = static_cast<unsigned char*>(mmap(nullptr, heapSize / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (heapMap == MAP_FAILED) { fprintf(stderr, "heap\n"); _exit(3); }
        }
        b = reinterpret_cast<Blk*>(H.top);
        H.top += sizeof(Blk) + r + 16;
        if (H.top > heapBase + heapSize - (1 << 20)) { violate("memory", "library code used up the simulated heap"); }
    }
    b->size = n; b->cls = c; b->magic = kLive; b->next = nullptr; b->id = ++H.seq;
    char* p = reinterpret_cast<char*>(b + 1);
    memset(p, H.fill, r);
    memset(p + n, 0xc3, r - n + 16);
    ++H.live; H.bytes += n; H.inUse += n;
    granClear(UP(p), UP(p) + r);
    memset(heapMap + (p - heapBase) / 16, 1, (n + 15) / 16);
    return p;
}
static void heapCheck(Blk* b)
{
    size_t r; clsOf(b->size, r);
    unsigned char* p = reinterpret_cast<unsigned char*>(b + 1);
    for (size_t i = b->size; i < r + 16; ++i) if (p[i] != 0xc3) violate("heap-overflow", "library code wrote past the end of a block it allocated");
}
static void heapFree(void* p)
{
    if (TCtx* t = lib()) step(t);
    Blk* b = static_cast<Blk*>(p) - 1;
    if (b->magic != kLive) violate("bad-free", b->magic == kDead ? "a block was released twice" : "something that is no block was released");
    heapCheck(b);
    size_t r; unsigned c = clsOf(b->size, r);
    b->magic = kDead;
    memset(heapMap + (static_cast<char*>(p) - heapBase) / 16, 0, (b->size + 15) / 16);
    if (TCtx* t = lib()) if (G.race) for (UP k = UP(p) >> 3; k < (UP(p) + b->size) >> 3 && k < (UP(p) >> 3) + 64; ++k) if (gran(k, false)) granAccess(t, k, 0xff, true, false, k << 3);
    --H.live; H.bytes -= b->size; if (H.inUse >= b->size) H.inUse -= b->size;
    granClear(UP(p), UP(p) + r);
    memset(p, 0xdd, r);
    b->next = nullptr;
    if (H.reuse == 'f') { if (H.tail[c]) H.tail[c]->next = b; else H.head[c] = b; H.tail[c] = b; }
    else { b->next = H.head[c]; H.head[c] = b; if (!H.tail[c]) H.tail[c] = b; }
}

extern "C" {
void* malloc(size_t n) { if (TCtx* t = lib()) return heapAlloc(t, n); return __libc_malloc(n); }
void free(void* p) { if (!p) return; if (inHeap(p)) heapFree(p); else __libc_free(p); }
void* calloc(size_t a, size_t b)
{
    if (TCtx* t = lib())
    {
        if (b && a > heapSize / b) { errno = ENOMEM; return nullptr; }
        void* p = heapAlloc(t, a * b); if (p) memset(p, 0, a * b); return p;
    }
    return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n)
{
    TCtx* t = lib();
    if (!p) return malloc(n);
    if (!inHeap(p)) return __libc_realloc(p, n);
    if (n == 0) { free(p); return nullptr; }
    size_t old = (static_cast<Blk*>(p) - 1)->size;
    void* q;
    if (t) q = heapAlloc(t, n);
    else
    {   // the harness grows a string the library made: keep it in the same heap, without faults
        q = __libc_malloc(n);
    }
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}
void* memalign(size_t al, size_t n) { if (TCtx* t = lib()) { if (al <= 16) return heapAlloc(t, n); } return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
size_t malloc_usable_size(void* p) { if (inHeap(p)) return (static_cast<Blk*>(p) - 1)->size; return 0; }
}

[[noreturn]] static void throwBadAlloc()
{
    if (cur) ++cur->bypass;
    void* ex = abi::__cxa_allocate_exception(sizeof(std::bad_alloc));
    if (cur) --cur->bypass;
    ::new (ex) std::bad_alloc;
    abi::__cxa_throw(ex, const_cast<std::type_info*>(&typeid(std::bad_alloc)), [](void* p) { static_cast<std::bad_alloc*>(p)->~bad_alloc(); });
    abort();
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throwBadAlloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

// ================================================================ instrumentation entry points
#define T_ TCtx* t = lib(); if (!t) return
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { T_; step(t); }
void __tsan_func_exit() { T_; step(t); }
#define RW(n) \
void __tsan_read##n(void* a) { T_; access(t, a, n, false); } \
void __tsan_write##n(void* a) { T_; access(t, a, n, true); } \
void __tsan_unaligned_read##n(void* a) { T_; access(t, a, n, false); } \
void __tsan_unaligned_write##n(void* a) { T_; access(t, a, n, true); } \
void __tsan_volatile_read##n(void* a) { T_; access(t, a, n, false); } \
void __tsan_volatile_write##n(void* a) { T_; access(t, a, n, true); } \
void __tsan_unaligned_volatile_read##n(void* a) { T_; access(t, a, n, false); } \
void __tsan_unaligned_volatile_write##n(void* a) { T_; access(t, a, n, true); } \
void __tsan_read_write##n(void* a) { T_; access(t, a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { T_; access(t, a, n, false); }
void __tsan_write_range(void* a, size_t n) { T_; access(t, a, n, true); }
void __tsan_vptr_update(void** a, void*) { T_; access(t, a, sizeof(void*), true); }
void __tsan_vptr_read(void** a) { T_; access(t, a, sizeof(void*), false); }

static void atomicEv(TCtx* t, volatile void* a, size_t n, bool w, bool acq, bool rel)
{
    if (!t) return;
    st(stAtomic);
    access(t, const_cast<void*>(a), n, w, true);
    if (!G.race) return;
    Sync* s = sync(const_cast<void*>(a));
    if (acq) acquire(t, s);
    else if (s) for (int i = 0; i <= kMaxThreads; ++i) if (s->vc[i] > t->seen[i]) t->seen[i] = s->vc[i];
    if (rel || (w && t->relFence)) release(t, s);
}
static bool isAcq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST || m == __ATOMIC_CONSUME; }
static bool isRel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
#define RMW(n, T, name) \
T __tsan_atomic##n##_##name(volatile T* a, T v, int m) { atomicEv(lib(), a, sizeof(T), true, isAcq(m), isRel(m)); return __atomic_##name(a, v, __ATOMIC_SEQ_CST); }
#define ATOM(n, T) \
T __tsan_atomic##n##_load(const volatile T* a, int m) { atomicEv(lib(), const_cast<volatile T*>(a), sizeof(T), false, isAcq(m), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##n##_store(volatile T* a, T v, int m) { atomicEv(lib(), a, sizeof(T), true, false, isRel(m)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_exchange(volatile T* a, T v, int m) { atomicEv(lib(), a, sizeof(T), true, isAcq(m), isRel(m)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
RMW(n, T, fetch_add) RMW(n, T, fetch_sub) RMW(n, T, fetch_and) RMW(n, T, fetch_or) RMW(n, T, fetch_xor) RMW(n, T, fetch_nand) \
int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int m, int) { atomicEv(lib(), a, sizeof(T), true, isAcq(m), isRel(m)); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, m, f); } \
T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int m, int f) { __tsan_atomic##n##_compare_exchange_strong(a, &e, v, m, f); return e; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int m)
{
    T_; step(t);
    if (isAcq(m)) for (int i = 0; i <= kMaxThreads; ++i) if (t->seen[i] > t->vc[i]) t->vc[i] = t->seen[i];
    if (isRel(m)) t->relFence = true;
}
void __tsan_atomic_signal_fence(int) { T_; step(t); }

// ---------------------------------------------------------------- C library calls of library code
#define ACC(p, n, w) do { if (TCtx* t_ = lib()) access(t_, p, n, w); } while (0)
void* sim_memcpy(void* d, const void* s, size_t n) { ACC(s, n, false); ACC(d, n, true); return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { ACC(s, n, false); ACC(d, n, true); return memmove(d, s, n); }
void* sim_mempcpy(void* d, const void* s, size_t n) { ACC(s, n, false); ACC(d, n, true); return mempcpy(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { ACC(d, n, true); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { ACC(a, n, false); ACC(b, n, false); return memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { void* r = const_cast<void*>(memchr(a, c, n)); ACC(a, r ? static_cast<char*>(r) - static_cast<const char*>(a) + 1 : n, false); return r; }
size_t sim_strlen(const char* s) { size_t n = strlen(s); ACC(s, n + 1, false); return n; }
size_t sim_wcslen(const wchar_t* s) { size_t n = wcslen(s); ACC(s, (n + 1) * 4, false); return n; }
wchar_t* sim_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { ACC(s, n * 4, false); ACC(d, n * 4, true); return wmemcpy(d, s, n); }
wchar_t* sim_wmemmove(wchar_t* d, const wchar_t* s, size_t n) { ACC(s, n * 4, false); ACC(d, n * 4, true); return wmemmove(d, s, n); }
wchar_t* sim_wmemset(wchar_t* d, wchar_t c, size_t n) { ACC(d, n * 4, true); return wmemset(d, c, n); }
wchar_t* sim_wmemchr(const wchar_t* a, wchar_t c, size_t n) { ACC(a, n * 4, false); return const_cast<wchar_t*>(wmemchr(a, c, n)); }
int sim_wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { ACC(a, n * 4, false); ACC(b, n * 4, false); return wmemcmp(a, b, n); }
char* sim_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; ACC(s, n, false); ACC(d, n, true); return strcpy(d, s); }
char* sim_strncpy(char* d, const char* s, size_t n) { size_t k = strnlen(s, n); ACC(s, k < n ? k + 1 : n, false); ACC(d, n, true); return strncpy(d, s, n); }
char* sim_strcat(char* d, const char* s) { size_t n = strlen(s) + 1, m = strlen(d); ACC(d, m + 1, false); ACC(s, n, false); ACC(d + m, n, true); return strcat(d, s); }
int sim_strcmp(const char* a, const char* b) { ACC(a, strlen(a) + 1, false); ACC(b, strlen(b) + 1, false); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t n) { ACC(a, strnlen(a, n), false); ACC(b, strnlen(b, n), false); return strncmp(a, b, n); }
char* sim_strchr(const char* a, int c) { ACC(a, strlen(a) + 1, false); return const_cast<char*>(strchr(a, c)); }
char* sim_strtok(char* s, const char* d) { static char dummy[8]; ACC(dummy, 8, true); return strtok(s, d); }

// ---------------------------------------------------------------- locks
static bool lockMutex(TCtx* t, const void* m, bool tryOnly, bool recursive)
{
    st(stLockOp);
    step(t);
    Sync* s = sync(m);
    while (s->owner >= 0 || s->readers)
    {
        if (s->owner == t->id && recursive) { ++s->count; return true; }
        if (tryOnly) return false;
        if (s->owner == t->id) violate("blocked", "a call waits for a lock its own thread holds");
        block(t, m);
    }
    s->owner = t->id; s->count = 1;
    acquire(t, s);
    if (G.watch) lasting(t);
    step(t);
    return true;
}
static void unlockMutex(TCtx* t, const void* m)
{
    step(t);
    Sync* s = sync(m);
    if (--s->count > 0) return;
    release(t, s);
    s->owner = -1;
    wakeAll(m);
}
static bool isRec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { if (TCtx* t = lib()) { lockMutex(t, m, false, isRec(m)); return 0; } return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { if (TCtx* t = lib()) return lockMutex(t, m, true, isRec(m)) ? 0 : EBUSY; return 0; }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { if (TCtx* t = lib()) return lockMutex(t, m, true, isRec(m)) ? 0 : ETIMEDOUT; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { if (TCtx* t = lib()) unlockMutex(t, m); return 0; }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { return pthread_mutex_init(m, a); }
int sim_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t* m) { if (TCtx* t = lib()) lockMutex(t, const_cast<int*>(m), false, false); return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t* m) { if (TCtx* t = lib()) return lockMutex(t, const_cast<int*>(m), true, false) ? 0 : EBUSY; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t* m) { if (TCtx* t = lib()) unlockMutex(t, const_cast<int*>(m)); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (TCtx* t = lib()) lockMutex(t, m, false, false); return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (TCtx* t = lib()) return lockMutex(t, m, true, false) ? 0 : EBUSY; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    TCtx* t = lib(); if (!t) return 0;
    st(stLockOp); step(t);
    Sync* s = sync(m);
    while (s->owner >= 0) { if (s->owner == t->id) violate("blocked", "a call waits for a lock its own thread holds"); block(t, m); }
    ++s->readers; acquire(t, s); if (G.watch) lasting(t); step(t);
    return 0;
}
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { TCtx* t = lib(); if (!t) return 0; if (sync(m)->owner >= 0) return EBUSY; return sim_pthread_rwlock_rdlock(m); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    TCtx* t = lib(); if (!t) return 0;
    Sync* s = sync(m);
    if (s->owner == t->id) { unlockMutex(t, m); return 0; }
    step(t); release(t, s); if (s->readers > 0) --s->readers; if (!s->readers) wakeAll(m);
    return 0;
}
int sim_pthread_once(pthread_once_t* o, void (*f)())
{
    TCtx* t = lib();
    static_assert(sizeof(pthread_once_t) >= 4, "");
    Sync* s = t ? sync(o) : nullptr;
    if (t) step(t);
    while (*o != 2)
    {
        if (*o == 0)
        {
            *o = 1; if (s) s->owner = t->id;
            try { f(); } catch (...) { *o = 0; if (s) { s->owner = -1; wakeAll(o); } throw; }
            *o = 2;
            if (s) { s->owner = -1; release(t, s); wakeAll(o); }
            return 0;
        }
        if (!t || s->owner == t->id) violate("blocked", "a one-time initialisation is entered again before it ended");
        block(t, o);
    }
    if (t) acquire(t, s);
    return 0;
}
int sim_cxa_guard_acquire(uint64_t* g)
{
    u8* b = reinterpret_cast<u8*>(g);
    TCtx* t = lib();
    if (t) step(t);
    Sync* s = t ? sync(g) : nullptr;
    while (!b[0])
    {
        if (!b[1]) { b[1] = 1; if (s) s->owner = t->id; if (t && G.watch) lasting(t); return 1; }
        if (!t || s->owner == t->id) violate("blocked", "a one-time initialisation is entered again before it ended");
        block(t, g);
    }
    if (t) acquire(t, s);
    return 0;
}
void sim_cxa_guard_release(uint64_t* g)
{
    u8* b = reinterpret_cast<u8*>(g);
    TCtx* t = lib();
    b[0] = 1; b[1] = 0;
    if (t) { Sync* s = sync(g); s->owner = -1; release(t, s); wakeAll(g); step(t); }
}
void sim_cxa_guard_abort(uint64_t* g)
{
    u8* b = reinterpret_cast<u8*>(g);
    b[1] = 0;
    if (TCtx* t = lib()) { Sync* s = sync(g); s->owner = -1; wakeAll(g); step(t); }
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    TCtx* t = lib(); if (!t) return 0;
    unlockMutex(t, m); block(t, c); lockMutex(t, m, false, false); return 0;
}
int sim_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const timespec*)
{
    TCtx* t = lib(); if (!t) return 0;
    unlockMutex(t, m); if (G.multi) switchAway(t, 0, false); lockMutex(t, m, false, false); return ETIMEDOUT;
}
int sim_pthread_cond_signal(pthread_cond_t* c) { if (TCtx* t = lib()) { step(t); wakeAll(c); } return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { if (TCtx* t = lib()) { step(t); wakeAll(c); } return 0; }
// the same primitives called by shared libraries (the lock pool behind atomic shared_ptr, condition variables of libstdc++)
extern "C++" { template <typename F> static F real(F& f, const char* n) { if (!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); return f; } }
#define REAL1(n, T) int n(T* m) noexcept { if (lib()) return sim_##n(m); static int (*f)(T*); return real(f, #n)(m); }
REAL1(pthread_mutex_lock, pthread_mutex_t) REAL1(pthread_mutex_trylock, pthread_mutex_t) REAL1(pthread_mutex_unlock, pthread_mutex_t)
REAL1(pthread_cond_signal, pthread_cond_t) REAL1(pthread_cond_broadcast, pthread_cond_t)
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (lib()) return sim_pthread_cond_wait(c, m); static int (*f)(pthread_cond_t*, pthread_mutex_t*); return real(f, "pthread_cond_wait")(c, m); }
static void relax() { if (TCtx* t = lib()) { step(t); if (G.multi && G.cfg->policy != 'x') switchAway(t, 0, false); } }
int sim_sched_yield() { relax(); return 0; }
int sim_usleep(unsigned) { relax(); return 0; }
int sim_nanosleep(const timespec*, timespec*) { relax(); return 0; }
int sim_clock_nanosleep(clockid_t, int, const timespec*, timespec*) { relax(); return 0; }

// ---------------------------------------------------------------- locale-dependent calls of library code
static int ctypeKind;
static bool oddC() { return ctypeKind && lib(); }
static const unsigned short* oddB()
{
    static unsigned short t[384]; static bool done;
    if (!done)
    {
        memcpy(t, *__ctype_b_loc() - 128, sizeof t);
        for (int c = 0x80; c < 0x100; ++c)
        {
            unsigned short f;
            if (c == 0x85 || c == 0xa0) f = _ISspace | (c == 0xa0 ? _ISblank | _ISprint : _IScntrl);
            else if (c < 0xa0) f = _IScntrl;
            else if (c < 0xc0) f = _ISpunct | _ISprint | _ISgraph;
            else if (c == 0xd7 || c == 0xf7) f = _ISpunct | _ISprint | _ISgraph;
            else f = _ISalpha | _ISalnum | _ISprint | _ISgraph | (c < 0xdf ? _ISupper : _ISlower);
            t[128 + c] = f; if (c != 0xff) t[c - 128] = f;
        }
        t[128 + 0x1c] |= _ISspace; t[128 + 0x1f] |= _ISspace;
        done = true;
    }
    return t + 128;
}
static const int* oddCase(bool lower)
{
    static int lo[384], up[384]; static bool done;
    if (!done)
    {
        memcpy(lo, *__ctype_tolower_loc() - 128, sizeof lo); memcpy(up, *__ctype_toupper_loc() - 128, sizeof up);
        for (int c = 0xc0; c < 0xdf; ++c) if (c != 0xd7) { lo[128 + c] = c + 32; up[128 + c + 32] = c; }
        lo[128 + 'I'] = 0xfd; up[128 + 'i'] = 0xdd;      // as in Turkish
        lo[128 + 0xdd] = 'i'; up[128 + 0xfd] = 'I';
        done = true;
    }
    return (lower ? lo : up) + 128;
}
void rtCtypeSet(int k) { ctypeKind = k; oddB(); oddCase(true); }
const unsigned short** sim_ctype_b_loc() { static const unsigned short* p; if (oddC()) { p = oddB(); return &p; } return __ctype_b_loc(); }
const int** sim_ctype_tolower_loc() { static const int* p; if (oddC()) { p = oddCase(true); return &p; } return __ctype_tolower_loc(); }
const int** sim_ctype_toupper_loc() { static const int* p; if (oddC()) { p = oddCase(false); return &p; } return __ctype_toupper_loc(); }
static bool cIn(int c) { return c >= -128 && c <= 255; }
#define CT(n, bit) int sim_##n(int c) { return oddC() && cIn(c) ? (oddB()[c] & (unsigned short)bit) != 0 : n(c); }
CT(isspace, _ISspace) CT(isalpha, _ISalpha) CT(isupper, _ISupper) CT(islower, _ISlower) CT(isprint, _ISprint) CT(isblank, _ISblank) CT(iscntrl, _IScntrl)
CT(ispunct, _ISpunct) CT(isalnum, _ISalnum) CT(isgraph, _ISgraph)
int sim_tolower(int c) { return oddC() && cIn(c) ? oddCase(true)[c] : tolower(c); }
int sim_toupper(int c) { return oddC() && cIn(c) ? oddCase(false)[c] : toupper(c); }
wint_t sim_towlower(wint_t c) { return oddC() ? (c == 'I' ? 0x131 : c == 0x130 ? 'i' : towlower(c)) : towlower(c); }
wint_t sim_towupper(wint_t c) { return oddC() ? (c == 'i' ? 0x130 : c == 0x131 ? 'I' : towupper(c)) : towupper(c); }
int sim_iswspace(wint_t c) { return oddC() ? c == 0x85 || c == 0xa0 || c == 0x1c || iswspace(c) : iswspace(c); }
char* sim_setlocale(int c, const char* n) { if (oddC() && !n) return const_cast<char*>("tr_TR.ISO-8859-9"); return setlocale(c, n); }
size_t sim_ctype_get_mb_cur_max() { return oddC() ? 1 : MB_CUR_MAX; }

// ---------------------------------------------------------------- destructors of static objects
static struct Dtor { void (*f)(void*); void* a; } dtors[512];
static size_t nDtors;
int sim_cxa_atexit(void (*f)(void*), void* a, void*) { if (nDtors < 512) dtors[nDtors++] = Dtor{f, a}; return 0; }
int sim_atexit(void (*f)()) { return sim_cxa_atexit(reinterpret_cast<void (*)(void*)>(f), nullptr, nullptr); }
int __cxa_thread_atexit(void (*)(void*), void*, void*);
static bool tlsFails;
static Dtor tlsDtors[128];
static size_t nTls;
int sim_cxa_thread_atexit(void (*f)(void*), void* a, void* d)
{
    st(stTls);
    TCtx* t = lib();
    if (t && tlsFails)              // the C library ends the process when it cannot note a destructor
    {
        void* p = malloc(32);
        if (!p) abort();
        free(p);
    }
    if (t) ++t->bypass;
    int r = 0;
    if (cur && cur->id == 0) { if (nTls < 128) tlsDtors[nTls++] = Dtor{f, a}; }     // main thread: destroyed at exit, before static objects
    else r = __cxa_thread_atexit(f, a, d);
    if (t) --t->bypass;
    return r;
}

// ---------------------------------------------------------------- ambient state
static const char* ambStr()
{
    static const char* const v[] = { "tr_TR.UTF-8", "1", "", "az", "C", "de_DE.ISO-8859-1", "0", "tr", "UTF-8", "yes" };
    return v[G.ambRng.below(10)];
}
static bool amb() { return G.amb && lib(); }
char* __secure_getenv_real(const char*);
extern char** environ;
static char* envLookup(const char* n)
{
    size_t k = strlen(n);
    for (char** e = environ; e && *e; ++e) if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
    return nullptr;
}
char* getenv(const char* n) noexcept { if (amb()) { st(stAmbient); return G.ambRng.chance(1, 5) ? nullptr : const_cast<char*>(ambStr()); } return envLookup(n); }
char* secure_getenv(const char* n) noexcept { return getenv(n); }
int rand() noexcept { static Rng r(42); if (lib()) return int((G.amb ? G.ambRng.next() : r.next()) >> 33); return int(r.next() >> 33); }
long random() noexcept { return rand(); }
time_t time(time_t* o) noexcept
{
    time_t v;
    if (lib()) v = G.amb ? time_t(G.ambRng.next() >> 28) : 1700000000;
    else { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (o) *o = v;
    return v;
}
int clock_gettime(clockid_t c, timespec* ts) noexcept
{
    if (lib()) { ts->tv_sec = G.amb ? time_t(G.ambRng.next() >> 30) : 1700000000; ts->tv_nsec = long(G.amb ? G.ambRng.below(1000000000) : 0); return 0; }
    return int(syscall(SYS_clock_gettime, c, ts));
}
int gettimeofday(timeval* tv, void* z) noexcept
{
    if (lib()) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    return int(syscall(SYS_gettimeofday, tv, z));
}
clock_t clock() noexcept { return lib() ? (G.amb ? clock_t(G.ambRng.next() >> 40) : 0) : 0; }
}

void rtCtype(int k) { rtCtypeSet(k); }
void rtAmbient(uint64_t seed) { G.amb = seed; G.ambRng = Rng(seed); }

// ================================================================ static initialisers
extern "C" { typedef void (*InitFn)(int, char**, char**); extern InitFn __start_sim_init[] __attribute__((weak)); extern InitFn __stop_sim_init[] __attribute__((weak)); }
size_t rtInitCount() { return __start_sim_init ? size_t(__stop_sim_init - __start_sim_init) : 0; }
void rtInit(size_t i)
{
    if (__start_sim_init[i] && reinterpret_cast<UP>(__start_sim_init[i]) != ~UP(0))
    {
        if (cur) ++cur->inlib;
        __start_sim_init[i](0, nullptr, environ);
        if (cur) --cur->inlib;
    }
}
void rtInitAll() { for (size_t i = 0; i < rtInitCount(); ++i) rtInit(i); }
void rtTlsFails() { tlsFails = true; }
size_t rtDtorCount() { return nDtors + nTls; }
void rtDtorRun()
{
    Dtor d = nTls ? tlsDtors[--nTls] : dtors[--nDtors];
    if (cur) ++cur->inlib;
    d.f(d.a);
    if (cur) --cur->inlib;
}

void rtPinAndFix(char** argv)
{
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !envLookup("SIM_NOASLR"))
    {
        if (personality(p | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("SIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    cpu_set_t all, one; CPU_ZERO(&one);
    if (!sched_getaffinity(0, sizeof all, &all))
    {
        int n = CPU_COUNT(&all), k = n ? int(getpid() % n) : 0;
        for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && k-- == 0) { CPU_SET(i, &one); break; }
        sched_setaffinity(0, sizeof one, &one);
    }
    grans = static_cast<Gran*>(mmap(nullptr, sizeof(Gran) * kGrans, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}
