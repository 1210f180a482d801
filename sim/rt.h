// Interface of the simulated run time.
#pragma once
#include "sim.h"
#include <functional>

enum { kMaxThreads = 8, kMaxSw = 60000 };

enum Stat {
    stPreempt, stConflictPreempt, stStall, stInterrupt, stInterruptNested, stAllocFail, stAllocOk,
    stBlocked, stInitRun, stDtorRun, stEarlyCall, stLateCall, stAmbient, stBufferReuse, stRepeat,
    stCut, stTornChar, stDamageFlip, stDamageOver, stDamageLose, stDamageDup, stDamageSwap, stDamageSplice,
    stFragment, stRetry, stDamagedStream, stHop, stGuardCall, stReadOnlyArg, stHeapExact, stSmallStack, stLongInput,
    stIoOpenFail, stIoShortRead, stIoShortWrite, stIoEintr, stIoReadErr, stIoWriteErr, stIoCloseErr, stIoStatFail,
    stInputCut, stInputDamage, stOps, stWritesSeen, stSharedArg, stAtomic, stLockOp, stTls, stSharedPred,
    kNumStats
};
extern const char* const statNames[kNumStats];

struct SwRec { uint32_t step; uint8_t t, to, kind, pad; };   // kind 0: preemption, 1: thread ended or blocked

// One page range shared between the worker and the forked run.
struct Shm
{
    int         violated;
    char        cls[64];
    char        detail[3000];
    uint64_t    steps;          // simulated steps inside library code
    uint64_t    hash;           // of everything observable in the run
    uint64_t    ilv;            // of the interleaving / fault placement
    uint64_t    allocs;
    uint64_t    aux[8];
    uint32_t    nontrivial;
    uint32_t    nsw;
    uint32_t    swOverflow;
    char        result[1 << 16];
    uint64_t    stat[kNumStats];
    SwRec       sw[kMaxSw];
};
extern Shm* shm;

[[noreturn]] void violate(const std::string& cls, const std::string& detail);
inline void st(Stat s, uint64_t n = 1) { shm->stat[s] += n; }
inline void ev(uint64_t v) { shm->hash = mix(shm->hash, v); }
inline void evs(const std::string& s) { ev(hashStr(s)); }
inline void ilv(uint64_t v) { shm->ilv = mix(shm->ilv, v); }

// ---- allocator faults (only inside library code)
struct AllocPlan { char kind = 0; uint64_t a = 0, b = 0; };
// 0 none, 'k' the a-th allocation of the call, 'f' from the a-th on, 'm' each with chance 1/b (seed a),
// 'z' those of at least a bytes, 'b' once a bytes are in use by the call, 'x' all
void rtAllocPlan(const AllocPlan& p);
uint64_t rtAllocs();            // allocations asked for since rtAllocPlan
uint64_t rtAllocFails();        // of which failed
uint64_t rtLiveBlocks();        // blocks allocated inside library code and not freed
uint64_t rtLiveBytes();
void rtHeapPolicy(unsigned fill, char reuse);   // content of new blocks; reuse: l(ifo) f(ifo) n(ever)

// ---- plain execution on this thread
void rtBegin();                 // this thread becomes simulated thread 0
uint64_t rtSteps();             // its steps so far
void rtStepCap(uint64_t cap);   // violation "stuck" if a call takes more steps; 0: none

// ---- interruptions of the calls on this thread
// atSteps: sorted steps, calling handler with 0..n-1; afterWrites: sorted numbers of writes to memory that outlives
// the call, calling it with n..
void rtIrqs(const std::vector<uint64_t>& atSteps, const std::vector<uint64_t>& afterWrites, void (*handler)(int index));

// ---- threads
struct SchedCfg
{
    char        policy = 'r';   // r random, p PCT, c conflict-directed, x explicit
    unsigned    den = 64;       // random: preempt with chance 1/den
    unsigned    depth = 3;      // PCT change points
    uint64_t    est = 10000;    // PCT estimate of steps
    uint64_t    seed = 1;
    bool        race = true;
    std::vector<SwRec>  sw;     // explicit schedule
    std::vector<std::pair<int, uint64_t>> stalls;   // thread, its step
    std::vector<std::pair<int, uint64_t>> stallsG;  // thread, number of its lock operations and writes to memory that outlives the call
};
// runs body(i) for i in 1..n on n simulated threads until all are done or stalled for ever
void rtThreads(int n, const SchedCfg& cfg, std::function<void(int)> body, bool join);
void rtThreadCap(uint64_t cap); // as rtStepCap, for the calling simulated thread
bool rtInCall();

// ---- static initialisers and destructors of library code
size_t rtInitCount();
void rtInit(size_t i);
void rtInitAll();
void rtTlsFails();              // noting the destructor of a thread-local object needs memory, too
size_t rtDtorCount();           // registered and not yet run
void rtDtorRun();               // run the last registered

// ---- ambient state seen by library code
void rtAmbient(uint64_t seed);  // 0: the default environment
void rtCtype(int k);            // 0: the real C library; 1: an 8-bit Turkish locale
void rtPinAndFix(char** argv);
