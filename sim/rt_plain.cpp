// Run time of the flavours without instrumentation: no scheduler, no simulated heap.
#include "rt.h"
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <new>
#include <unistd.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>

extern "C" void simEnter() {}
extern "C" void simLeave() {}
void rtAllocPlan(const AllocPlan&) {}
uint64_t rtAllocs() { return 0; }
void rtBegin() {}
uint64_t rtSteps() { return 0; }
void rtInitAll() {}
void rtPinAndFix(char** argv)
{
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR"))
        if (personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
}
#ifdef NO_LIBRARY
void execOp(const Op&, ArgSet&, std::string&) { abort(); }
#endif

#ifdef ASAN_FLAVOUR
// Arguments live on pages of their own: nothing is mapped on either side and they are read-only during calls.
bool arenaOn;
char arenaMode = 'e';
static struct Range { char* lo; size_t len; } ranges[4096];
static int nRanges;
static char* const arenaLo = reinterpret_cast<char*>(0x200000000000ULL);
static char* arenaTop = arenaLo;
void* arenaAlloc(size_t n)
{
    size_t len = ((n ? n : 1) + 4095) & ~size_t(4095);
    if (nRanges == 4096) _exit(3);
    char* at = arenaTop + 4096;
    arenaTop = at + len;
    char* p = static_cast<char*>(mmap(at, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0));
    if (p != at) { perror("arena"); _exit(3); }
    memset(p, 0x6b, len);
    ranges[nRanges++] = Range{ p, len };
    return arenaMode == 'e' ? p + len - n : p;
}
void arenaProtect(bool ro) { for (int i = 0; i < nRanges; ++i) mprotect(ranges[i].lo, ranges[i].len, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
void arenaClear()
{
    for (int i = 0; i < nRanges; ++i) munmap(ranges[i].lo, ranges[i].len);
    nRanges = 0; arenaTop = arenaLo;
}
static bool inArena(void* p) { return p >= arenaLo && p < arenaTop; }
void* operator new(size_t n) { if (arenaOn) return arenaAlloc(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!inArena(p)) free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
