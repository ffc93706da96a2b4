// Deterministic scheduler for the thread driver.  Compiled WITHOUT the thread sanitizer: handing over
// the turn is invisible to it, so it judges the code under test as if the threads were unsynchronized,
// while this file decides their exact interleaving.  Every atomic operation of instrumented code (ld
// --wrap of the sanitizer's entry points) and every allocation is a point where the turn may change.
#include "vfsched.h"
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <new>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
namespace sch {
static __thread int me = -1;
static __thread int lib = 0;
static volatile int turn[MAXT];          // futex words
static volatile int fin;
static int nthr; static bool done_[MAXT];
Decision trail[MAXD]; int ntrail; static int prefix[MAXD], nprefix; static unsigned rnd; static int rndpct;
static long nyield;
static void wake(volatile int* w) { __atomic_store_n(w, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, w, FUTEX_WAKE, 1, 0, 0, 0); }
static void sleepOn(volatile int* w) { while (__atomic_load_n(w, __ATOMIC_SEQ_CST) == 0) syscall(SYS_futex, w, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(w, 0, __ATOMIC_SEQ_CST); }
static unsigned rand_() { rnd = rnd * 1664525u + 1013904223u; return rnd >> 8; }
static int choose(int nopt, bool free) {
  int k = ntrail, c = 0;
  if (k < nprefix) c = prefix[k];
  else if (rndpct && (free || (int)(rand_() % 100) < rndpct)) c = rand_() % nopt;
  if (c >= nopt) c = 0;
  Decision d; d.nopt = nopt; d.chosen = c; d.free = free; if (ntrail < MAXD) trail[ntrail++] = d;
  return c;
}
void begin(int n, const int* p, int np, unsigned seed, int pct) {
  nthr = n; nprefix = np; for (int i = 0; i < np; ++i) prefix[i] = p[i]; rnd = seed; rndpct = pct; ntrail = 0; fin = 0; nyield = 0;
  for (int i = 0; i < n; ++i) { done_[i] = false; turn[i] = 0; }
}
void start() { int c = choose(nthr, true); wake(&turn[c]); sleepOn(&fin); }
void enter(int t) { sleepOn(&turn[t]); me = t; }
void leave() {
  int t = me; me = -1; done_[t] = true; int opt[MAXT], n = 0;
  for (int i = 0; i < nthr; ++i) if (!done_[i]) opt[n++] = i;
  if (!n) { wake(&fin); return; }
  int c = n == 1 ? 0 : choose(n, true); wake(&turn[opt[c]]);
}
void yield() {
  if (me < 0) return;
  ++nyield; int t = me, opt[MAXT], n = 0; opt[n++] = t;
  for (int i = 0; i < nthr; ++i) if (i != t && !done_[i]) opt[n++] = i;
  if (n == 1) return;
  int c = choose(n, false);
  if (c == 0) return;
  wake(&turn[opt[c]]); sleepOn(&turn[t]);
}
void inLib(bool on) { lib = on; }
// ---- allocations made by the library ----
struct B { void* p; size_t n; }; static B* blk; static size_t nblk, cap; static void** dead; static size_t ndead, dcap;
static const char* problem = "";
const char* allocProblem() { return problem; }
size_t liveBlocks() { return nblk; }
void resetAlloc() { nblk = 0; ndead = 0; problem = ""; }
static void onNew(void* p, size_t n) {
  for (size_t i = 0; i < ndead; ++i) if (dead[i] == p) { dead[i] = dead[--ndead]; break; }
  if (!lib) return;
  if (nblk == cap) { cap = cap ? cap * 2 : 256; blk = (B*)realloc(blk, cap * sizeof(B)); }
  blk[nblk++] = B{p, n};
}
static bool onDel(void* p) {          // false: refuse to free
  for (size_t i = 0; i < nblk; ++i) if (blk[i].p == p) {
    memset(p, 0xDB, blk[i].n);
    blk[i] = blk[--nblk];
    if (ndead == dcap) { dcap = dcap ? dcap * 2 : 256; dead = (void**)realloc(dead, dcap * sizeof(void*)); }
    dead[ndead++] = p; return true;
  }
  for (size_t i = 0; i < ndead; ++i) if (dead[i] == p) { problem = "storage released twice"; return false; }
  return true;
}
}
static void* get(size_t n) { if (sch::lib) sch::yield(); void* p = malloc(n ? n : 1); if (!p) abort(); sch::onNew(p, n); return p; }
static void drop(void* p) { if (!p) return; if (sch::lib) sch::yield(); if (sch::onDel(p)) free(p); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
// ---- atomic operations of instrumented code ----
// The sanitizer does not know fences.  Here an acquire fence acquires what was released to the atomics
// this thread read with relaxed order, and relaxed writes after a release fence release.
extern "C" void __tsan_acquire(void*); extern "C" void __tsan_release(void*);
namespace sch {
static __thread volatile void* rd[16]; static __thread int nrd; static __thread int relf;
static inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool isAcq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void sawRead(volatile void* a, int mo) { if (!lib || isAcq(mo)) return; for (int i = 0; i < nrd && i < 16; ++i) if (rd[i] == a) return; rd[nrd++ % 16] = a; }
static inline int wmo(int mo) { return !relf || isRel(mo) ? mo : isAcq(mo) ? __ATOMIC_ACQ_REL : __ATOMIC_RELEASE; }
static inline int wmoStore(int mo) { return !relf || isRel(mo) ? mo : __ATOMIC_RELEASE; }
}
extern "C" void __real___tsan_atomic_thread_fence(int);
extern "C" void __wrap___tsan_atomic_thread_fence(int mo) {
  if (sch::lib) sch::yield();
  if (sch::isAcq(mo)) { for (int i = 0; i < sch::nrd && i < 16; ++i) __tsan_acquire((void*)sch::rd[i]); sch::nrd = 0; }
  if (sch::isRel(mo)) sch::relf = 1;
  __real___tsan_atomic_thread_fence(mo);
}
#define RMW(sz, T, name) \
  extern "C" T __real___tsan_atomic##sz##_##name(volatile T*, T, int); \
  extern "C" T __wrap___tsan_atomic##sz##_##name(volatile T* a, T v, int mo) { if (sch::lib) sch::yield(); T r = __real___tsan_atomic##sz##_##name(a, v, sch::wmo(mo)); sch::sawRead(a, mo); return r; }
#define CAS(sz, T, name) \
  extern "C" int __real___tsan_atomic##sz##_##name(volatile T*, T*, T, int, int); \
  extern "C" int __wrap___tsan_atomic##sz##_##name(volatile T* a, T* c, T v, int mo, int fmo) { if (sch::lib) sch::yield(); int r = __real___tsan_atomic##sz##_##name(a, c, v, sch::wmo(mo), fmo); sch::sawRead(a, r ? mo : fmo); return r; }
#define ALL(sz, T) \
  extern "C" T __real___tsan_atomic##sz##_load(const volatile T*, int); \
  extern "C" T __wrap___tsan_atomic##sz##_load(const volatile T* a, int mo) { if (sch::lib) sch::yield(); T r = __real___tsan_atomic##sz##_load(a, mo); sch::sawRead((volatile T*)a, mo); return r; } \
  extern "C" void __real___tsan_atomic##sz##_store(volatile T*, T, int); \
  extern "C" void __wrap___tsan_atomic##sz##_store(volatile T* a, T v, int mo) { if (sch::lib) sch::yield(); __real___tsan_atomic##sz##_store(a, v, sch::wmoStore(mo)); } \
  RMW(sz, T, exchange) RMW(sz, T, fetch_add) RMW(sz, T, fetch_sub) RMW(sz, T, fetch_and) RMW(sz, T, fetch_or) RMW(sz, T, fetch_xor) \
  CAS(sz, T, compare_exchange_strong) CAS(sz, T, compare_exchange_weak)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
