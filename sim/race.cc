// Runtime behind the compiler's thread instrumentation (-fsanitize=thread
// without its own runtime): every memory access of a simulated thread is a
// point where the scheduler may switch threads, and is checked against the
// happens-before order of the accesses before.
#include "core.hh"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <cxxabi.h>
#include <pthread.h>
#include <sys/mman.h>

namespace sim {
extern thread_local bool traced;
extern void (*onFree)(void*, size_t);
extern void (*onThreadsStart)(int);
extern void (*onThreadsEnd)();
}
using namespace sim;

namespace {
constexpr int MT = 4;
typedef uint32_t Clock;
struct VC { Clock c[MT]; };
VC vc[MT];
int nThreads = 0;

// ---- shadow memory: one cell for 8 bytes
struct Cell {
  uintptr_t key;               // address / 8 + 1
  Clock rclk[MT], wclk[MT];
  uint8_t rmask[MT], wmask[MT];
  uint32_t rpc[MT], wpc[MT];
};
constexpr size_t NCELL = 1 << 19;
Cell* shadow = nullptr;
size_t used = 0;
extern "C" char __executable_start;
Cell* find(uintptr_t k, bool make) {
  size_t h = (k * 0x9e3779b97f4a7c15ull) >> 45;
  for (size_t n = 0; n < 64; ++n) {
    Cell* c = &shadow[(h + n) & (NCELL - 1)];
    if (c->key == k) return c;
    if (c->key == 0) {
      if (!make || used > NCELL / 2) return nullptr;
      c->key = k; ++used;
      return c;
    }
  }
  return nullptr;
}

struct Sync { uintptr_t key; VC v; };
constexpr size_t NSYNC = 1 << 14;
Sync syncs[NSYNC];
Sync* findSync(uintptr_t k, bool make) {
  size_t h = (k * 0x9e3779b97f4a7c15ull) >> 50;
  for (size_t n = 0; n < 128; ++n) {
    Sync* s = &syncs[(h + n) & (NSYNC - 1)];
    if (s->key == k) return s;
    if (s->key == 0) { if (!make) return nullptr; s->key = k; return s; }
  }
  return nullptr;
}
void acquire(const volatile void* p) {
  int t = currentThread();
  if (Sync* s = findSync((uintptr_t)p, false)) for (int i = 0; i < nThreads; ++i) if (s->v.c[i] > vc[t].c[i]) vc[t].c[i] = s->v.c[i];
}
void release(const volatile void* p) {
  int t = currentThread();
  if (Sync* s = findSync((uintptr_t)p, true)) for (int i = 0; i < nThreads; ++i) if (vc[t].c[i] > s->v.c[i]) s->v.c[i] = vc[t].c[i];
  vc[t].c[t]++;
}

std::string where(uint32_t pc) {
  void* a = &__executable_start + pc;
  Dl_info i;
  if (dladdr(a, &i) && i.dli_sname) {
    int st;
    char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = d ? d : i.dli_sname;
    if (d) free(d);
    if (s.size() > 500) s = s.substr(0, 250) + " ... " + s.substr(s.size() - 250);
    return s + fmt(" (+%x)", pc);
  }
  return fmt("+%x", pc);
}
[[noreturn]] void race(const char* what, uintptr_t addr, uint32_t pc, uint32_t opc) {
  traced = false;
  violation("data-race", fmt("%s without synchronisation by two threads: ", what) + where(pc) + "  and  " + where(opc));
}

uint64_t slice = 0;
int preemptions = 0;
void newSlice() {
  if (preemptions > 400) { slice = 0; return; }
  static const uint32_t scale[] = {5, 30, 200, 1000, 5000, 30000};
  uint32_t v = choose(6);
  slice = choose(2 * scale[v]);       // 0: as long as it likes
}
void tick() {
  rec->accesses++;
  if (slice && --slice == 0) {
    traced = false;
    ++preemptions;
    rec->faults[F_PREEMPT]++;
    newSlice();
    switchThread();
    traced = true;
  }
}
thread_local uintptr_t stackLo = 0, stackHi = 0;
bool onStack(uintptr_t a) {
  if (!stackLo) {
    pthread_attr_t at;
    void* p; size_t n;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &p, &n);
    pthread_attr_destroy(&at);
    stackLo = (uintptr_t)p; stackHi = stackLo + n;
  }
  return a >= stackLo && a < stackHi;
}
void touch(Cell* c, uint8_t mask, bool write, uint32_t pc, uintptr_t a) {
  int t = currentThread();
  for (int u = 0; u < nThreads; ++u) {
    if (u == t) continue;
    if ((c->wmask[u] & mask) && c->wclk[u] > vc[t].c[u]) race(write ? "written" : "written and read", a, pc, c->wpc[u]);
    if (write && (c->rmask[u] & mask) && c->rclk[u] > vc[t].c[u]) race("read and written", a, pc, c->rpc[u]);
  }
  Clock now = vc[t].c[t];
  if (write) {
    if (c->wclk[t] != now) { c->wclk[t] = now; c->wmask[t] = 0; }
    c->wmask[t] |= mask; c->wpc[t] = pc;
  } else {
    if (c->rclk[t] != now) { c->rclk[t] = now; c->rmask[t] = 0; }
    c->rmask[t] |= mask; c->rpc[t] = pc;
  }
}
void range(const volatile void* p, size_t n, bool write, void* ret) {
  if (!traced || n == 0) return;
  uintptr_t a = (uintptr_t)p;
  uint32_t pc = (uint32_t)((char*)ret - &__executable_start) - 1;
  tick();
  if (onStack(a)) return;
  if (n > 65536) n = 65536;
  for (uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8) {
    uint8_t mask = 0;
    for (int k = 0; k < 8; ++k) if (g + k >= a && g + k < a + n) mask |= 1 << k;
    if (Cell* c = find(g / 8 + 1, true)) touch(c, mask, write, pc, g);
  }
}
void freed(void* p, size_t n) {
  if (!traced || !shadow) return;
  int t = currentThread();
  for (uintptr_t g = (uintptr_t)p & ~(uintptr_t)7; g < (uintptr_t)p + n; g += 8) {
    if (Cell* c = find(g / 8 + 1, false)) {
      for (int u = 0; u < nThreads; ++u) {
        if (u == t) continue;
        if (c->wmask[u] && c->wclk[u] > vc[t].c[u]) race("written and released", g, c->wpc[u], c->wpc[u]);
        if (c->rmask[u] && c->rclk[u] > vc[t].c[u]) race("read and released", g, c->rpc[u], c->rpc[u]);
      }
      uintptr_t k = c->key;
      memset(c, 0, sizeof *c);
      c->key = k;
    }
    if (Sync* s = findSync(g, false)) { memset(&s->v, 0, sizeof s->v); }
    if (Sync* s = findSync(g + 4, false)) { memset(&s->v, 0, sizeof s->v); }
  }
}
void start(int n) {
  nThreads = n;
  if (n > MT) internalError("too many threads");
  if (!shadow) shadow = (Cell*)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  else madvise(shadow, NCELL * sizeof(Cell), MADV_DONTNEED);
  used = 0;
  memset(syncs, 0, sizeof syncs);
  memset(vc, 0, sizeof vc);
  for (int i = 0; i < n; ++i) vc[i].c[i] = 1;
  preemptions = 0;
  newSlice();
}
void stop() { nThreads = 0; }
struct Init { Init() { onFree = freed; onThreadsStart = start; onThreadsEnd = stop; } } init_;

// static initialisation in progress
struct Guard { void* g; int owner; } guards[64];
} // namespace

extern "C" {
#define RW(N) \
  void __tsan_read##N(void* p) { range(p, N, false, __builtin_return_address(0)); } \
  void __tsan_write##N(void* p) { range(p, N, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##N(void* p) { range(p, N, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##N(void* p) { range(p, N, true, __builtin_return_address(0)); } \
  void __tsan_read_write##N(void* p) { range(p, N, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read_write##N(void* p) { range(p, N, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) range(p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { range(p, 8, false, __builtin_return_address(0)); }
void __tsan_read_range(void* p, size_t n) { range(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { range(p, n, true, __builtin_return_address(0)); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { range(s, n, false, __builtin_return_address(0)); range(d, n, true, __builtin_return_address(0)); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { range(s, n, false, __builtin_return_address(0)); range(d, n, true, __builtin_return_address(0)); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { range(d, n, true, __builtin_return_address(0)); return memset(d, c, n); }

static inline bool acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static inline bool rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
#define PRE(p) if (traced) { tick(); }
// The increment of a reference count orders nothing (the standard gives no
// such guarantee for copying a shared_ptr), although libstdc++ uses acq_rel.
#define RMW(T, N, NAME, EXPR, COUNT) \
  T __tsan_atomic##N##_##NAME(volatile T* p, T v, int o) { \
    PRE(p) \
    bool sync = traced && !(COUNT); \
    if (sync && acq(o)) acquire(p); \
    T old = *p; *p = (T)(EXPR); \
    if (sync && rel(o)) release(p); \
    return old; }
#define ATOMIC(T, N) \
  T __tsan_atomic##N##_load(const volatile T* p, int o) { PRE(p) T v = *p; if (traced && acq(o)) acquire(p); return v; } \
  void __tsan_atomic##N##_store(volatile T* p, T v, int o) { PRE(p) if (traced && rel(o)) release(p); *p = v; } \
  RMW(T, N, exchange, v, false) \
  RMW(T, N, fetch_add, old + v, o == __ATOMIC_ACQ_REL && v == 1) \
  RMW(T, N, fetch_sub, old - v, false) \
  RMW(T, N, fetch_and, old & v, false) \
  RMW(T, N, fetch_or, old | v, false) \
  RMW(T, N, fetch_xor, old ^ v, false) \
  RMW(T, N, fetch_nand, ~(old & v), false) \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int fo) { \
    PRE(p) \
    if (*p == *c) { if (traced && acq(o)) acquire(p); *p = v; if (traced && rel(o)) release(p); return 1; } \
    if (traced && acq(fo)) acquire(p); *c = *p; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int fo) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, o, fo); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int o, int fo) { T e = c; __tsan_atomic##N##_compare_exchange_strong(p, &e, v, o, fo); return e; }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)
void __tsan_atomic_thread_fence(int) { PRE(0) }
void __tsan_atomic_signal_fence(int) {}

int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!traced) return __real_pthread_mutex_lock(m);
  tick();
  traced = false;
  while (__real_pthread_mutex_trylock(m)) blockSwitch();
  acquire(m);
  traced = true;
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!traced) return __real_pthread_mutex_trylock(m);
  tick();
  int r = __real_pthread_mutex_trylock(m);
  if (r == 0) acquire(m);
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (traced) { tick(); release(m); }
  return __real_pthread_mutex_unlock(m);
}
int __real_pthread_once(pthread_once_t*, void (*)());
static bool dropGuard(void* g) { for (auto& x : guards) if (x.g == g) { x.g = nullptr; return true; } return false; }
// true: the caller has to run the initialisation
static bool enterOnce(void* g, bool (*done)(void*)) {
  tick();
  for (;;) {
    if (done(g)) { acquire(g); return false; }
    int other = -1, freeSlot = -1;
    for (int i = 0; i < 64; ++i) { if (guards[i].g == g) other = guards[i].owner; if (!guards[i].g && freeSlot < 0) freeSlot = i; }
    if (other < 0) {
      if (freeSlot < 0) { traced = false; internalError("too many initialisations at once"); }
      guards[freeSlot] = {g, currentThread()};
      acquire(g);
      return true;
    }
    traced = false;
    blockSwitch();
    traced = true;
  }
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!traced) return __real_pthread_once(o, f);
  if (!enterOnce(o, [](void* g) { return *(volatile pthread_once_t*)g == 2; })) return 0;   // (2: done, for glibc)
  try { f(); } catch (...) { dropGuard(o); if (traced) release(o); throw; }
  *(volatile pthread_once_t*)o = 2;
  dropGuard(o);
  if (traced) { release(o); tick(); }
  return 0;
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) {
  if (!traced) return __real___cxa_guard_acquire(g);
  return enterOnce(g, [](void* p) { return *(volatile char*)p != 0; });
}
void __wrap___cxa_guard_release(void* g) {
  if (!dropGuard(g)) return __real___cxa_guard_release(g);
  *(volatile char*)g = 1;
  if (traced) { release(g); tick(); }
}
void __wrap___cxa_guard_abort(void* g) {
  if (!dropGuard(g)) return __real___cxa_guard_abort(g);
  if (traced) release(g);
}
}
