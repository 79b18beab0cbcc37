#include "core.hh"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <semaphore.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
#include <alloca.h>

namespace sim {

const char* faultName[F_NUM] = {
  "allocation_failure", "user_callback_throws", "grid_query_throws", "user_copy_throws", "user_move_throws",
  "user_vector_backend_throws", "thread_preemption_inside_operation", "source_object_destroyed_early",
  "grid_changed_underneath", "heap_garbage_variation"};

Record* rec = nullptr;
bool verbose = false;
thread_local Plan* plan = nullptr;
uint64_t heapSeed = 0x9e3779b97f4a7c15ull;
bool heapGarbage = true;
bool inThreads = false;
thread_local bool traced = false;   // accesses of this thread are instrumented now
namespace { struct Untraced { bool old; Untraced() : old(traced) { traced = false; } ~Untraced() { traced = old; } }; }

// ---------------------------------------------------------------- decisions
static uint64_t rngState = 1;
static bool replaying = false;
static const uint32_t* replayData = nullptr;    // (no memory of its own: a replay allocates what the search allocated)
static size_t replaySize = 0;
static size_t replayPos = 0;

static uint64_t next64() {
  uint64_t z = (rngState += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void seedChoices(uint64_t seed) { rngState = mix(seed, 0x5eed); replaying = false; }
void replayChoices(const uint32_t* v, size_t n) { replaying = true; replayData = v; replaySize = n; replayPos = 0; }

static const std::vector<uint32_t>* subReplay = nullptr;
static size_t subPos = 0;
SubReplay::SubReplay(const std::vector<uint32_t>& v) { subReplay = &v; subPos = 0; }
SubReplay::~SubReplay() { subReplay = nullptr; }

uint32_t choose(uint32_t n) {
  Untraced u;
  if (n == 0) internalError("choose(0)");
  if (subReplay) { uint32_t v = subPos < subReplay->size() ? (*subReplay)[subPos] % n : 0; subPos++; return v; }
  uint32_t v = 0;
  if (replaying) {
    if (replayPos < replaySize) v = replayData[replayPos++] % n;
  } else if (n > 1)
    v = uint32_t(next64() % n);
  if (rec) {
    if (rec->nChoices >= (uint32_t)MAXCHOICES) internalError("too many choices in one run");
    rec->choice[rec->nChoices] = v;
    rec->bound[rec->nChoices] = n;
    rec->nChoices++;
  }
  return v;
}
int chooseWeighted(const std::vector<int>& w) {
  Untraced u;
  int sum = 0;
  for (int x : w) sum += x;
  if (sum <= 0) internalError("no alternative has weight");
  int v = (int)choose(sum);
  for (size_t i = 0; i < w.size(); ++i) {
    if (v < w[i]) return (int)i;
    v -= w[i];
  }
  return 0;
}

// ---------------------------------------------------------------- log
void event(const char* f, ...) {
  Untraced u;
  char buf[512];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  if (rec) {
    uint64_t h = rec->eventHash ? rec->eventHash : 1469598103934665603ull;
    for (int i = 0; i < n; ++i) h = (h ^ (unsigned char)buf[i]) * 1099511628211ull;
    rec->eventHash = (h ^ '\n') * 1099511628211ull;
    rec->events++;
  }
  if (verbose) fprintf(stderr, "  [%llu] t%d %s\n", rec ? (unsigned long long)rec->events : 0ull, currentThread(), buf);
}
void cover(uint64_t h) {
  Untraced u;
  if (!rec) return;
  for (uint32_t i = rec->nCover; i-- > 0;)
    if (rec->cover[i] == h) return;
  if (rec->nCover < (uint32_t)MAXCOVER) rec->cover[rec->nCover++] = h;
}
[[noreturn]] static void leave(int st, const char* kind, const char* msg) {
  traced = false;
  if (rec) {
    rec->status = st;
    snprintf(rec->kind, sizeof rec->kind, "%s", kind);
    snprintf(rec->msg, sizeof rec->msg, "%s", msg);
  }
  if (verbose) fprintf(stderr, "  => %s: %s\n", kind, msg);
  fflush(stderr);
  _exit(0);
}
void violation(const char* kind, const std::string& msg) { leave(ST_VIOLATION, kind, msg.c_str()); }
void discard(const std::string& why) { leave(ST_DISCARD, "discard", why.c_str()); }
void internalError(const std::string& msg) { leave(ST_ERROR, "internal", msg.c_str()); }
void finishRun() { leave(ST_OK, "", ""); }

std::string fmt(const char* f, ...) {
  Untraced u;
  char buf[2000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// ---------------------------------------------------------------- observation
std::string Obs::diff(const Obs& o, double tol) const {
  if (rec) rec->comparisons++;
  size_t n = std::min(t.size(), o.t.size());
  for (size_t k = 0; k < n; ++k) {
    const Tok &a = t[k], &b = o.t[k];
    if (a.isInt != b.isInt || strcmp(a.label, b.label) != 0)
      return fmt("token %zu: '%s' instead of '%s'", k, a.label, b.label);
    if (a.isInt) {
      if (a.i != b.i) return fmt("%s (token %zu): %lld instead of %lld", a.label, k, a.i, b.i);
    } else {
      if (std::isnan(a.d) && std::isnan(b.d)) continue;
      if (a.d == b.d) continue;
      double s = std::fmax(1.0, std::fmax(std::fabs(a.d), std::fabs(b.d)));
      if (!(std::fabs(a.d - b.d) <= tol * s)) return fmt("%s (token %zu): %.12g instead of %.12g", a.label, k, a.d, b.d);
    }
  }
  if (t.size() != o.t.size()) return fmt("%zu observations instead of %zu", t.size(), o.t.size());
  return "";
}
uint64_t Obs::hash() const {
  uint64_t h = 77;
  for (auto& x : t) {
    if (x.isInt) h = mix(h, (uint64_t)x.i);
    else {
      uint64_t b;
      double d = x.d == 0 ? 0.0 : x.d;
      memcpy(&b, &d, 8);
      h = mix(h, std::isnan(d) ? 1234567 : b);
    }
  }
  return h;
}

// ---------------------------------------------------------------- faults
static long live = 0;
long liveAllocations() { return live; }

void yieldPoint() {
  Untraced u;
  Plan* p = plan;
  if (!p) return;
  p->yields++;
  if (p->preemptCountdown >= 0 && p->preemptCountdown-- == 0) {
    if (inThreads) {
      if (rec) rec->faults[F_PREEMPT]++;
      plan = nullptr;
      switchThread();
      plan = p;
      p->preemptCountdown = -1;
    }
  }
}
template<class Ex> static void faultPoint(long& seen, long& countdown, Fault kind) {
  seen++;
  if (countdown >= 0 && countdown-- == 0) {
    plan->fired = true;
    if (rec) rec->faults[kind]++;
    event("fault %s", faultName[kind]);
    throw Ex();
  }
}
void callbackPoint() { if (plan) { yieldPoint(); faultPoint<InjectedFault>(plan->callbacks, plan->callbackCountdown, F_CALLBACK); } }
void gridPoint() { if (plan) { yieldPoint(); faultPoint<InjectedFault>(plan->grids, plan->gridCountdown, F_GRID); } }
void backendPoint() { if (plan) { yieldPoint(); faultPoint<InjectedFault>(plan->backends, plan->backendCountdown, F_BACKEND); } }

static void scribble(void* p, size_t n, uint64_t salt) {
  uint64_t s = heapSeed ^ salt;
  unsigned char* c = (unsigned char*)p;
  size_t m = n > 4096 ? 4096 : n;
  size_t k = 0;
  for (; k + 8 <= m; k += 8) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t v = s ^ (s >> 29);
    memcpy(c + k, &v, 8);
  }
  for (; k < m; ++k) c[k] = (unsigned char)(s >> (8 * (k & 7)));
}
static void* allocate(size_t n, size_t align) {
  Untraced u;
  if (plan) {
    yieldPoint();
    faultPoint<std::bad_alloc>(plan->allocs, plan->allocCountdown, F_ALLOC);
  }
  if (n == 0) n = 1;
  void* p = nullptr;
  if (align > 16) {
    if (posix_memalign(&p, align, n)) p = nullptr;
  } else
    p = malloc(n);
  if (!p) throw std::bad_alloc();
  live++;
  if (heapGarbage) scribble(p, n, n);
  return p;
}
extern void (*onFree)(void*, size_t);
void (*onFree)(void*, size_t) = nullptr;
static void release(void* p) {
  if (!p) return;
  live--;
  size_t n = malloc_usable_size(p);
  if (onFree) onFree(p, n);
  Untraced u;
  if (heapGarbage) scribble(p, n, ~n);
  free(p);
}

__attribute__((noinline, no_sanitize("address", "thread"))) void stackGarbage() {
  static uint64_t calls = 0;
  volatile uint64_t* c = (volatile uint64_t*)alloca(16384);
  uint64_t s = heapSeed + ++calls * 0x9e3779b97f4a7c15ull;
  for (int i = 0; i < 2048; ++i) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    c[i] = s ^ (s >> 29);
  }
}

// ---------------------------------------------------------------- threads
namespace {
struct Thr { pthread_t id; sem_t sem; std::function<void()> body; bool done = false; };
std::vector<Thr*> thr;
sem_t mainSem;
thread_local int self = -1;
int aliveCount = 0;

void* threadMain(void* a) {
  long k = (long)a;
  self = (int)k;
  while (sem_wait(&thr[k]->sem)) {}
  try {
    traced = true;
    thr[k]->body();
    traced = false;
  } catch (std::exception& e) {
    traced = false;
    violation("unexpected-exception", std::string("an exception left a client: ") + e.what());
  } catch (...) {
    violation("unexpected-exception", "an exception left a client");
  }
  plan = nullptr;
  thr[k]->done = true;
  --aliveCount;
  // nobody exits before all are done: the exit of a thread touches the heap
  if (aliveCount == 0) {
    sem_post(&mainSem);
    while (sem_wait(&thr[k]->sem)) {}
    return nullptr;
  }
  std::vector<int> r;
  for (size_t i = 0; i < thr.size(); ++i) if (!thr[i]->done) r.push_back((int)i);
  int n = r[choose((uint32_t)r.size())];
  sem_post(&thr[n]->sem);
  while (sem_wait(&thr[k]->sem)) {}
  return nullptr;
}
} // namespace

int currentThread() { return self; }
extern void (*onSwitch)();
void (*onSwitch)() = nullptr;

static void handTo(int n) {
  int me = self;
  if (rec) rec->switches++;
  sem_post(&thr[n]->sem);
  while (sem_wait(&thr[me]->sem)) {}
}
void switchThread() {
  Untraced u;
  if (!inThreads || self < 0) return;
  int r[64], k = 0;
  for (size_t i = 0; i < thr.size() && k < 64; ++i) if (!thr[i]->done && (int)i != self) r[k++] = (int)i;
  if (k == 0) return;
  int n = r[choose((uint32_t)k)];
  handTo(n);
}
static long blockCount = 0;
void blockSwitch() {
  Untraced u;
  if (!inThreads || self < 0) return;
  if (++blockCount > 2000000) violation("no-progress", "simulated threads wait for each other without progress");
  for (size_t d = 1; d <= thr.size(); ++d) {
    int i = (int)((self + d) % thr.size());
    if (!thr[i]->done && i != self) { handTo(i); return; }
  }
  violation("no-progress", "a simulated thread waits for something no other thread can provide");
}
extern void (*onThreadsStart)(int);
void (*onThreadsStart)(int) = nullptr;
extern void (*onThreadsEnd)();
void (*onThreadsEnd)() = nullptr;

void runThreads(const std::vector<std::function<void()>>& bodies) {
  sem_init(&mainSem, 0, 0);
  std::vector<Thr*> mine;
  for (auto& b : bodies) {
    auto t = new Thr;
    t->body = b;
    sem_init(&t->sem, 0, 0);
    mine.push_back(t);
  }
  thr = mine;
  aliveCount = (int)thr.size();
  inThreads = true;
  if (onThreadsStart) onThreadsStart((int)thr.size());
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 4 << 20);
  for (size_t i = 0; i < thr.size(); ++i)
    if (pthread_create(&thr[i]->id, &at, threadMain, (void*)(long)i)) internalError("pthread_create failed");
  int n = (int)choose((uint32_t)thr.size());
  sem_post(&thr[n]->sem);
  while (sem_wait(&mainSem)) {}
  for (auto t : thr) { sem_post(&t->sem); pthread_join(t->id, nullptr); }
  inThreads = false;
  if (onThreadsEnd) onThreadsEnd();
  for (auto t : thr) { sem_destroy(&t->sem); delete t; }
  thr.clear();
  std::vector<Thr*>().swap(thr);
}

std::vector<Engine>& engines() { static std::vector<Engine> e; return e; }

} // namespace sim

// ---------------------------------------------------------------- heap seam
void* operator new(std::size_t n) { return sim::allocate(n, 0); }
void* operator new[](std::size_t n) { return sim::allocate(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return sim::allocate(n, (size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::allocate(n, (size_t)a); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { sim::Disarmed d; try { return sim::allocate(n, 0); } catch (...) { return nullptr; } }   // (not a failure the caller sees)
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { sim::Disarmed d; try { return sim::allocate(n, 0); } catch (...) { return nullptr; } }   // (not a failure the caller sees)
void operator delete(void* p) noexcept { sim::release(p); }
void operator delete[](void* p) noexcept { sim::release(p); }
void operator delete(void* p, std::size_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::release(p); }
