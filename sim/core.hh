// Simulator core: one seeded source of decisions, an event log, fault seams,
// a cooperative scheduler for simulated threads, and the run record.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <exception>
#include <new>

namespace sim {

// ---------------------------------------------------------------- run record
// Lives in memory shared between the supervising process and the forked run.
enum Status : int { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ERROR = 3, ST_DISCARD = 4 };

// fault kinds (all are counted when they actually fire)
enum Fault : int {
  F_ALLOC, F_CALLBACK, F_GRID, F_COPY, F_MOVE, F_BACKEND, F_PREEMPT, F_KILL_SOURCE, F_REMESH, F_GARBAGE, F_NUM
};
extern const char* faultName[F_NUM];

constexpr int MAXCHOICES = 1 << 16;
constexpr int MAXCOVER = 4096;
constexpr int NPROBE = 64;

struct Record {
  int status;
  char kind[96];      // short signature of the violation
  char msg[4000];
  char casename[96];
  uint32_t nChoices;
  uint32_t choice[MAXCHOICES];
  uint32_t bound[MAXCHOICES];
  uint64_t eventHash;
  uint64_t events;          // number of simulated events (logical time)
  uint64_t comparisons;     // oracle evaluations
  uint64_t faults[F_NUM];
  uint64_t switches;
  uint64_t accesses;        // instrumented memory accesses (race engine)
  uint32_t nCover;
  uint64_t cover[MAXCOVER]; // hashes of (case, op, previous op, outcome) tuples
  uint64_t probe[NPROBE];
  uint64_t logHash;         // hash of the observable log (environment-independent)
};
extern Record* rec;
extern bool verbose;        // print events while running (replay)

// ---------------------------------------------------------------- decisions
void seedChoices(uint64_t seed);
void replayChoices(const uint32_t* v, size_t n);
uint32_t choose(uint32_t n);                       // 0..n-1; 0 is the simplest alternative
inline bool flip(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
int chooseWeighted(const std::vector<int>& w);     // index, by weight
uint64_t mix(uint64_t a, uint64_t b);
struct SubReplay {                                 // takes decisions from a list, unrecorded
  explicit SubReplay(const std::vector<uint32_t>& v);
  ~SubReplay();
};

// ---------------------------------------------------------------- log
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void cover(uint64_t h);
[[noreturn]] void violation(const char* kind, const std::string& msg);
[[noreturn]] void discard(const std::string& why);  // the run could not be set up
[[noreturn]] void internalError(const std::string& msg);
[[noreturn]] void finishRun();

// ---------------------------------------------------------------- observation
// A sequence of labelled tokens; numbers compare with a tolerance.
struct Obs {
  struct Tok { const char* label; bool isInt; long long i; double d; };
  std::vector<Tok> t;
  void i(const char* label, long long v) { t.push_back({label, true, v, 0}); }
  void d(const char* label, double v) { t.push_back({label, false, 0, v}); }
  void clear() { t.clear(); }
  // empty string if equal
  std::string diff(const Obs& other, double tol = 1e-8) const;
  uint64_t hash() const;
};

// ---------------------------------------------------------------- faults
struct InjectedFault : std::exception {
  const char* what() const noexcept override { return "injected fault"; }
};

// What may happen inside the library call executed right now by this thread.
struct Plan {
  long allocCountdown = -1;    // fail the allocation when it reaches 0
  long callbackCountdown = -1; // throw in the user callback
  long gridCountdown = -1;     // throw in a grid query
  long backendCountdown = -1;  // throw in a user vector backend
  long preemptCountdown = -1;  // switch thread at this yield point
  long allocs = 0, callbacks = 0, grids = 0, backends = 0, yields = 0; // seen
  bool fired = false;
};
extern thread_local Plan* plan;
struct Armed {
  Plan* old;
  explicit Armed(Plan& p) : old(plan) { plan = &p; }
  ~Armed() { plan = old; }
};
struct Disarmed {
  Plan* old;
  Disarmed() : old(plan) { plan = nullptr; }
  ~Disarmed() { plan = old; }
};
void callbackPoint();  // called in every user supplied callable
void gridPoint();      // called in grid queries of the simulated grid
void backendPoint();   // called in user supplied coefficient containers
void yieldPoint();     // possible thread switch

// heap
extern uint64_t heapSeed;         // garbage written to fresh and released memory
extern bool heapGarbage;
long liveAllocations();           // operator new calls minus operator delete calls
void stackGarbage();              // scribbles over the unused stack

// ---------------------------------------------------------------- threads
// Runs the given bodies as simulated threads; exactly one runs at any time.
void runThreads(const std::vector<std::function<void()>>& bodies);
int currentThread();     // -1 outside runThreads
void switchThread();     // hand the baton to a thread chosen by the scheduler
void blockSwitch();      // the current thread can't make progress: run another one
extern bool inThreads;

// ---------------------------------------------------------------- engines
struct Engine {
  const char* property;
  const char* name;
  int weight;
  std::function<void()> run;   // one simulated run; ends by returning or finishRun
};
std::vector<Engine>& engines();
struct RegisterEngine {
  RegisterEngine(const char* p, const char* n, int w, std::function<void()> f) { engines().push_back({p, n, w, f}); }
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void probe(int k) { if (rec) rec->probe[k]++; }

} // namespace sim
