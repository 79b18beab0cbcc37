// Shared by the engines: references from fresh objects, and the history machine.
#pragma once
#include "../sim/iface.hh"
#include <array>
#include <functional>
#include <set>

namespace sim {

// What a fresh object shows that has been bound exactly once.
class Refs {
public:
  using Key = std::array<int, 6>;   // kind, variant, view, generation, element, salt
  explicit Refs(World& w) : w_(w) {}
  ~Refs() { stopServer(); }
  void startServer();               // references from a pristine process
  void stopServer();
  void noteRemesh(int view, uint64_t seed);
  const Obs& get(int kind, int variant, int view, int elem, int salt);
  Obs global(int kind, int view, int salt);
  void forget(int view);
  int remoteCount = 0;
private:
  bool remote(int kind, int variant, int view, int elem, int salt, Obs& o);
  World& w_;
  std::map<Key, Obs> cache_;
  int to_ = -1, from_ = -1, pid_ = 0, budget_ = 0;
};

struct Outcome { bool threw = false; std::string what; };
// runs f under the plan; an exception is caught and reported
Outcome attempt(Plan& p, const std::function<void()>& f);
// chooses at most one fault for the next operation; `sites` is a bit set of 1<<Fault
bool choosePlan(Plan& p, unsigned sites, int num, int den, const Plan& typical);

struct HistoryConfig {
  int steps = 24;
  int wBind = 8, wUnbind = 2, wMake = 3, wDrop = 1, wCopy = 0, wMove = 0, wAssign = 0, wMoveAssign = 0, wSelfAssign = 0, wDerive = 0;
  int wNewSource = 1, wCopySource = 0, wMoveSource = 0, wAssignSource = 0, wKillSource = 0, wRemesh = 0, wUpdate = 0, wSalt = 0, wEval = 0;
  unsigned faultSites = 0;
  int faultNum = 0, faultDen = 10;
  int maxBindables = 6, maxSources = 3;
  int kindMask = 7;
  bool isolated = true;     // sometimes take references from a pristine process
  bool deepCheck = true;    // check every live object after every step
  bool absolute = false;    // also compare with the absolute oracle
  std::function<void(World&, Source&)> inspect;  // called for every basis after it changed
};
constexpr unsigned ALLFAULTS = (1u << F_ALLOC) | (1u << F_CALLBACK) | (1u << F_GRID) | (1u << F_BACKEND);
// runs f three times with the same decisions; the last two have to leave the
// heap as they found it
void leakFree(const std::function<void()>& f);
// executes one random history; reports violations itself
void runHistory(World& w, const HistoryConfig& c);

} // namespace sim
