#include "iface.hh"
#include "simgrid.hh"
#include <algorithm>
#include <cstring>
#include <cstdio>
namespace sim {
std::vector<Case>& cases() { static std::vector<Case> c; return c; }
static void sortCases() {
  static bool done = false;
  if (done) return;
  done = true;
  std::sort(cases().begin(), cases().end(), [](auto& a, auto& b) { return a.name < b.name; });
}
Case& pickCase(unsigned flags) {
  sortCases();
  std::vector<Case*> c;
  std::vector<int> w;
  for (auto& x : cases())
    if ((x.flags & flags) && (!onlyCase || x.name.find(onlyCase) != std::string::npos)) { c.push_back(&x); w.push_back(x.weight); }
  if (c.empty()) internalError("no case");
  Case& r = *c[chooseWeighted(w)];
  snprintf(rec->casename, sizeof rec->casename, "%s", r.name.c_str());
  event("case %s", r.name.c_str());
  return r;
}
} // namespace sim
namespace simgrid {
void staleEntity() { sim::violation("stale-entity", "an entity of the grid before its last change was used"); }
}
