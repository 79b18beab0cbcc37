// P06: interpolation that is masked, repeated, interrupted; P10: containers
#include "common.hh"
namespace sim {

static std::string same(const Store& a, const Store& b, const char* what) {
  if (rec) rec->comparisons++;
  for (auto& [i, v] : b) {
    auto it = a.find(i);
    std::string n;
    for (auto x : i) n += std::to_string(x) + " ";
    if (it == a.end()) return fmt("%s: index %smissing", what, n.c_str());
    if (std::isnan(v) && std::isnan(it->second)) continue;
    if (!(std::fabs(v - it->second) <= 1e-7 * std::fmax(1.0, std::fabs(v)))) return fmt("%s: index %s: %.10g instead of %.10g", what, n.c_str(), it->second, v);
  }
  return "";
}

static void interpolation() {
  World* wp = nullptr;
  std::unique_ptr<World> holder = pickCase(C_BASIS).make();
  wp = holder.get();
  World& w = *wp;
  if (w.interpJobs() == 0) return;
  int view = (int)choose(w.views());
  auto s = w.make(0, view, 0);
  int rounds = 1 + choose(4);
  Plan typical;
  Store target;      // lives across the rounds
  for (int r = 0; r < rounds; ++r) {
    if (w.canRemesh() && r > 0 && flip(1, 4)) {
      uint64_t seed = choose(64);
      event("remesh %llu and update", (unsigned long long)seed);
      rec->faults[F_REMESH]++;
      w.remesh(view, seed);
      s->update(view);
      target.clear();
    }
    auto all = w.allIndices(*s);
    int job = (int)choose(w.interpJobs() + (w.componentJob() ? 2 : 0));
    if (job >= w.interpJobs()) job = 2;
    int salt = (int)choose(40);
    // what an undisturbed run into an empty vector gives
    Store ref;
    {
      Disarmed d;
      std::map<Index, bool> full;
      for (auto& i : all) full[i] = true;
      auto fresh = w.make(0, view, 0);
      w.interpolate(*fresh, job, salt, ref, &full);
      std::set<Index> comp;
      if (job == 2) w.componentIndices(*fresh, comp);
      const std::set<Index>& dom = job == 2 ? comp : all;
      for (auto& i : dom) if (!ref.count(i)) violation("incomplete", "an interpolation leaves coefficients unset");
      for (auto& [i, v] : ref) if (!dom.count(i)) violation("foreign-coefficient", "an interpolation touches coefficients that do not belong to its space");
      if (job == 1 && w.projection()) {
        Store c;
        w.coefficients(*fresh, salt, c);
        auto e = same(ref, c, "interpolating a member of the space");
        if (!e.empty()) violation("not-a-projection", e);
      }
      if (job == 2) {
        Store whole;
        w.interpolate(*fresh, 0, salt, whole, &full);
        auto e = same(whole, ref, "interpolating one component, compared with the same component of all components");
        if (!e.empty()) violation("component", e);
      }
    }
    std::map<Index, bool> mask;
    bool masked = flip(2, 3);
    for (auto& i : all) mask[i] = !masked || flip(1, 2);
    const std::map<Index, bool>* mp = masked ? &mask : flip(1, 2) ? &mask : nullptr;
    // old contents
    if (r == 0 || flip(1, 3)) { target.clear(); int k = 0; for (auto& i : all) target[i] = 1000.0 + ++k; }
    Store old = target;
    Plan p;
    bool faulty = choosePlan(p, ALLFAULTS, 1, 2, typical);
    event("%s interpolate %s salt %d masked %d fault %d", holder ? "" : "", w.interpName(job).c_str(), salt, masked, faulty);
    auto o = attempt(p, [&] { w.interpolate(*s, job, salt, target, mp); });
    typical.allocs = std::max(typical.allocs, p.allocs); typical.callbacks = std::max(typical.callbacks, p.callbacks);
    typical.grids = std::max(typical.grids, p.grids); typical.backends = std::max(typical.backends, p.backends);
    cover(mix(mix(job, masked), o.threw));
    auto owned = [&](const Index& i) { return ref.count(i) && (!mp || mask[i]); };
    auto compare = [&](const char* what, bool partial) {
      rec->comparisons++;
      for (auto& [i, v] : target) {
        auto it = old.find(i);
        double before = it == old.end() ? std::nan("") : it->second;
        bool isOld = (std::isnan(v) && std::isnan(before)) || v == before;
        bool isNew = ref.count(i) && std::fabs(v - ref[i]) <= 1e-7 * std::fmax(1.0, std::fabs(v));
        std::string n;
        for (auto x : i) n += std::to_string(x) + " ";
        if (!owned(i)) { if (!isOld) violation("masked-touched", fmt("%s: the coefficient %sis masked out or belongs to another component, but changed from %.10g to %.10g", what, n.c_str(), before, v)); }
        else if (partial ? !(isOld || isNew) : !isNew) {
          // in nonconforming cases the elements may disagree about the value
          if (partial && !w.tightInterpolation()) continue;
          violation(partial ? "torn-coefficient" : "wrong-coefficient", fmt("%s: the coefficient %sis %.10g, expected %.10g", what, n.c_str(), v, ref.count(i) ? ref[i] : 0.0));
        }
      }
    };
    if (o.threw) {
      compare("after a failed interpolation", true);
      event("retry");
      Plan q;
      attempt(q, [&] { w.interpolate(*s, job, salt, target, mp); });
      compare("after the retry", false);
    } else
      compare("after the interpolation", false);
    if (flip(1, 3)) {
      Plan q;
      attempt(q, [&] { w.interpolate(*s, job, salt, target, mp); });
      compare("after a repetition", false);
    }
    double sum = 0;
    for (auto& x : target) sum += x.second;
    event("  sum %.9g", sum);
  }
}
static RegisterEngine e6("P06", "interpolation", 1, interpolation);

static void containers() {
  auto holder = pickCase(C_BASIS).make();
  World& w = *holder;
  if (w.containers() == 0) return;
  int view = (int)choose(w.views());
  auto s = w.make(0, view, 0);
  struct C { std::unique_ptr<World::Container> c; int kind; bool fits; int salt; };
  std::vector<C> cs;
  Plan typical[4];
  int steps = 4 + (int)choose(16);
  auto fail = [&](const C& c, const std::string& e, const char* when) { if (!e.empty()) violation("container", fmt("%s, %s: %s", w.containerName(c.kind).c_str(), when, e.c_str())); };
  auto verify = [&](const char* when) {
    Disarmed d;
    for (auto& c : cs) if (c.fits && c.salt >= 0) fail(c, c.c->checkFill(*s, c.salt), when);
  };
  for (int k = 0; k < steps; ++k) {
    int op = chooseWeighted({cs.empty() ? 20 : 3, cs.empty() ? 0 : 4, cs.empty() ? 0 : 4, w.canRemesh() ? 3 : 0, cs.empty() ? 0 : 1, cs.empty() ? 0 : 1, 1});
    Plan p;
    auto keep = [&](int i) { auto& t = typical[i]; t.allocs = std::max(t.allocs, p.allocs); t.grids = std::max(t.grids, p.grids); };
    switch (op) {
      case 0: {
        if (cs.size() > 4) break;
        int kind = (int)choose(w.containers());
        event("make %s", w.containerName(kind).c_str());
        choosePlan(p, 1u << F_ALLOC, 1, 4, typical[0]);
        std::unique_ptr<World::Container> c;
        auto o = attempt(p, [&] { c = w.makeContainer(kind, *s); });
        keep(0);
        if (o.threw) break;
        cs.push_back({std::move(c), kind, true, -1});
        fail(cs.back(), cs.back().c->check(*s), "after construction");
        break;
      }
      case 1: {
        auto& c = cs[choose(cs.size())];
        event("resize %s", w.containerName(c.kind).c_str());
        choosePlan(p, 1u << F_ALLOC, 1, 3, typical[1]);
        auto o = attempt(p, [&] { c.c->resize(*s); });
        keep(1);
        if (o.threw) { c.fits = false; c.salt = -1; break; }
        c.fits = true; c.salt = -1;
        fail(c, c.c->check(*s), "after a resize");
        break;
      }
      case 2: {
        auto& c = cs[choose(cs.size())];
        if (!c.fits) break;
        int salt = (int)choose(50);
        event("fill with %d", salt);
        c.c->fill(*s, salt);
        c.salt = salt;
        fail(c, c.c->checkFill(*s, salt), "after filling");
        break;
      }
      case 3: {
        uint64_t seed = choose(64);
        event("remesh %llu", (unsigned long long)seed);
        rec->faults[F_REMESH]++;
        w.remesh(view, seed);
        s->update(view);
        for (auto& c : cs) c.fits = false;
        break;
      }
      case 4: {
        auto& c = cs[choose(cs.size())];
        if (!c.fits) break;
        double v = (int)choose(5) * 0.5;
        event("assign %g", v);
        c.salt = -1;
        fail(c, c.c->scalar(v), "after assigning a number");
        break;
      }
      case 5: {
        if (cs.size() > 4) break;
        auto& c = cs[choose(cs.size())];
        event("copy");
        C n{nullptr, c.kind, c.fits, c.salt};
        n.c = c.c->copy();
        cs.push_back(std::move(n));
        break;
      }
      case 6: {
        event("basis copied and replaced");
        auto n = s->copy();
        s = std::move(n);
        break;
      }
    }
    cover(mix(op, p.fired));
    verify("after another operation");
  }
  for (auto& c : cs) {
    Plan p;
    attempt(p, [&] { c.c->resize(*s); });
    fail(c, c.c->check(*s), "after the final resize");
    c.c->fill(*s, 7);
    c.fits = true; c.salt = 7;
  }
  verify("at the end");
}
static RegisterEngine e10("P10", "containers", 1, containers);
} // namespace sim
