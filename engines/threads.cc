// P03: several threads use the library at once, each with its own local views,
// local functions, copies and vectors, on shared constant bases and functions.
// The simulator switches threads at any memory access, keeps track of the
// happens-before order, and compares what every thread saw with what a fresh
// object shows when nothing else is going on.
#include "common.hh"
#include "../sim/iface.hh"
#include <optional>

namespace sim {
namespace {
enum Op { MAKE, BIND, UNBIND, COPY, ASSIGN, DERIVE, DROP, COPYSHARED, GLOBAL, EVAL, INTERP, OWNSOURCE, COPYSOURCE, NUMBERING, NOPS };
const char* opName[] = {"make", "bind", "unbind", "copy", "assign", "derive", "drop", "copy of a shared object", "sizes", "evaluate", "interpolate", "own source", "copy of a source", "numbering"};

struct Saw { int what; int kind, variant, view, elem, salt; Obs o; std::string text; Store st; };
struct Mine { std::unique_ptr<Bindable> b; int kind, variant, view, salt; int src; int elem = -1; };
struct Shared { std::unique_ptr<Source> s; int kind; };
struct SharedB { std::unique_ptr<Bindable> b; int kind, variant, view, salt, src, elem; };
// decided before the threads start; a thread only executes
struct Step { Op op; uint32_t a, b, c; Plan plan; bool faulty; };

struct Client {
  World& w;
  const std::vector<Shared>& shared;
  const std::vector<SharedB>& proto;
  std::vector<Step> prog;
  std::vector<Shared> own;
  std::vector<Mine> mine;
  std::vector<Saw> saw;
  Client(World& w_, const std::vector<Shared>& s, const std::vector<SharedB>& p) : w(w_), shared(s), proto(p) {}
  const Shared& source(int i) const { return i < (int)shared.size() ? shared[i] : own[i - shared.size()]; }
  int sources() const { return int(shared.size() + own.size()); }
  void look(Mine& m, const char* when) {
    if (m.elem < 0) return;
    Saw x{0, m.kind, m.variant, m.view, m.elem, m.salt, {}, when, {}};
    m.b->observe(x.o);
    saw.push_back(std::move(x));
  }
  void run() {
    for (auto& s : prog) {
      event("%s", opName[s.op]);
      try {
        if (s.faulty) { Armed a(s.plan); step(s); }
        else step(s);
      } catch (InjectedFault&) {
        if (!s.plan.fired) violation("unexpected-exception", "an injected fault appears in another thread");
      } catch (std::bad_alloc&) {
        if (!s.plan.fired) violation("unexpected-exception", "out of memory without a reason");
      } catch (std::exception& e) {
        violation("unexpected-exception", std::string(opName[s.op]) + " failed: " + e.what());
      }
    }
  }
  void step(Step& s) {
    int n = (int)mine.size();
    switch (s.op) {
    case MAKE: {
      if (n >= 6) break;
      int i = int(s.a % sources());
      auto& src = source(i);
      int nv = src.s->variants();
      if (nv == 0) break;
      Mine m{nullptr, src.kind, int(s.b % nv), src.s->view, src.s->salt, i};
      m.b = src.s->make(m.variant);
      { Disarmed d; mine.push_back(std::move(m)); }
      break;
    }
    case BIND: {
      if (!n) break;
      auto& m = mine[s.a % n];
      m.elem = -1;
      int e = int(s.b % w.elements(m.view));
      m.b->bind(m.view, e);
      m.elem = e;
      { Disarmed d; look(m, "bind"); }
      break;
    }
    case UNBIND: if (n) { auto& m = mine[s.a % n]; m.b->unbind(); m.elem = -1; } break;
    case COPY: {
      if (!n || n >= 6) break;
      auto& m = mine[s.a % n];
      Mine c{m.b->copy(), m.kind, m.variant, m.view, m.salt, m.src, m.elem};
      { Disarmed d; look(c, "copy"); mine.push_back(std::move(c)); look(m, "copy"); }
      break;
    }
    case COPYSHARED: {
      if (n >= 6 || proto.empty()) break;
      auto& p = proto[s.a % proto.size()];
      Mine c{p.b->copy(), p.kind, p.variant, p.view, p.salt, p.src, p.elem};
      { Disarmed d; look(c, "copy of a shared object"); mine.push_back(std::move(c)); }
      break;
    }
    case ASSIGN: {
      if (!n || proto.empty()) break;
      auto& p = proto[s.a % proto.size()];
      for (auto& m : mine)
        if (m.kind == p.kind && m.variant == p.variant && m.src == p.src) {
          m.elem = -1;
          if (m.b->assign(*p.b)) { m.elem = p.elem; m.view = p.view; m.salt = p.salt; }
          else break;
          Disarmed d;
          look(m, "assignment of a shared object");
          break;
        }
      break;
    }
    case DERIVE: {
      if (!n || n >= 6) break;
      auto& m = mine[s.a % n];
      if (m.b->derivedVariant() < 0) break;
      Mine c{m.b->derived(), m.kind, m.b->derivedVariant(), m.view, m.salt, m.src, m.elem};
      if (!c.b) break;
      if (c.elem >= 0 && !c.b->bound()) c.elem = -1;
      { Disarmed d; look(c, "derivative"); mine.push_back(std::move(c)); }
      break;
    }
    case DROP: if (n) { mine.erase(mine.begin() + s.a % n); } break;
    case GLOBAL: {
      auto& src = source(int(s.a % sources()));
      Saw x{1, src.kind, 0, src.s->view, 0, src.s->salt, {}, "", {}};
      Disarmed d;
      src.s->observeGlobal(x.o);
      saw.push_back(std::move(x));
      break;
    }
    case EVAL: {
      auto& src = source(int(s.a % sources()));
      if (src.kind == 0 && w.isBasis()) break;
      int e = int(s.b % w.elements(src.s->view));
      Saw x{2, src.kind, int(s.c % 2), src.s->view, e, src.s->salt, {}, "", {}};
      if (src.s->view != 0) break;
      if (src.s->evaluateAt(e, x.variant, x.o)) { Disarmed d; saw.push_back(std::move(x)); }
      break;
    }
    case INTERP: {
      if (!w.isBasis() || w.interpJobs() == 0) break;
      auto& src = source(int(s.a % sources()));
      if (src.kind != 0) break;
      int jobs = w.interpJobs() + (w.componentJob() && w.interpJobs() == 2 ? 1 : 0);
      Saw x{3, src.kind, int(s.b % jobs), src.s->view, 0, int(s.c % 5), {}, "", {}};
      w.interpolate(*src.s, x.variant, x.salt, x.st, nullptr);
      { Disarmed d; saw.push_back(std::move(x)); }
      break;
    }
    case OWNSOURCE: {
      if (own.size() >= 2) break;
      int k = int(s.a % w.kinds());
      auto p = w.make(k, int(s.b % w.views()), int(s.c % 5));
      { Disarmed d; own.push_back({std::move(p), k}); }
      break;
    }
    case COPYSOURCE: {
      if (own.size() >= 2) break;
      auto& src = source(int(s.a % sources()));
      auto p = src.s->copy();
      if (!p) break;
      int k = src.kind;
      { Disarmed d; own.push_back({std::move(p), k}); }
      break;
    }
    case NUMBERING: break;
    case NOPS: break;
    }
  }
};

void concurrent() {
  auto& c = pickCase(C_BASIS | C_FUNCTION | C_TRANSFER);
  auto w = c.make();
  std::vector<Shared> shared;
  int ns = 1 + (int)choose(3);
  for (int i = 0; i < ns; ++i) {
    int k = (int)choose(w->kinds()), v = (int)choose(w->views()), salt = (int)choose(5);
    shared.push_back({w->make(k, v, salt), k});
  }
  std::vector<SharedB> proto;
  int np = (int)choose(3);
  for (int i = 0; i < np; ++i) {
    int j = (int)choose(ns);
    int nv = shared[j].s->variants();
    if (!nv) continue;
    int v = (int)choose(nv);
    SharedB b{shared[j].s->make(v), shared[j].kind, v, shared[j].s->view, shared[j].s->salt, j, -1};
    if (choose(3)) { b.elem = (int)choose(w->elements(b.view)); b.b->bind(b.view, b.elem); }
    proto.push_back(std::move(b));
  }
  int nt = 2 + (int)choose(2);
  bool faults = flip(1, 4);
  std::vector<std::unique_ptr<Client>> clients;
  int flavour = (int)choose(5);   // 0: mixed
  for (int t = 0; t < nt; ++t) {
    auto cl = std::make_unique<Client>(*w, shared, proto);
    int steps = 2 + (int)choose(12);
    for (int k = 0; k < steps; ++k) {
      std::vector<int> wt(NOPS, 0);
      wt[MAKE] = k < 2 ? 12 : 4; wt[BIND] = 10; wt[UNBIND] = 1; wt[COPY] = 2; wt[DROP] = 1; wt[COPYSHARED] = 3; wt[ASSIGN] = 2; wt[DERIVE] = 1;
      wt[GLOBAL] = flavour == 1 ? 12 : 1; wt[EVAL] = flavour == 2 ? 12 : 2; wt[INTERP] = flavour == 3 ? 8 : 1; wt[OWNSOURCE] = flavour == 4 ? 12 : 1; wt[COPYSOURCE] = 2;
      Step s{};
      s.op = (Op)chooseWeighted(wt);
      s.a = choose(1 << 10); s.b = choose(1 << 10); s.c = choose(1 << 10);
      s.faulty = faults && flip(1, 5);
      if (s.faulty) { Plan none; Plan hint; hint.allocs = hint.callbacks = hint.grids = hint.backends = 30; choosePlan(s.plan, ALLFAULTS, 1, 1, hint); }
      cl->prog.push_back(s);
    }
    cl->saw.reserve(128); cl->mine.reserve(16); cl->own.reserve(4);
    clients.push_back(std::move(cl));
  }
  std::vector<std::function<void()>> bodies;
  for (auto& cl : clients) { Client* p = cl.get(); bodies.push_back([p] { p->run(); }); }
  runThreads(bodies);
  // what was seen is what would have been seen alone
  Refs refs(*w);
  for (int t = 0; t < nt; ++t) {
    Client& cl = *clients[t];
    for (auto& x : cl.saw) {
      std::string d, what;
      rec->logHash = mix(rec->logHash, x.o.hash());
      if (x.what == 0) { d = x.o.diff(refs.get(x.kind, x.variant, x.view, x.elem, x.salt)); what = "what " + w->kindName(x.kind) + " shows after " + x.text; }
      else if (x.what == 1) { d = x.o.diff(refs.global(x.kind, x.view, x.salt)); what = "the sizes"; }
      else if (x.what == 2) {
        Obs o;
        auto s = w->make(x.kind, x.view, x.salt);
        s->view = x.view;
        s->evaluateAt(x.elem, x.variant, o);
        d = x.o.diff(o); what = "a value in world coordinates";
      } else {
        Store st;
        auto s = w->make(x.kind, x.view, 0);
        w->interpolate(*s, x.variant, x.salt, st, nullptr);
        rec->comparisons++;
        what = "an interpolation";
        if (st.size() != x.st.size()) d = fmt("%zu coefficients instead of %zu", x.st.size(), st.size());
        else for (auto a = st.begin(), b = x.st.begin(); a != st.end(); ++a, ++b) if (a->first != b->first || std::fabs(a->second - b->second) > 1e-9 * (1 + std::fabs(a->second))) { d = fmt("coefficient %.12g instead of %.12g", b->second, a->second); break; }
      }
      if (!d.empty()) violation("thread-dependent", fmt("thread %d: %s differs from a sequential run: %s", t, what.c_str(), d.c_str()));
      cover(mix(mix(x.what, x.kind), mix(x.variant, rec->switches % 64)));
    }
    event("thread %d saw %016llx", t, (unsigned long long)rec->logHash);
  }
  // the shared objects are as they were
  for (auto& s : shared) { Obs a; s.s->observeGlobal(a); auto d = a.diff(refs.global(s.kind, s.s->view, s.s->salt)); if (!d.empty()) violation("thread-dependent", "a shared constant object has changed: " + d); }
  for (auto& p : proto)
    if (p.elem >= 0) { Obs a; p.b->observe(a); auto d = a.diff(refs.get(p.kind, p.variant, p.view, p.elem, p.salt)); if (!d.empty()) violation("thread-dependent", "a shared local object has changed: " + d); }
}
static RegisterEngine a("P03", "concurrent", 1, concurrent);
} // namespace
} // namespace sim
