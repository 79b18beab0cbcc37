#include "common.hh"
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>

namespace sim {

// ---------------------------------------------------------------- references
static bool readAll(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
    c += k; n -= k;
  }
  return true;
}
static bool writeAll(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
    c += k; n -= k;
  }
  return true;
}
struct Cmd { char c; int kind, variant, view, elem, salt; uint64_t seed; };

static void freshObs(World& w, int kind, int variant, int view, int elem, int salt, Obs& o) {
  Disarmed d;
  auto s = w.make(kind, view, salt);
  auto b = s->make(variant);
  b->bind(view, elem);
  b->observe(o);
}

void Refs::startServer() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) return;
  signal(SIGPIPE, SIG_IGN);
  pid_ = fork();
  if (pid_ == 0) {
    close(a[1]); close(b[0]);
    Record* r = (Record*)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rec = r;
    verbose = false;
    Cmd c;
    while (readAll(a[0], &c, sizeof c)) {
      if (c.c == 'M') { w_.remesh(c.view, c.seed); continue; }
      if (c.c != 'R') break;
      pid_t p = fork();
      if (p == 0) {
        Obs o;
        freshObs(w_, c.kind, c.variant, c.view, c.elem, c.salt, o);
        size_t n = o.t.size();
        if (!writeAll(b[1], &n, sizeof n) || !writeAll(b[1], o.t.data(), n * sizeof(Obs::Tok))) _exit(1);
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      if (st != 0) { size_t n = ~size_t(0); writeAll(b[1], &n, sizeof n); }
    }
    _exit(0);
  }
  close(a[0]); close(b[1]);
  to_ = a[1]; from_ = b[0];
  budget_ = 4;
}
void Refs::stopServer() {
  if (pid_ <= 0) return;
  close(to_); close(from_);
  int st;
  waitpid(pid_, &st, 0);
  pid_ = 0; to_ = from_ = -1;
}
void Refs::noteRemesh(int view, uint64_t seed) {
  if (w_.remeshAffectsAll()) cache_.clear();
  forget(view);
  if (pid_ > 0) { Cmd c{}; c.c = 'M'; c.view = view; c.seed = seed; writeAll(to_, &c, sizeof c); }
}
void Refs::forget(int view) {
  for (auto it = cache_.begin(); it != cache_.end();)
    if (it->first[2] == view) it = cache_.erase(it); else ++it;
}
bool Refs::remote(int kind, int variant, int view, int elem, int salt, Obs& o) {
  if (pid_ <= 0 || budget_ <= 0) return false;
  --budget_;
  Cmd c{};
  c.c = 'R'; c.kind = kind; c.variant = variant; c.view = view; c.elem = elem; c.salt = salt;
  size_t n = 0;
  if (!writeAll(to_, &c, sizeof c) || !readAll(from_, &n, sizeof n) || n > 10000000) { stopServer(); return false; }
  o.t.resize(n);
  if (!readAll(from_, o.t.data(), n * sizeof(Obs::Tok))) { stopServer(); return false; }
  ++remoteCount;
  return true;
}
const Obs& Refs::get(int kind, int variant, int view, int elem, int salt) {
  Key k{kind, variant, view, w_.generation(view), elem, salt};
  auto it = cache_.find(k);
  if (it != cache_.end()) return it->second;
  Disarmed d;
  Obs o;
  if (!remote(kind, variant, view, elem, salt, o)) freshObs(w_, kind, variant, view, elem, salt, o);
  return cache_[k] = o;
}
Obs Refs::global(int kind, int view, int salt) {
  Disarmed d;
  Obs o;
  w_.make(kind, view, salt)->observeGlobal(o);
  return o;
}

// ---------------------------------------------------------------- attempts
Outcome attempt(Plan& p, const std::function<void()>& f) {
  stackGarbage();
  Outcome o;
  try {
    Armed a(p);
    f();
  } catch (InjectedFault& e) {
    o.threw = true; o.what = "injected fault";
  } catch (std::bad_alloc& e) {
    o.threw = true; o.what = "out of memory";
  } catch (std::exception& e) {
    o.threw = true; o.what = e.what();
    if (p.fired) violation("exception-changed", "an injected failure reached the caller as a different exception: " + o.what);
  }
  if (p.fired && !o.threw) violation("exception-swallowed", "a failure inside an operation did not reach the caller");
  if (o.threw && !p.fired) violation("unexpected-exception", "an operation failed although nothing went wrong around it: " + o.what);
  if (o.threw) event("  failed: %s", o.what.c_str());
  return o;
}
bool choosePlan(Plan& p, unsigned sites, int num, int den, const Plan& t) {
  if (!sites || !flip(num, den)) return false;
  std::vector<int> w(F_NUM, 0);
  if (sites & (1u << F_ALLOC)) w[F_ALLOC] = 4;
  if (sites & (1u << F_CALLBACK)) w[F_CALLBACK] = 1;
  if (sites & (1u << F_GRID)) w[F_GRID] = 2;
  if (sites & (1u << F_BACKEND)) w[F_BACKEND] = 1;
  int k = chooseWeighted(w);
  auto range = [](long seen) { return (uint32_t)std::max(2l, std::min(400l, seen + 1)); };
  long n = choose(range(k == F_ALLOC ? t.allocs : k == F_CALLBACK ? t.callbacks : k == F_GRID ? t.grids : t.backends));
  if (k == F_ALLOC) p.allocCountdown = n;
  else if (k == F_CALLBACK) p.callbackCountdown = n;
  else if (k == F_GRID) p.gridCountdown = n;
  else p.backendCountdown = n;
  return true;
}

// ---------------------------------------------------------------- histories
namespace {
struct Src { std::unique_ptr<Source> s; int kind, id; bool stale = false; };
enum St { UNBOUND, BOUND, UNKNOWN, MOVED };
struct Bnd { std::unique_ptr<Bindable> b; int kind, variant, srcId; int srcView; int salt; St st = UNBOUND; int view = 0, gen = 0, elem = 0; bool orphan = false; bool derived = false; };
const char* opName[] = {"bind", "unbind", "make", "drop", "copy", "move", "assign", "move-assign", "self-assign", "derive", "new-source", "copy-source", "move-source", "assign-source", "kill-source", "remesh", "update", "set-coefficients", "evaluate"};
enum Op { BIND, UNBIND, MAKE, DROP, COPY, MOVE, ASSIGN, MOVEASSIGN, SELFASSIGN, DERIVE, NEWSRC, COPYSRC, MOVESRC, ASSIGNSRC, KILLSRC, REMESH, UPDATE, SALT, EVAL, NOPS };

struct Machine {
  World& w;
  const HistoryConfig& c;
  Refs refs;
  std::vector<Src> src;
  std::vector<Bnd> bnd;
  int nextId = 1;
  std::map<int, Plan> typical;   // per operation: how many fault points it has
  int prevOp = 0;
  Machine(World& w_, const HistoryConfig& c_) : w(w_), c(c_), refs(w_) {}

  int findSrc(int id) { for (size_t i = 0; i < src.size(); ++i) if (src[i].id == id) return (int)i; return -1; }
  bool usable(const Bnd& b) {       // may be bound
    if (b.st == MOVED) return false;
    int i = findSrc(b.srcId);
    if (i < 0) return b.orphan && w.generation(b.srcView) == b.gen;
    return !src[i].stale;
  }
  bool settled(const Bnd& b) { return b.st == UNBOUND || b.st == BOUND; }

  void check(Bnd& b, const char* when) {
    if (!settled(b)) return;
    if (b.st == UNBOUND) {
      if (b.b->bound()) violation("bound-state", fmt("after %s an unbound %s reports to be bound", when, name(b).c_str()));
      return;
    }
    if (!usable(b) || w.generation(b.view) != b.gen) return;
    if (!b.b->bound()) violation("bound-state", fmt("after %s a bound %s reports to be unbound", when, name(b).c_str()));
    Obs o;
    b.b->observe(o);
    const Obs& r = refs.get(b.kind, b.variant, b.view, b.elem, b.salt);
    std::string d = o.diff(r);
    rec->logHash = mix(rec->logHash, o.hash());
    if (c.absolute) {
      Obs x;
      if (w.expected(b.kind, b.variant, b.view, b.elem, b.salt, x)) {
        std::string d2 = o.diff(x);
        if (!d2.empty()) violation("wrong-value", fmt("after %s, %s bound to element %d of view %d differs from the value given by basis functions and coefficients: %s", when, name(b).c_str(), b.elem, b.view, d2.c_str()));
      }
    }
    event("  saw %016llx", (unsigned long long)o.hash());
    if (!d.empty()) violation("wrong-observation", fmt("after %s, %s bound to element %d of view %d: %s", when, name(b).c_str(), b.elem, b.view, d.c_str()));
  }
  std::string name(const Bnd& b) { int i = findSrc(b.srcId); return w.kindName(b.kind) + "/" + (i >= 0 ? src[i].s->variantName(b.variant) : std::to_string(b.variant)); }
  void checkAll(const char* when) { for (auto& b : bnd) check(b, when); }

  bool newSource() {
    std::vector<int> ks;
    for (int k = 0; k < w.kinds(); ++k) if (c.kindMask & (1 << k)) ks.push_back(k);
    if (ks.empty()) ks.push_back(0);
    int k = ks[choose((uint32_t)ks.size())], v = (int)choose(w.views()), salt = (int)choose(5);
    Plan p;
    choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[NEWSRC]);
    std::unique_ptr<Source> s;
    event("new-source kind %d view %d salt %d", k, v, salt);
    auto o = attempt(p, [&] { s = w.make(k, v, salt); });
    note(NEWSRC, p);
    if (o.threw) return false;
    src.push_back({std::move(s), k, nextId++});
    checkSource(src.back(), "construction");
    return true;
  }
  void checkSource(Src& s, const char* when) {
    if (s.stale) return;
    Obs a;
    s.s->observeGlobal(a);
    auto d = a.diff(refs.global(s.kind, s.s->view, s.s->salt));
    if (!d.empty()) violation("wrong-basis-state", fmt("after %s, %s on view %d: %s", when, w.kindName(s.kind).c_str(), s.s->view, d.c_str()));
    event("  basis %016llx", (unsigned long long)a.hash());
    if (s.kind == 0 && c.inspect) c.inspect(w, *s.s);
  }
  void note(int op, const Plan& p) {
    auto& t = typical[op];
    t.allocs = std::max(t.allocs, p.allocs); t.callbacks = std::max(t.callbacks, p.callbacks);
    t.grids = std::max(t.grids, p.grids); t.backends = std::max(t.backends, p.backends);
    cover(mix(mix(op, prevOp), p.fired));
    prevOp = op;
  }
  void dropBindablesOf(int id) { for (size_t i = bnd.size(); i-- > 0;) if (bnd[i].srcId == id) bnd.erase(bnd.begin() + i); }

  template<class Pred> int pickB(Pred p) {
    std::vector<int> l;
    for (size_t i = 0; i < bnd.size(); ++i) if (p(bnd[i])) l.push_back((int)i);
    return l.empty() ? -1 : l[choose((uint32_t)l.size())];
  }
  template<class Pred> int pickS(Pred p) {
    std::vector<int> l;
    for (size_t i = 0; i < src.size(); ++i) if (p(src[i])) l.push_back((int)i);
    return l.empty() ? -1 : l[choose((uint32_t)l.size())];
  }
  bool current(const Bnd& b) { return settled(b) && usable(b) && (b.st == UNBOUND || w.generation(b.view) == b.gen); }

  void doBind(Bnd& b) {
    int si = findSrc(b.srcId);
    int v = si >= 0 ? src[si].s->view : b.srcView;
    int salt = si >= 0 ? src[si].s->salt : b.salt;
    int e = (int)choose(w.elements(v));
    Plan p;
    choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[BIND]);
    event("bind %s to %d.%d", name(b).c_str(), v, e);
    stackGarbage();
    auto o = attempt(p, [&] { b.b->bind(v, e); });
    note(BIND, p);
    if (o.threw) { b.st = UNKNOWN; return; }
    b.st = BOUND; b.view = v; b.gen = w.generation(v); b.elem = e; b.salt = salt;
  }

  void step() {
    std::vector<int> wt(NOPS, 0);
    bool room = (int)bnd.size() < c.maxBindables, sroom = (int)src.size() < c.maxSources;
    wt[BIND] = bnd.empty() ? 0 : c.wBind;
    wt[UNBIND] = bnd.empty() ? 0 : c.wUnbind;
    wt[MAKE] = room && c.wMake ? c.wMake + (bnd.empty() ? 20 : 0) : 0;
    wt[DROP] = bnd.empty() ? 0 : c.wDrop;
    wt[COPY] = room && !bnd.empty() ? c.wCopy : 0;
    wt[MOVE] = room && !bnd.empty() ? c.wMove : 0;
    wt[ASSIGN] = bnd.size() > 1 ? c.wAssign : 0;
    wt[MOVEASSIGN] = bnd.size() > 1 ? c.wMoveAssign : 0;
    wt[SELFASSIGN] = bnd.empty() ? 0 : c.wSelfAssign;
    wt[DERIVE] = room && !bnd.empty() ? c.wDerive : 0;
    wt[NEWSRC] = sroom ? c.wNewSource : 0;
    wt[COPYSRC] = sroom ? c.wCopySource : 0;
    wt[MOVESRC] = sroom ? c.wMoveSource : 0;
    wt[ASSIGNSRC] = src.size() > 1 ? c.wAssignSource : 0;
    wt[KILLSRC] = src.size() > 1 ? c.wKillSource : 0;
    wt[REMESH] = w.canRemesh() ? c.wRemesh : 0;
    wt[UPDATE] = c.wUpdate;
    wt[SALT] = c.wSalt;
    wt[EVAL] = c.wEval;
    for (auto& s : src) if (s.stale) wt[UPDATE] += 6;
    int op = chooseWeighted(wt);
    const char* when = opName[op];
    switch (op) {
      case BIND: { int i = pickB([&](Bnd& b) { return usable(b); }); if (i >= 0) doBind(bnd[i]); break; }
      case UNBIND: {
        int i = pickB([&](Bnd& b) { return b.st != MOVED && usable(b); });
        if (i < 0) break;
        event("unbind %s", name(bnd[i]).c_str());
        Plan p;
        attempt(p, [&] { bnd[i].b->unbind(); });
        note(UNBIND, p);
        bnd[i].st = UNBOUND;
        break;
      }
      case MAKE: {
        int i = pickS([&](Src& s) { return !s.stale; });
        if (i < 0) break;
        if (src[i].s->variants() == 0) break;
        int v = (int)choose(src[i].s->variants());
        event("make %s/%s", w.kindName(src[i].kind).c_str(), src[i].s->variantName(v).c_str());
        Plan p;
        choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[MAKE]);
        std::unique_ptr<Bindable> nb;
        auto o = attempt(p, [&] { nb = src[i].s->make(v); });
        note(MAKE, p);
        if (o.threw) break;
        bnd.push_back({std::move(nb), src[i].kind, v, src[i].id, src[i].s->view, src[i].s->salt});
        bnd.back().gen = w.generation(src[i].s->view);
        break;
      }
      case DROP: { int i = (int)choose((uint32_t)bnd.size()); event("drop %d", i); Plan p; { Armed a(p); bnd.erase(bnd.begin() + i); } note(DROP, p); break; }
      case COPY: case MOVE: {
        int i = pickB([&](Bnd& b) { return current(b); });
        if (i < 0) break;
        event("%s %s (%s)", when, name(bnd[i]).c_str(), bnd[i].st == BOUND ? "bound" : "unbound");
        Plan p;
        choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[op]);
        std::unique_ptr<Bindable> nb;
        auto o = attempt(p, [&] { nb = op == COPY ? bnd[i].b->copy() : bnd[i].b->move(); });
        note(op, p);
        if (o.threw) { if (op == MOVE) bnd[i].st = MOVED; break; }
        Bnd n{nullptr, bnd[i].kind, bnd[i].variant, bnd[i].srcId, bnd[i].srcView, bnd[i].salt, bnd[i].st, bnd[i].view, bnd[i].gen, bnd[i].elem, bnd[i].orphan, bnd[i].derived};
        n.b = std::move(nb);
        if (op == MOVE) bnd[i].st = MOVED;
        bnd.push_back(std::move(n));
        break;
      }
      case ASSIGN: case MOVEASSIGN: {
        int i = pickB([&](Bnd& b) { return current(b); });
        if (i < 0) break;
        int j = pickB([&](Bnd& b) { return &b != &bnd[i] && b.kind == bnd[i].kind && b.variant == bnd[i].variant && b.derived == bnd[i].derived; });
        if (j < 0) break;
        event("%s %s (%s) to another one", when, name(bnd[i]).c_str(), bnd[i].st == BOUND ? "bound" : "unbound");
        Plan p;
        choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[op]);
        bool done = false;
        auto o = attempt(p, [&] { done = op == ASSIGN ? bnd[j].b->assign(*bnd[i].b) : bnd[j].b->moveAssign(*bnd[i].b); });
        note(op, p);
        if (o.threw) { bnd[j].st = op == ASSIGN ? UNKNOWN : MOVED; if (op == MOVEASSIGN) bnd[i].st = MOVED; 
          // after a failed assignment it is open which source the target belongs to
          bnd[j].st = MOVED; break; }
        if (!done) break;
        auto &a = bnd[j], &b = bnd[i];
        a.srcId = b.srcId; a.srcView = b.srcView; a.salt = b.salt; a.st = b.st; a.view = b.view; a.gen = b.gen; a.elem = b.elem; a.orphan = b.orphan;
        if (op == MOVEASSIGN) b.st = MOVED;
        break;
      }
      case SELFASSIGN: {
        int i = pickB([&](Bnd& b) { return current(b); });
        if (i < 0) break;
        event("self-assign %s", name(bnd[i]).c_str());
        Plan p;
        auto o = attempt(p, [&] { bnd[i].b->assign(*bnd[i].b); });
        note(op, p);
        (void)o;
        break;
      }
      case DERIVE: {
        int i = pickB([&](Bnd& b) { return current(b) && b.b->derivedVariant() >= 0; });
        if (i < 0) break;
        // the coefficients are read when binding: only derive while they are current
        int si = findSrc(bnd[i].srcId);
        int salt = si >= 0 ? src[si].s->salt : bnd[i].salt;
        event("derive %s (%s)", name(bnd[i]).c_str(), bnd[i].st == BOUND ? "bound" : "unbound");
        Plan p;
        choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[op]);
        std::unique_ptr<Bindable> nb;
        auto o = attempt(p, [&] { nb = bnd[i].b->derived(); });
        note(op, p);
        if (o.threw || !nb) break;
        Bnd n{nullptr, bnd[i].kind, bnd[i].b->derivedVariant(), bnd[i].srcId, bnd[i].srcView, salt, bnd[i].st, bnd[i].view, bnd[i].gen, bnd[i].elem, bnd[i].orphan, true};
        n.b = std::move(nb);
        bnd.push_back(std::move(n));
        break;
      }
      case NEWSRC: newSource(); break;
      case COPYSRC: case MOVESRC: {
        int i = pickS([&](Src& s) { return !s.stale; });
        if (i < 0) break;
        event("%s %s", when, w.kindName(src[i].kind).c_str());
        Plan p;
        choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[op]);
        std::unique_ptr<Source> ns;
        bool surv = src[i].s->survives();
        if (op == MOVESRC && !surv) dropBindablesOf(src[i].id);
        auto o = attempt(p, [&] { ns = op == COPYSRC ? src[i].s->copy() : src[i].s->move(); });
        note(op, p);
        if (o.threw) { if (op == MOVESRC) killSource(i); break; }
        if (!ns) break;
        ns->view = src[i].s->view; ns->salt = src[i].s->salt;
        int k = src[i].kind;
        if (op == MOVESRC) killSource(i);
        src.push_back({std::move(ns), k, nextId++});
        checkSource(src.back(), when);
        break;
      }
      case ASSIGNSRC: {
        int i = pickS([&](Src& s) { return !s.stale; });
        if (i < 0) break;
        int j = pickS([&](Src& s) { return &s != &src[i] && s.kind == src[i].kind; });
        if (j < 0) break;
        bool mv = flip(1, 3);
        event("%s %s", mv ? "move-assign-source" : when, w.kindName(src[i].kind).c_str());
        if (!src[j].s->survives()) dropBindablesOf(src[j].id); else orphan(src[j]);
        if (mv && !src[i].s->survives()) dropBindablesOf(src[i].id); else if (mv) orphan(src[i]);
        Plan p;
        choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[op]);
        bool done = false;
        auto o = attempt(p, [&] { done = mv ? src[j].s->moveAssign(*src[i].s) : src[j].s->assign(*src[i].s); });
        note(op, p);
        if (o.threw) { int a = std::max(i, j), b = std::min(i, j); if (mv) { src.erase(src.begin() + a); src.erase(src.begin() + b); } else src.erase(src.begin() + j); break; }
        src[j].id = nextId++;
        if (done) { src[j].stale = false; checkSource(src[j], when); if (mv) src.erase(src.begin() + i); }
        break;
      }
      case KILLSRC: { int i = (int)choose((uint32_t)src.size()); event("kill-source %s", w.kindName(src[i].kind).c_str()); rec->faults[F_KILL_SOURCE]++; Plan p; killSource(i); note(op, p); break; }
      case REMESH: {
        int v = (int)choose(w.views());
        uint64_t seed = choose(64);
        event("remesh view %d with %llu", v, (unsigned long long)seed);
        rec->faults[F_REMESH]++;
        w.remesh(v, seed);
        refs.noteRemesh(v, seed);
        Plan p;
        note(op, p);
        for (size_t i = src.size(); i-- > 0;)
          if (src[i].s->view == v || w.remeshAffectsAll()) { if (w.updatable(src[i].kind)) src[i].stale = true; else { dropBindablesOf(src[i].id); src.erase(src.begin() + i); } }
        for (size_t i = bnd.size(); i-- > 0;) if (findSrc(bnd[i].srcId) < 0 && (bnd[i].srcView == v || w.remeshAffectsAll())) bnd.erase(bnd.begin() + i);
        break;
      }
      case UPDATE: {
        int i = pickS([&](Src& s) { return w.updatable(s.kind); });
        { std::vector<int> st; for (size_t k = 0; k < src.size(); ++k) if (src[k].stale) st.push_back((int)k); if (!st.empty()) i = st[choose((uint32_t)st.size())]; }
        if (i < 0) break;
        int v = src[i].s->view;
        if (!w.sameViewOnly() && src[i].kind == 0 && flip(1, 3)) v = (int)choose(w.views());
        event("update %s to view %d", w.kindName(src[i].kind).c_str(), v);
        dropBindablesOf(src[i].id);
        Plan p;
        choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[op]);
        bool done = false;
        auto o = attempt(p, [&] { done = src[i].s->update(v); });
        note(op, p);
        if (o.threw) { src[i].stale = true; break; }
        if (done) { src[i].stale = false; checkSource(src[i], when); }
        break;
      }
      case SALT: {
        int i = pickS([&](Src& s) { return s.kind != 0 && !s.s->survives(); });
        if (i < 0) break;
        int s = (int)choose(5);
        event("set-coefficients %d", s);
        if (src[i].s->setSalt(s)) for (auto& b : bnd) if (b.srcId == src[i].id && b.st == BOUND && b.salt != s) b.st = UNKNOWN;   // has to be bound again
        Plan p;
        note(op, p);
        break;
      }
    }
    if (op == EVAL) {
      int i = pickS([&](Src& s) { return !s.stale && (!w.isBasis() || s.kind == 1 || s.kind == 2); });
      if (i >= 0) {
        int e = (int)choose(w.elements(src[i].s->view)), q = (int)choose(2);
        event("evaluate %s on element %d", w.kindName(src[i].kind).c_str(), e);
        Plan p;
        choosePlan(p, c.faultSites, c.faultNum, c.faultDen, typical[op]);
        Obs a, x;
        bool done = false;
        auto o = attempt(p, [&] { done = src[i].s->evaluateAt(e, q, a); });
        note(op, p);
        if (!o.threw && done && w.expectedAt(src[i].kind, src[i].s->view, e, q, src[i].s->salt, x)) {
          auto d = a.diff(x, 1e-6);
          if (!d.empty()) violation("wrong-global-value", fmt("%s evaluated inside of element %d of view %d: %s", w.kindName(src[i].kind).c_str(), e, src[i].s->view, d.c_str()));
        }
      }
    }
    if (c.deepCheck) checkAll(when);
  }
  void orphan(Src& s) { for (auto& b : bnd) if (b.srcId == s.id) { b.orphan = true; b.srcId = -s.id; b.gen = b.st == BOUND ? b.gen : w.generation(b.srcView); } }
  void killSource(int i) {
    if (src[i].s->survives()) orphan(src[i]); else dropBindablesOf(src[i].id);
    src.erase(src.begin() + i);
  }
};
} // namespace

void leakFree(const std::function<void()>& f) {
  uint32_t from = rec->nChoices;
  f();
  std::vector<uint32_t> ch(rec->choice + from, rec->choice + rec->nChoices);
  uint64_t h[2];
  long n[2];
  for (int k = 0; k < 2; ++k) {
    rec->eventHash = 0;
    SubReplay sr(ch);
    event("again");
    f();
    h[k] = rec->eventHash;
    n[k] = liveAllocations();
  }
  // (a first use of some cache moves allocation failures: those runs differ)
  if (h[0] == h[1]) {
    rec->comparisons++;
    probe(0);
    if (n[0] != n[1]) violation("leak", fmt("a history leaves %ld allocations behind", n[1] - n[0]));
  }
}

void runHistory(World& w, const HistoryConfig& c) {
  Machine m(w, c);
  if (c.isolated && flip(1, 4)) m.refs.startServer();
  m.newSource();
  for (int i = 0; i < c.steps; ++i) {
    if (m.src.empty() && !m.newSource()) continue;
    m.step();
  }
  // once the faults stop, everything works again
  for (auto& s : m.src)
    if (s.stale) {
      Plan p;
      m.dropBindablesOf(s.id);
      attempt(p, [&] { s.s->update(s.s->view); });
      s.stale = false;
      m.checkSource(s, "the final update");
    }
  for (auto& b : m.bnd)
    if (m.usable(b)) {
      int si = m.findSrc(b.srcId);
      int v = si >= 0 ? m.src[si].s->view : b.srcView;
      int salt = si >= 0 ? m.src[si].s->salt : b.salt;
      int e = (int)choose(w.elements(v));
      Plan p;
      attempt(p, [&] { b.b->bind(v, e); });
      b.st = BOUND; b.view = v; b.gen = w.generation(v); b.elem = e; b.salt = salt;
    }
  m.checkAll("the final bind");
  m.refs.stopServer();
}

} // namespace sim
